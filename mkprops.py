#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json
S = "src/"
fam = lambda *f: [S + x for x in f]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

INP = "all coefficient vectors in the documented input range, all power-of-two sizes in scope"
WHY = ("the transforms act on vectors with up to (12289)^2048 values; the suite checks a handful of random vectors "
       "per size, so an error tied to a particular value, index or size is sampled with negligible probability")

prop("P01", "Plain transforms compute the exact NTT",
     "Every plain (fully reduced) transform computes exactly the number-theoretic transform modulo 12289 that its header "
     "documents - same input order, output order and weighting by powers of psi - for every power-of-two size from 2 to 2048 "
     "and every input vector with entries in [0, 12288]. Every output entry is again in [0, 12288], and no intermediate "
     "arithmetic overflows.",
     ["inputs", "configurations"], INP, WHY, fam("ntt.c", "ntt.h"),
     [("nine transform routines, five variants with psi weighting", "src/ntt.c")], "contents of the array after the call")
prop("P02", "Reference (naive) transforms compute the exact NTT",
     "Every transform of the reference implementation that takes the modulus as an argument computes, modulo 12289, exactly the "
     "number-theoretic transform its header documents, for every power-of-two size from 2 to 2048 and every input vector with "
     "entries in [0, 12288]. Every output entry has absolute value below 12289 and no intermediate arithmetic overflows.",
     ["inputs", "configurations"], INP, WHY, fam("naive_ntt.c", "naive_ntt.h"),
     [("transform routines with explicit modulus", "src/naive_ntt.c")], "contents of the array after the call")
prop("P03", "Lazy-reduction transforms: right residues, no overflow",
     "For every power-of-two size from 2 to 1024, every lazy-reduction (Longa-Naehrig) transform returns values congruent modulo "
     "12289 to the transform its header documents, for every input vector with |a[i]| <= 21499 and precomputed tables that meet "
     "the documented definition. No intermediate value leaves the 32-bit range for any table with entries in [-6144, 6144].",
     ["inputs", "configurations"], INP, WHY + "; worst-case growth needs an extremal vector", fam("ntt_red.c", "ntt_red.h"),
     [("eight lazy-reduction transform routines", "src/ntt_red.c")], "contents of the array after the call")
prop("P04", "Assembly transforms agree with the lazy-reduction definition",
     "For every power-of-two size from 16 to 1024, every AVX2 assembly transform returns values congruent modulo 12289 to the "
     "transform its header documents, for every input vector with |a[i]| <= 21499 and tables meeting the documented definition, "
     "and the integers it returns are exactly those the C lazy-reduction routine of the same name returns. No vector lane "
     "overflows 32 bits.",
     ["inputs", "configurations"], INP, WHY, fam("ntt_asm.S", "ntt_asm.h", "ntt_red.c"),
     [("eight AVX2 transform routines", "src/ntt_asm.S")], "contents of the array after the call")
for pid, name, what, files, rng in [
    ("P05", "Plain", "plain", ["ntt%d.c" % n for n in (16,256,512,1024)] + ["ntt%d.h" % n for n in (16,256,512,1024)] + ["ntt.c"], ""),
    ("P06", "Reference (naive)", "reference (explicit-modulus)", ["naive_ntt%d.c" % n for n in (16,256,512,1024)] + ["naive_ntt.c"], ""),
    ("P07", "Lazy-reduction", "lazy-reduction C", ["ntt_red%d.c" % n for n in (16,256,512,1024)] + ["ntt_red.c"], ""),
    ("P08", "Assembly", "AVX2 assembly", ["ntt_red_asm%d.c" % n for n in (16,256,512,1024)] + ["ntt_asm.S"], "")]:
    prop(pid, name + " polynomial products equal the negacyclic product",
         "Each of the five %s product routines, at each shipped size (16, 256, 512, 1024), stores in its result array exactly the "
         "product of the two input polynomials modulo X^n + 1 and modulo 12289, for every pair of input vectors with entries in "
         "[0, 12288]. Every entry of the result is in [0, 12288] and no intermediate arithmetic overflows." % what,
         ["inputs", "configurations"], "all pairs of polynomials with canonical coefficients, four sizes, five routines each",
         "a product test samples a few of 12289^(2n) pairs; a wrong table entry, skipped reduction or range error that only shows "
         "for extreme or specific coefficients is missed", fam(*files),
         [("product routines 1-5", "src/" + files[0] + " and siblings")], "result array after the call")
prop("P09", "Size-specific transform entry points invert each other",
     "At each shipped size, every size-specific forward, inverse, weighted-forward and weighted-inverse entry point of every "
     "implementation family computes its documented transform for that size's published parameters, so that an inverse applied to "
     "a matching forward transform yields n times (weighted variants: n times, with the psi weights cancelled) the original vector "
     "modulo 12289, for every input vector in range.",
     ["inputs", "configurations"], "all input vectors, sizes 16/256/512/1024, four families, twelve entry points each",
     "an entry point bound to a wrong but plausible table agrees on sparse or symmetric vectors and is only sampled",
     fam(*["%s%d.h" % (p, n) for p in ("ntt", "naive_ntt", "ntt_red", "ntt_red_asm") for n in (16,256,512,1024)]),
     [("static inline entry points", "src/ntt*.h"), ("generated tables", "src/make_tables.c, src/make_red_tables.c")])
prop("P10", "Reduction and scaling routines meet their range and residue contracts",
     "Each C routine that normalizes, shifts, reduces, corrects or multiplies an array elementwise (by an array or a scalar) "
     "returns, for every element value in its documented input range, the documented residue modulo 12289 (including the exact "
     "factor 3, 9 or 1/3) within the documented output range, for every array length. Elements are processed independently: "
     "element i of the result depends only on element i of the inputs, and no intermediate arithmetic overflows.",
     ["inputs", "configurations"], "all 32-bit element values in each documented range; lengths of every residue modulo 16 up to a bound",
     "range contracts are about the extreme values of intervals of up to 2^43 products; tests sample random mid-range values",
     fam("ntt_red.c", "ntt.c", "naive_ntt.c", "ntt_red.h", "ntt.h", "naive_ntt.h"),
     [("array utilities", "src/ntt_red.c, src/ntt.c, src/naive_ntt.c")])
prop("P11", "Assembly reduction routines return the same integers as the C ones",
     "Each AVX2 routine that shifts, reduces, corrects or multiplies an array elementwise returns exactly the same integers as its "
     "C counterpart, for every element value in the documented range and every length that is a positive multiple of 16.",
     ["inputs", "configurations"], "all element values in range, lengths 16..128 in steps of 16 and 256",
     "lane-crossing, sign and shift mistakes show only for particular values in particular lanes",
     fam("ntt_asm.S", "ntt_asm.h", "ntt_red.c"), [("AVX2 array routines", "src/ntt_asm.S")])
prop("P12", "Routines touch only the memory they are given",
     "Every transform, product, shuffle and elementwise routine (C and assembly) reads and writes only inside the arrays passed to it, whose extents are exactly the "
     "documented ones, and its own constants. Arrays documented as inputs or constant tables are never written, nothing is read "
     "before it is written, no address depends on coefficient values, and no routine keeps state between calls: "
     "it writes no static or global variable.",
     ["inputs", "configurations"], "all coefficient values, all sizes in scope",
     "an out-of-bounds read or a stray write next to an array rarely changes a test's result",
     fam("ntt.c", "naive_ntt.c", "ntt_red.c", "ntt_asm.S", "ntt1024.c", "ntt_red1024.c", "ntt_red_asm1024.c", "naive_ntt1024.c"),
     [("array index arithmetic", "src/ntt*.c, src/ntt_asm.S")])
prop("P13", "Bit-reversal shuffles realise the bit-reversal permutation",
     "For every power-of-two size from 2 to 4096, the generic shuffle moves the element at index i to the bit-reversal of i for every "
     "i, in all copies of the routine; the table-driven shuffle performs exactly the exchanges listed in its table, for any table "
     "and any number of pairs, and with each shipped table realises bit reversal at sizes 16, 256, 512 and 1024. Consequently both shuffles are involutions that lose no element.",
     ["inputs", "configurations"], "all arrays, all sizes in scope",
     "tests compare a few sizes against fixed data; a wrong pair in a table or a boundary slip affects a single index",
     fam("ntt.c", "naive_ntt.c", "bitrev16_table.c", "bitrev256_table.c", "bitrev512_table.c", "bitrev1024_table.c"),
     [("generic shuffle", "src/ntt.c, src/naive_ntt.c"), ("pair tables", "src/bitrev*_table.c")])
prop("P14", "Precomputed tables equal their published definitions",
     "Every entry of every precomputed table and parameter that the build generates or ships for the transform sizes equals the "
     "power of psi or omega (with the documented scaling, order and value range) that its definition prescribes for the published "
     "root; the root has the required order, and the shipped lists of primitive roots contain exactly the primitive roots.",
     ["configurations", "inputs"], "every entry of every table at every shipped size, both table formats",
     "tests only see tables through a few transforms; unused or rarely used tables and parameters are never read by any test",
     fam("make_tables.c", "make_red_tables.c", "make_bitrev_table.c", "bitrev16_table.c", "ntt32_tables.c", "Makefile") +
     ["data/primitive-roots-1024.txt", "data/primitive-roots-2048.txt", "data/primitive-roots-4096.txt"],
     [("generators", "src/make_tables.c, src/make_red_tables.c"), ("shipped tables", "src/*_table*.c")])
prop("P15", "Table generators are right for every root, not just the shipped ones",
     "For every power-of-two size from 2 to 2048 and every psi whose n-th power is -1 modulo 12289, the table generators write "
     "tables and parameters that meet the published definitions for that psi; the bit-reversal generator writes exactly the "
     "index pairs i < rev(i) and their number. For a psi that does not satisfy this, a size that is below 2, too large or not a power "
     "of two, or a wrong argument count they stop with a failure status before creating any output file.",
     ["inputs", "configurations"], "all sizes 2..2048, all valid psi (symbolically), all invalid argument classes",
     "the suite runs each generator on four fixed (size, root) pairs and no invalid argument",
     fam("make_tables.c", "make_red_tables.c", "make_bitrev_table.c"),
     [("table construction", "src/make_tables.c, src/make_red_tables.c"), ("argument validation", "main of each generator")])
prop("P16", "Interval operations over-approximate the concrete operations",
     "For all intervals and all members of them, each operation of the interval library (sum, difference, negation, reduction, double "
     "reduction, reduced product, reduced scaling, normalization, scaling by 1/3, shift, correction) returns an interval that contains the concrete result, or stops "
     "with an error when 64-bit bounds would overflow. The result's lower bound never exceeds its upper bound and arguments are not modified.",
     ["inputs"], "all pairs of 64-bit intervals and all members",
     "soundness quantifies over all intervals and all members; the test program only prints bounds and never compares them",
     fam("intervals.c", "intervals.h", "red_bounds.c"),
     [("interval operations", "src/intervals.c"), ("extremal reduction values", "src/red_bounds.c")])
prop("P17", "Extremal values of the reduction and of reduced products are exact",
     "For every non-empty range [a, b] of 32-bit magnitude, the reported minimum and maximum of the reduction of x, of w*x for a fixed "
     "weight w (zero and negative weights included), and of w*x for w in an interval really bound that value for every x (and w) in "
     "the given ranges, and are attained at the reported point, which lies in the given ranges; the searches always terminate.",
     ["inputs"], "all ranges within +-2^31; weights and weight intervals enumerated",
     "exhaustive comparison is out of reach and the test program never compares the numbers it prints",
     fam("red_bounds.c", "red_bounds.h"), [("extremal search loops", "src/red_bounds.c")])
prop("P18", "Interval versions of the transforms cover the concrete transforms",
     "For every size in scope, table and assignment of input intervals, each interval-domain transform and array routine yields for every index an "
     "interval obtained by applying sound interval operations to exactly the same computation as the concrete lazy-reduction "
     "routine, so the concrete result always lies inside it (given that each interval operation is sound).",
     ["inputs", "configurations"], "all input intervals, sizes 2..256, all routines",
     "the suite runs these only for their exit status; bounds that are wrong for some index are never noticed",
     fam("ntt_red_interval.c", "ntt_red_interval.h", "ntt_red.c"),
     [("interval-domain mirror of each routine", "src/ntt_red_interval.c")])
prop("P19", "Interval objects are released exactly once",
     "Every interval-domain routine releases each interval object it replaces exactly once, never uses or returns a released one, "
     "never releases or modifies an interval it was given as constant, and leaves no unreachable live object; each array slot owns "
     "a distinct object on return.",
     ["inputs", "configurations"], "all routines, sizes 2..256",
     "a leak or a shared slot has no visible effect in a short test run",
     fam("ntt_red_interval.c", "intervals.c"), [("ownership of heap intervals", "src/ntt_red_interval.c")])
prop("P20", "Assembly routines obey the calling convention",
     "Every assembly routine, for every documented argument, preserves the callee-saved registers and the stack pointer, returns to "
     "its caller, uses only the low 32 bits of 32-bit arguments, makes no assumption about array alignment, and terminates.",
     ["inputs", "configurations"], "all entry points, all upper register halves, all sizes in scope",
     "compilers happen to zero the upper half of a 32-bit argument and to not keep values in the clobbered register, so tests pass "
     "by luck", fam("ntt_asm.S", "ntt_asm.h"), [("function prologues, loop bounds", "src/ntt_asm.S")])
prop("P21", "Sorting returns a sorted permutation",
     "The integer sort returns, for every array of 64-bit numbers, the same multiset in increasing order, touching only that array.",
     ["inputs"], "all arrays of all lengths", "tests sort a few timing samples",
     fam("sort.c"), [("quick sort and insertion sort", "src/sort.c")])
prop("P22", "The bug-finding/verification front end is sound",
     "The LLVM-based bound checker in the verifier directory never certifies a benchmark in which a 32-bit overflow is reachable.",
     ["programs", "inputs"], "all analysed programs", "soundness of an analyser quantifies over programs",
     ["verifier/src"], [("analyser", "verifier/src")])
prop("P23", "The CPU feature test never reports AVX2 falsely",
     "The feature test returns true only if the processor and the operating system both report AVX2 and the saving of the wide "
     "registers, and returns only 0 or 1.",
     ["configurations"], "all processor/OS feature combinations", "a test runs on one machine",
     fam("ntt_asm.S"), [("cpuid and xgetbv decoding", "src/ntt_asm.S")])
prop("P24", "Reported bound growth covers every butterfly",
     "For every bound b, weight (or weight interval) and butterfly inputs with absolute value at most b, both outputs of a "
     "Cooley-Tukey step x +- red(w*y), and both outputs of a Gentleman-Sande step x + y and red(w*(x - y)), are within the bound that the "
     "corresponding function returns. For every table of coefficients, the array filled by the whole-transform versions starts with "
     "the input bound, has one entry per round that covers every butterfly of that round given the entry before, and its last entry "
     "is the value returned; nothing else is written.",
     ["inputs", "configurations"], "all bounds (steps: up to 2^31, transforms: up to 2^20), weights and 16-bit tables; sizes 1..16",
     "the test program prints these bounds and compares them with nothing; a bound that is too small for one coefficient is invisible",
     fam("red_bounds.c", "red_bounds.h"), [("bounds of one step", "src/red_bounds.c: ct_bound, gs_bound, ct_bound_fixed, gs_bound_fixed"), ("bounds per round", "src/red_bounds.c: ntt_ct_bounds, ntt_gs_bounds")])
prop("P25", "Interval routines report every bound outside the admissible range",
     "For every size, table and assignment of input intervals, each interval-domain transform prints the bounds of every array element "
     "for the input, after each round and so for the result, and prints a warning for an element exactly when its bounds are not within "
     "[INT32_MIN, INT32_MAX] at that point. The interval version of the final correction stops the program with a failure exactly when "
     "the interval of some element is not within its documented input range [-12289, 24577].",
     ["inputs", "configurations"], "all intervals with 64-bit bounds; sizes 2..64 (512 in the thorough tier), all 16 interval transforms",
     "the suite never runs the interval transforms; a missing warning looks exactly like a proof that nothing overflows",
     fam("ntt_red_interval.c", "ntt_red_interval.h"), [("report and warning", "src/ntt_red_interval.c: show_intervals"), ("stages", "src/ntt_red_interval.c: abstract_*ntt*, abstract2_*ntt*"), ("input check", "src/ntt_red_interval.c: abstract_correct")])
with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
