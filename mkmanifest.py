#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
AI = "abstract interpretation of the LLVM IR (clang -O0 + mem2reg)"
ASM = "abstract interpretation of the decoded AVX2 instructions"
FORM = " with a relational domain: integer intervals, linear forms over floor/product atoms, and residues modulo 12289 as linear forms over Z/12289[psi]/(psi^n+1)"
CLAIM = {
    "P01": (AI + FORM, "proof", "every input and every root, sizes 2..2048; sizes are enumerated, data is not"),
    "P02": (AI + FORM, "proof", "every input and root, sizes 2..2048, modulus argument 12289"),
    "P03": (AI + FORM, "proof", "every input and table in range, sizes 2..1024"),
    "P04": (ASM + " and of the C routine, compared form by form", "proof", "every input, legitimate tables, sizes 16..1024"),
    "P05": (AI + FORM + "; bilinear form of each output compared with the negacyclic product", "proof", "every pair of inputs, the four shipped sizes"),
    "P06": (AI + FORM + "; bilinear form of each output compared with the negacyclic product", "proof", "every pair of inputs, the four shipped sizes"),
    "P07": (AI + FORM + "; bilinear form of each output compared with the negacyclic product", "proof", "every pair of inputs, the four shipped sizes"),
    "P08": (ASM + FORM + "; bilinear form of each output compared with the negacyclic product", "proof", "every pair of inputs, the four shipped sizes"),
    "P09": (AI + " and of the assembly, giving the matrix of each entry point modulo 12289", "proof", "every input, every entry point of the four families at the four shipped sizes"),
    "P10": (AI + FORM, "proof", "every element value; array lengths enumerated (0..64, boundaries of the code's own constants, large lengths)"),
    "P11": (ASM + " and of the C routine, compared form by form", "proof", "every element value; lengths enumerated (multiples of 16)"),
    "P12": ("memory-safety dataflow (typed extents, const-ness, initialisation, data-independence of addresses) in the abstract interpreter", "proof", "every content of the arrays; sizes and lengths enumerated"),
    "P13": (AI + " with symbolic cell contents (permutation tracking)", "proof", "every content; sizes 2..4096 and all shipped tables"),
    "P14": ("constant evaluation of the table initialisers in the IR against the definition", "proof", "complete: every entry of every table and parameter"),
    "P20": ("register/stack typestate over the decoded instructions, with arbitrary upper argument halves", "proof", "every path; lengths enumerated"),
    "P23": ("known-bits dataflow over the decoded instructions, one required feature bit cleared at a time", "proof", "complete: all paths, all register contents"),
}
CLAIM["P16"] = (AI + " with symbolic interval bounds and members; containment decided by linear entailment over floor-division atoms", "proof", "every interval with 64-bit bounds and every member; red_mul and red_scale for operand bounds within 2^30 in absolute value, over the contract of the extremal reductions (P17)")
CLAIM["P15"] = (AI + " with psi a formal root of X^n+1: residue and range of every number written; path facts at each fopen", "proof", "every valid psi at every size 2..2048; non-powers of two enumerated up to a bound; inverse routine by constant propagation over all residues")
CLAIM["P18"] = (AI + " with interval objects as heap cells carrying the concrete value they stand for; each slot compared with the concrete routine's abstract result", "proof", "every assignment of input intervals, sizes 2..256, all routines; assumes each interval operation is sound (P16)")
CLAIM["P19"] = ("ownership/typestate analysis of heap intervals in the abstract interpreter", "proof", "every path, sizes 2..256, all routines")
CLAIM["P17"] = (AI + " with symbolic range [a, b] and an arbitrary point z of it; inductive loop invariants selected from fixed templates (Houdini), claims decided by linear entailment over floor-division atoms; interval versions over the contract of the fixed-weight versions", "proof", "every range within +-2^31 and every point; 24 weights and 12 weight intervals enumerated (more in the thorough tier)")
CLAIM["P24"] = (AI + " over contracts of the extremal reductions; linear entailment for arbitrary butterfly inputs", "proof", "every bound, weight, 16-bit table and butterfly input; sizes 1..16 enumerated")
CLAIM["P25"] = (AI + " with interval objects whose bounds are known only up to the class that decides the warning; output trace with must/may events", "proof", "every interval; uniform classes and a fixed mixture of classes; sizes enumerated")
NA = {
    "P21": "sortedness and multiset preservation of an in-place quicksort quantify over arrays of every length through data-dependent indices and recursion; this needs quantified array invariants (deductive proof), not a static analysis in reach",
    "P22": "soundness of the LLVM-pass-based bound checker quantifies over programs and its sources need an LLVM release and SMT libraries that are not installed, so it cannot even be compiled to an analysable form here",
}
def load():
    try:
        import mkmanifest_more as m
        CLAIM.update(m.CLAIM); NA.update(m.NA)
    except ImportError:
        pass
load()
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
man = {"version": 1, "setup_cmd": "python3-vt check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    if p in CLAIM:
        t, l, n = CLAIM[p]
        man["checks"].append({"property": p, "quick_cmd": "python3-vt check.py %s --tier quick" % p, "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
                              "evidence_file": "evidence/%s.json" % p, "technique": "static analysis: " + t, "level": l, "level_note": n})
    else:
        man["not_applicable"].append({"property": p, "reason": NA.get(p, "not built yet")})
json.dump(man, open("MANIFEST.json", "w"), indent=1)
