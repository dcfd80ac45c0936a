"""P01-P04: the transforms."""
import numpy as np
from .core import Check, Undecided, ARITH, MEMORY
from . import spec
from .spec import Q, INV3, TRANSFORMS, table_exps, ntt_exps
from .front import Front

KINDS = ARITH


def mono(e, name, lo, hi, exps, scale=1):
    e.cmd("mono %s 2 %d %d %s" % (name, lo, hi, " ".join("?" if x is None else "%d:%d" % (scale, x) for x in exps)))
    e.cmd("ro " + name)


def loc(e, fn):
    l = e.cmd("fnloc " + fn)
    if l in ("?", "declared"):
        raise Undecided("function %s not found in the sources" % fn)
    return "%s (%s)" % (fn, l.split("/")[-1])


def compare(c, fn, where, lo, hi, kn, k, m, E, n, rng, rule="residue"):
    """obligations: for each output index, the residue is the documented combination and the value is in range"""
    wc = np.where(E >= n, Q - 1, 1); wx = E % n
    ok = (kn == 2) & (k == 0) & ((m & 16383) == wc).all(axis=1) & ((m >> 14) == wx).all(axis=1)
    bad = np.nonzero(~ok)[0]
    t = ""
    if len(bad):
        i = int(bad[0])
        if kn[i] == 0:
            t = "output %d may be left undefined" % i
        elif kn[i] != 2:
            t = "the residue of output %d is not established (it is not a combination of the inputs with powers of psi as coefficients)" % i
        elif k[i] != 0:
            t = "output %d has a constant term" % i
        else:
            j = int(np.nonzero(((m[i] & 16383) != wc[i]) | ((m[i] >> 14) != wx[i]))[0][0])
            t = "output %d: coefficient of input %d is %d*psi^%d, documented %d*psi^%d" % (i, j, m[i, j] & 16383, m[i, j] >> 14, wc[i, j], wx[i, j])
        t += " (%d of %d outputs)" % (len(bad), n)
    c.ob(rule, not len(bad), where, t, n=n, bad=len(bad))
    if rng:
        b2 = np.nonzero((kn == 0) | (lo < rng[0]) | (hi > rng[1]))[0]
        c.ob("output-range", not len(b2), where, "" if not len(b2) else "output %d in [%d,%d], documented [%d,%d] (%d outputs)" % (b2[0], lo[b2[0]], hi[b2[0]], rng[0], rng[1], len(b2)), n=n, bad=len(b2))


def transform(c, mod, asm, fn, n, tr, arng, prng, scale, rng, extra="", cref=None):
    io, oo, pre, post, tab = tr
    e = c.engine(mod, asm)
    e.cmd("root %d" % n); e.cmd("space A %d" % n); e.cmd("sym a 4 %d %d %d A" % (n, arng[0], arng[1]))
    mono(e, "p", prng[0], prng[1], table_exps(tab, n), scale)
    if cref:
        e.cmd("copy b a")
    w = loc(e, fn)
    e.cmd("call %s @a i32:%d @p %s" % (fn, n, extra))
    lo, hi, kn, k, (m,) = e.dump("a", 4, n, [("A", n)])
    compare(c, fn, w, lo, hi, kn, k, m, ntt_exps(n, io, oo, pre, post), n, rng)
    c.alarms(e, KINDS, fn)
    if cref:
        loc(e, cref)
        e.cmd("call %s @b i32:%d @p" % (cref, n))
        bad = e.cmd("eq a 0 b 0 4 %d" % n).split()
        c.ob("same-integers-as-C", bad[0] == "0", w, "output indices %s differ from (or are not shown equal to) %s" % (" ".join(bad[1:]), cref), n=n, bad=int(bad[0]))


def sizes(lo, hi):
    r, n = [], lo
    while n <= hi:
        r.append(n); n *= 2
    return r


def p01(tier):
    ck = Check("P01", tier, "each output of each plain transform, as a linear form over the inputs with coefficients in Z/12289[psi]/(psi^n+1), equals the documented one; output interval inside [0,12288]; no C operation may overflow",
               ["two's-complement >> on negative int32 (implementation-defined in C, true of gcc/clang)", "tables meet the documented definition (P14/P15)"])
    ck.front = f = Front(); mod = f.plain()
    trs = {k.format(r=""): v for k, v in TRANSFORMS.items()}
    trs["ntt_ct_rev2std_v1"] = ("rev", "std", 0, 0, "psi")
    for n in reversed(sizes(2, 2048)):
        for fn, tr in trs.items():
            ck.job("%s/n=%d" % (fn, n), lambda c, fn=fn, tr=tr, n=n: transform(c, mod, None, fn, n, tr, (0, Q - 1), (0, Q - 1), 1, (0, Q - 1)), KINDS)
    return ck.run(11 * 9)


def p02(tier):
    ck = Check("P02", tier, "as P01 for the explicit-modulus transforms with q=12289; output interval inside [-12288,12288]", ["tables meet the documented definition (P14/P15)"])
    ck.front = f = Front(); mod = f.naive()
    for n in reversed(sizes(2, 2048)):
        for k, tr in TRANSFORMS.items():
            fn = k.format(r="") + "_naive"
            ck.job("%s/n=%d" % (fn, n), lambda c, fn=fn, tr=tr, n=n: transform(c, mod, None, fn, n, tr, (0, Q - 1), (0, Q - 1), 1, (1 - Q, Q - 1), "i32:12289"), KINDS)
    return ck.run(11 * 8)


def p03(tier):
    ck = Check("P03", tier, "as P01 for the lazy-reduction transforms, |a[i]|<=21499, table entries in [-6144,6144] congruent to the documented power times 3^-1; no C operation may overflow and no narrowing may lose bits",
               ["two's-complement >> and & on negative int32", "tables meet the documented definition (P14/P15)"])
    ck.front = f = Front(); mod = f.red()
    for n in reversed(sizes(2, 1024)):
        for k, tr in TRANSFORMS.items():
            fn = k.format(r="_red")
            ck.job("%s/n=%d" % (fn, n), lambda c, fn=fn, tr=tr, n=n: transform(c, mod, None, fn, n, tr, (-21499, 21499), (-6144, 6144), INV3, (-2**31, 2**31 - 1)), KINDS)
    return ck.run(10 * 8)


def p04(tier):
    ck = Check("P04", tier, "as P03 for the decoded AVX2 instructions, and every output's abstract value equals that of the C routine on the same inputs; no vector lane overflows",
               ["decoding by llvm-objdump is right", "tables meet the documented definition (P14/P15)"])
    ck.front = f = Front(); mod = f.redasm(); asm = f.assembly()
    for n in reversed(sizes(16, 1024)):
        for k, tr in TRANSFORMS.items():
            fn = k.format(r="_red") + "_asm"
            ck.job("%s/n=%d" % (fn, n), lambda c, fn=fn, tr=tr, n=n: transform(c, mod, asm, fn, n, tr, (-21499, 21499), (-6144, 6144), INV3, (-2**31, 2**31 - 1), cref=fn[:-4]), KINDS)
    return ck.run(7 * 8)
