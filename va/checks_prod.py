"""P05-P08: polynomial products; the bilinear form of every output against the negacyclic product."""
import numpy as np
from .core import Check, Undecided, ARITH
from .spec import Q
from .front import Front, SIZES
from .checks_ntt import loc

KINDS = ARITH


def mm(a, b):
    """exact product modulo Q (entries < Q, inner dimension < 2^25)"""
    return np.rint(a.astype(np.float64) @ b.astype(np.float64)).astype(np.int64) % Q


def inv(x):
    return pow(int(x), Q - 2, Q)


def bilinear(n, G, A, B):
    """first (i, r, s, got) with sum_k G[i,k] A[k,r] B[k,s] different from the negacyclic product, or None"""
    K = A.shape[0]
    # fast path: geometric rows with a common ratio
    if K and (A[:, 0] != 0).all() and (B[:, 0] != 0).all():
        z = np.array([int(A[k, 1]) * inv(A[k, 0]) % Q for k in range(K)])
        if ((A[:, 1:] == A[:, :-1] * z[:, None] % Q).all() and (B[:, 1:] == B[:, :-1] * z[:, None] % Q).all()
                and all(pow(int(x), n, Q) == Q - 1 for x in z)):
            V = np.ones((K, n), dtype=np.int64)
            for m in range(1, n):
                V[:, m] = V[:, m - 1] * z % Q
            D = mm(G * (A[:, 0] * B[:, 0] % Q)[None, :] % Q, V)
            bad = np.argwhere(D != np.eye(n, dtype=np.int64))
            if not len(bad):
                return None, "geometric"
            i, m = map(int, bad[0])
            return (i, m, 0, int(D[i, m]), len(set(int(b[0]) for b in bad))), "geometric"
    idx = np.arange(n); rows = set(); first = None
    for r in range(n):
        T = mm(G * A[:, r][None, :] % Q, B)
        W = np.zeros((n, n), dtype=np.int64)
        t = r + idx
        W[t % n, idx] = np.where(t < n, 1, Q - 1)
        bad = np.argwhere(T != W)
        if len(bad):
            i, s = map(int, bad[0])
            first = first or (i, r, s, int(T[i, s]))
            rows |= set(int(b[0]) for b in bad)
            if len(rows) == n:
                break
    return (first + (len(rows),) if first else None), "general"


def product(c, mod, asm, fn, n):
    e = c.engine(mod, asm)
    for s in "AB":
        e.cmd("space %s %d" % (s, n)); e.cmd("sym %s 4 %d 0 %d %s" % (s.lower(), n, Q - 1, s))
    e.cmd("arr c 4 %d" % n)
    w = loc(e, fn)
    e.cmd("call %s @c @a @b" % fn)
    K, bad, A, B = e.prodsyms("A", n, "B", n)
    lo, hi, kn, k, (g,) = e.dump("c", 4, n, [("prod", K)]) if K else (lambda t: t[:4] + (np.zeros((n, 1), dtype=np.int64),))(e.dump("c", 4, n))[:4] + ((np.zeros((n, 1), dtype=np.int64),),)
    und = np.nonzero((kn != 2) | (k != 0))[0]
    if len(und) or bad or not K:
        i = int(und[0]) if len(und) else 0
        t = "entry %d of the result may be left undefined" % i if len(und) and kn[i] == 0 else "the residue of result entry %d is not established as a bilinear combination of the inputs" % i if len(und) else "no product of the inputs reaches the result" if not K else "an elementwise product mixes the two inputs"
        c.ob("negacyclic-product", False, w, t + " (%d of %d entries)" % (max(1, len(und)), n), n=n, bad=max(1, len(und)))
    else:
        v, how = bilinear(n, g, A, B)
        t = "" if v is None else "coefficient of a[%d]*b[%d] in result entry %d is %d; %d of %d entries differ from the negacyclic product" % (v[1], v[2], v[0], v[3], v[4], n)
        c.ob("negacyclic-product", v is None, w, t, n=n, bad=0 if v is None else v[4])
    b2 = np.nonzero((kn == 0) | (lo < 0) | (hi > Q - 1))[0]
    c.ob("output-range", not len(b2), w, "" if not len(b2) else "result entry %d in [%d,%d], documented [0,%d] (%d entries)" % (b2[0], lo[b2[0]], hi[b2[0]], Q - 1, len(b2)), n=n, bad=len(b2))
    c.alarms(e, KINDS, fn)


def make(pid, tier, getmod, getasm, name):
    ck = Check(pid, tier, "the residue of every result entry, as a bilinear form in the two input vectors (shipped tables and parameters, all inputs in [0,12288]), equals the negacyclic product; result interval inside [0,12288]; no operation may overflow or lose bits",
               ["two's-complement >> and & on negative int32", "the three arrays do not overlap"])
    ck.front = f = Front(); mod = getmod(f); asm = f.assembly() if getasm else None
    for n in reversed(SIZES):
        for k in range(1, 6):
            fn = name % (n, k)
            ck.job(fn, lambda c, fn=fn, n=n: product(c, mod, asm, fn, n), KINDS)
    return ck.run(20)


def p05(tier):
    return make("P05", tier, Front.plain, False, "ntt%d_product%d")


def p06(tier):
    return make("P06", tier, Front.naive, False, "naive_ntt%d_product%d")


def p07(tier):
    return make("P07", tier, Front.red, False, "ntt_red%d_product%d")


def p08(tier):
    return make("P08", tier, Front.redasm, True, "ntt_red%d_product%d_asm")
