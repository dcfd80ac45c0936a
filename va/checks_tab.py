"""P09 size-specific entry points, P13 shuffles, P14 tables."""
import os, re
import numpy as np
from .core import Check, Undecided, ARITH, MEMORY
from .spec import Q, INV3, rev, log2, table_exps, ntt_exps
from .front import Front, SIZES, REPO
from .checks_ntt import loc, sizes
from .checks_prod import mm

KINDS = ARITH


def inv(x):
    return pow(int(x), Q - 2, Q)


def powtab(x, m):
    t = np.ones(m, dtype=np.int64)
    for i in range(1, m):
        t[i] = t[i - 1] * x % Q
    return t


def wrapper_matrix(n, psi, inverse, weighted, io, oo):
    """documented matrix of the entry point (residues): stored input position -> stored output position"""
    if not inverse:
        E = ntt_exps(n, io, oo, 1 if weighted else 0, 0)
        return powtab(psi, 2 * n)[E]
    E = ntt_exps(n, io, oo, 0, 1 if weighted else 0)
    return powtab(inv(psi), 2 * n)[E]


def p09(tier):
    ck = Check("P09", tier, "the matrix (modulo 12289) of every size-specific entry point, read off the analysed code with the shipped tables, equals the documented one for the published psi; every matching inverse o forward pair multiplies to n times the identity",
               ["two's-complement >> and & on negative int32"])
    ck.front = f = Front()
    asm = f.assembly()
    rngs = {"plain": (0, Q - 1), "naive": (0, Q - 1), "red": (-21499, 21499), "redasm": (-21499, 21499)}

    def unit(c, fam, n, mod):
        mats = {}
        px = Front.WRAP[fam][3] % n
        e = c.engine(mod, asm if fam == "redasm" else None)
        l = e.cmd("call va_par_%s_psi" % px).split()
        if l[0] != "int" or l[1] != l[2]:
            raise Undecided("published psi of %s is not a constant" % px)
        psi = int(l[1])
        c.ob("published-root", pow(psi, n, Q) == Q - 1, "%s_psi" % px, "published psi=%d: psi^%d is not -1 modulo %d" % (psi, n, Q))
        for w, (iv, wt, io, oo) in f.wrappers(fam, n).items():
            e = c.engine(mod, asm if fam == "redasm" else None)
            where = "%s (size-specific entry point, %s)" % (w, Front.WRAP[fam][0] % n)
            e.cmd("space A %d" % n); e.cmd("sym a 4 %d %d %d A" % ((n,) + rngs[fam]))
            e.cmd("call va_%s @a" % w)
            lo, hi, kn, k, (m,) = e.dump("a", 4, n, [("A", n)])
            c.alarms(e, KINDS, w)
            W = wrapper_matrix(n, psi, iv, wt, io, oo)
            ok = (kn == 2) & (k == 0) & (m == W).all(axis=1)
            b = np.nonzero(~ok)[0]
            t = ""
            if len(b):
                i = int(b[0])
                t = "the residue of output %d is not established" % i if kn[i] != 2 else "output %d: wrong coefficient of input %d" % (i, int(np.nonzero(m[i] != W[i])[0][0]) if (m[i] != W[i]).any() else -1)
                t += " (%d of %d outputs)" % (len(b), n)
            c.ob("documented-matrix", not len(b), where, t, n=n, bad=len(b))
            if (kn == 2).all() and (k == 0).all():
                mats[w] = (m, iv, wt, io, oo)
        # inverse after forward
        for wi, (mi, iv, wt, io, oo) in mats.items():
            if not iv:
                continue
            for wf, (mf, iv2, wt2, io2, oo2) in mats.items():
                if iv2 or wt2 != wt or oo2 != io or io2 != oo:
                    continue
                P = mm(mi, mf)
                ok = (P == n * np.eye(n, dtype=np.int64) % Q).all()
                c.ob("inverse-after-forward", ok, "%s o %s" % (wi, wf), "the composition is not %d times the identity" % n)
    for fam in rngs:
        mod = f.wrapped(fam)
        for n in reversed(SIZES):
            ck.job("%s/n=%d" % (fam, n), lambda c, fam=fam, n=n, mod=mod: unit(c, fam, n, mod), KINDS)
    return ck.run(16)


def p13(tier):
    ck = Check("P13", tier, "after the call, cell rev(i) of the array holds exactly the abstract value that was in cell i, for every i (symbolic contents, no address depends on them)", [])
    ck.front = f = Front()
    kinds = ARITH | MEMORY

    def gen(c, mod, src, n):
        e = c.engine(mod); w = loc(e, "bitrev_shuffle")
        e.cmd("sym a 4 %d -2147483648 2147483647 -" % n); e.cmd("copy a0 a")
        e.cmd("call bitrev_shuffle @a i32:%d" % n)
        check(c, e, w, n)
        c.alarms(e, kinds, "bitrev_shuffle")

    def check(c, e, w, n):
        lg = log2(n)
        e.cmd("gather want a0 4 " + " ".join(str(rev(i, lg)) for i in range(n)))
        bad = e.cmd("eq a 0 want 0 4 %d" % n).split()
        c.ob("bit-reversal", bad[0] == "0", w, "n=%d: elements %s are not in bit-reversed position" % (n, " ".join(bad[1:])), n=n, bad=int(bad[0]))

    def tab(c, mod, n, sym, kind):
        e = c.engine(mod); w = loc(e, "shuffle_with_table") + " with %s (%s)" % (sym, kind)
        g = [x.split(":") for x in e.cmd("globals").split()]
        size = [int(s) for nm, s, k in g if nm == sym and s != "ext"]
        if not size or size[0] % 4:
            raise Undecided("table %s not found" % sym)
        e.cmd("sym a 4 %d -2147483648 2147483647 -" % n); e.cmd("copy a0 a")
        e.cmd("call shuffle_with_table @a @%s i32:%d" % (sym, size[0] // 4))
        check(c, e, w, n)
        c.alarms(e, kinds, "shuffle_with_table")

    def exch(c, mod, n, prs, what):
        """the shuffle performs exactly the exchanges of an arbitrary table, in order"""
        e = c.engine(mod); w = loc(e, "shuffle_with_table") + " with " + what
        e.cmd("sym a 4 %d -2147483648 2147483647 -" % n); e.cmd("copy a0 a")
        e.cmd("const t 2 " + " ".join("%d %d" % p for p in prs)) if prs else e.cmd("arr t 2 0")
        e.cmd("ro t"); e.cmd("call shuffle_with_table @a @t i32:%d" % len(prs))
        ix = list(range(n))
        for j, k in prs:
            ix[j], ix[k] = ix[k], ix[j]
        e.cmd("gather want a0 4 " + " ".join(map(str, ix)))
        bad = e.cmd("eq a 0 want 0 4 %d" % n).split()
        c.ob("exchanges", bad[0] == "0", w, "elements %s are not where the exchanges put them" % " ".join(bad[1:8]), n=n, bad=int(bad[0]))
        c.alarms(e, kinds, "shuffle_with_table")

    def small(c, mod):
        full = [(i, rev(i, 8)) for i in range(256) if i < rev(i, 8)]
        for m in list(range(0, 36)) + [63, 64, 65, 119, 120]:
            exch(c, mod, 256, full[:m], "the first %d pairs of the size-256 exchanges" % m)
        exch(c, mod, 8, [(1, 4), (4, 6), (3, 6), (6, 3), (0, 7)], "5 overlapping pairs")
        exch(c, mod, 65536, [(0, 65535), (32767, 32768), (255, 65280), (256, 40000)], "indices up to 65535")
    for src in "ntt.c", "naive_ntt.c":
        mod, bits = f.shuffles(src)
        ck.job("%s:shuffle_with_table/pair-counts" % src, lambda c, mod=mod: small(c, mod), kinds)
        for n in sizes(2, 4096):
            pr = [(i, rev(i, log2(n))) for i in range(n) if i < rev(i, log2(n))]
            ck.job("%s:shuffle_with_table/definition/n=%d" % (src, n), lambda c, mod=mod, n=n, pr=pr: exch(c, mod, n, pr, "the %d pairs of size %d" % (len(pr), n)), kinds)
        for n in sizes(2, 4096):
            ck.job("%s:bitrev_shuffle/n=%d" % (src, n), lambda c, mod=mod, src=src, n=n: gen(c, mod, src, n), kinds)
        for n, sym, kind in bits:
            ck.job("%s:shuffle_with_table/%s" % (src, sym), lambda c, mod=mod, n=n, sym=sym, kind=kind: tab(c, mod, n, sym, kind), kinds)
    return ck.run(2 + 24 + 24 + 8)


OPTIONAL = {"inv_psi_powers_rev", "psi_powers_rev"}  # defined in the generated source, declared in no header


def psi_rev(n):
    """exponents of the table built from psi instead of omega, in bit-reversed order"""
    return [None if x is None else x // 2 for x in table_exps("omega_rev", n)]


def table_spec(fam, n, psi):
    """name -> list of documented residues (None: unused entry)"""
    ip = inv(psi); ninv = inv(n)
    s = INV3 if fam == "ntt_red" else 1
    P = lambda b, e: pow(b, e, Q)
    d = {
        "psi_powers": [P(psi, i) * s for i in range(n)],
        "inv_psi_powers": [P(ip, i) * s for i in range(n)],
    }
    if fam == "ntt":
        d["scaled_inv_psi_powers"] = [P(ip, i) * ninv for i in range(n)]
    else:
        d["scaled_inv_psi_powers"] = [P(ip, i) * ninv * P(INV3, 8) for i in range(n)]
        d["scaled_inv_psi_powers_var"] = [P(ip, i) * ninv * P(INV3, 6) for i in range(n)]
    for kind in "omega", "mixed":
        for r in "", "_rev":
            ex = table_exps(kind + r, n)
            d["%s_powers%s" % (kind, r)] = [None if x is None else P(psi, x) * s for x in ex]
            d["inv_%s_powers%s" % (kind, r)] = [None if x is None else P(ip, x) * s for x in ex]
    nm, b = ("inv_psi_powers_rev", ip) if fam == "ntt" else ("psi_powers_rev", psi)
    d[nm] = [None if x is None else P(b, x) * s for x in psi_rev(n)]
    return {k: [None if x is None else x % Q for x in v] for k, v in d.items()}


def param_spec(fam, n, psi):
    d = {"psi": psi, "omega": psi * psi, "inv_psi": inv(psi), "inv_omega": inv(psi * psi), "inv_n": inv(n)}
    if fam == "ntt_red":
        d.update(inv_k=INV3, rescale8=inv(n) * pow(INV3, 8, Q), rescale6=inv(n) * pow(INV3, 6, Q))
    return {k: v % Q for k, v in d.items()}


def p14(tier):
    ck = Check("P14", tier, "every constant initialiser of every table (generated by the project's rules from the current sources, or tracked) equals its definition; parameters likewise; shipped root lists equal the set of primitive roots", ["entry 0 of the omega/mixed tables is unused and only its range is checked"])
    ck.front = f = Front()
    mod, units, bits = f.tables()

    def unit(c, fam, n, px, kind):
        e = c.engine(mod)
        gl = {x.split(":")[0]: x.split(":") for x in e.cmd("globals").split()}
        par = {}
        for p in Front.PARAMS[fam]:
            l = e.cmd("call va_par_%s_%s" % (px, p)).split()
            if l[0] != "int" or l[1] != l[2]:
                raise Undecided("parameter %s_%s is not a constant" % (px, p))
            par[p] = int(l[1])
        psi = par["psi"]
        where = "%s_tables.h (%s)" % (px, kind)
        c.ob("root-order", pow(psi, n, Q) == Q - 1, where, "psi=%d: psi^%d is not -1 modulo %d" % (psi, n, Q))
        for p, v in param_spec(fam, n, psi).items():
            c.ob("parameter", par[p] % Q == v and (1 - Q if fam == "ntt_red" else 0) <= par[p] < Q, where, "%s_%s is %d, defined as %d modulo %d" % (px, p, par[p], v, Q))
        lo, hi = (0, Q - 1) if fam == "ntt" else (-6144, 6144)
        for t, want in table_spec(fam, n, psi).items():
            g = "%s_%s" % (px, t)
            w2 = "%s (%s_tables.c, %s)" % (g, px, kind)
            if g not in gl or gl[g][1] == "ext":
                if t in OPTIONAL:
                    continue
                raise Undecided("table %s not found" % g)
            got = e.cmd("gvals %s 2" % g).split()[1:]
            if len(got) != n:
                c.ob("table-size", False, w2, "%d entries, %d documented" % (len(got), n)); continue
            sg = [int(x) if x != "?" else None for x in got]
            if fam == "ntt":
                sg = [x + 65536 if x is not None and x < 0 else x for x in sg]
            bad = [i for i in range(n) if sg[i] is None or (want[i] is not None and (sg[i] - want[i]) % Q) or not lo <= sg[i] <= hi]
            c.ob("table-entry", not bad, w2, "" if not bad else "entry %d is %s, documented %s modulo %d in [%d,%d] (%d entries)" % (bad[0], sg[bad[0]], want[bad[0]], Q, lo, hi, len(bad)), n=n, bad=len(bad))
            c.ob("read-only", gl[g][2] == "c", w2, "the table is not constant")
        # a bit-reversal table shipped with the tables of this size
        if px + "_bitrev" in gl:
            pairs(c, e, n, px + "_bitrev", kind)

    def pairs(c, e, n, sym, kind):
        got = [int(x) for x in e.cmd("gvals %s 2" % sym).split()[1:]]
        pr = [tuple(sorted((got[i] & 65535, got[i + 1] & 65535))) for i in range(0, len(got), 2)]
        lg = log2(n)
        want = set((i, rev(i, lg)) for i in range(n) if i < rev(i, lg))
        bad = [p for p in pr if p not in want]
        c.ob("bitrev-pairs", not bad and len(set(pr)) == len(pr) and set(pr) == want, "%s (%s)" % (sym, kind), "wrong pairs %s, missing %s, %d duplicates" % (bad[:3], sorted(want - set(pr))[:3], len(pr) - len(set(pr))), n=max(1, len(want)))

    def bit(c, n, sym, kind):
        e = c.engine(mod); pairs(c, e, n, sym, kind)

    def roots(c, path, n):
        vals = []
        for ln, l in enumerate(open(path), 1):
            l = l.split("#")[0]
            for x in l.split():
                if not x.isdigit():
                    raise Undecided("%s:%d: not a number" % (path, ln))
                vals.append((int(x), ln))
        prim = set(x for x in range(1, Q) if pow(x, n, Q) == 1 and pow(x, n // 2, Q) != 1)
        bad = [(x, ln) for x, ln in vals if x not in prim]
        c.ob("primitive-roots", not bad, "%s:%d" % (os.path.relpath(path, REPO), bad[0][1] if bad else 0), "%s not a primitive %d-th root" % (bad[:1], n), n=max(1, len(vals)))
        miss = sorted(prim - set(x for x, _ in vals))
        c.ob("primitive-roots", not miss and len(vals) == len(prim), os.path.relpath(path, REPO), "missing %s; %d entries for %d roots" % (miss[:3], len(vals), len(prim)))
    for fam, n, px, kind in units:
        ck.job(px, lambda c, a=(fam, n, px, kind): unit(c, *a))
    for n, sym, kind in bits:
        ck.job(sym, lambda c, a=(n, sym, kind): bit(c, *a))
    d = os.path.join(REPO, "data")
    for fn in sorted(os.listdir(d)):
        m = re.fullmatch(r"primitive-roots-(\d+)\.txt", fn)
        if m:
            ck.job(fn, lambda c, p=os.path.join(d, fn), n=int(m.group(1)): roots(c, p, n))
    f.files.append("data/")
    return ck.run(9 + 4 + 3)
