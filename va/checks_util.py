"""P10, P11: elementwise normalisation, reduction, correction and multiplication routines."""
import threading
import numpy as np
from .core import Check, Undecided, ARITH
from .spec import Q, INV3
from .front import Front
from .checks_ntt import loc

KINDS = ARITH
I32 = (-2**31, 2**31 - 1)
PLO, PHI = -8796042698752, 8796093026303

# name: family, input range, factor, output range, exact integer definition (or None)
UNARY = {
    "normalize": ("red", I32, 1, (0, Q - 1), None),
    "normalize_inv3": ("red", I32, INV3, (0, Q - 1), None),
    "shift_array": ("red", (0, Q - 1), 1, (-6144, 6144), None),
    "reduce_array": ("red", I32, 3, (-524287, 536573), "red"),
    "reduce_array_twice": ("red", I32, 9, (-130, 12413), "red2"),
    "correct": ("red", (-Q, 2 * Q - 1), 1, (0, Q - 1), None),
}
# name: family, range of a, range of b, element size of b (0: scalar), factor, output range, exact, dest first?, constraint on the product
S21 = (-2**21, 2**21)
BINARY = [
    ("mul_array16", "plain", (0, Q - 1), (0, Q - 1), 2, 1, (0, Q - 1), None, False, False, ""),
    ("mul_array", "plain", (0, Q - 1), (0, Q - 1), 4, 1, (0, Q - 1), None, True, False, ""),
    ("scalar_mul_array", "plain", (0, Q - 1), (0, Q - 1), 0, 1, (0, Q - 1), None, False, False, ""),
    ("mul_array16_naive", "naive", (0, Q - 1), (0, Q - 1), 2, 1, (0, Q - 1), None, False, False, "i32:12289"),
    ("mul_array_naive", "naive", (0, Q - 1), (0, Q - 1), 4, 1, (0, Q - 1), None, True, False, "i32:12289"),
    ("scalar_mul_array_naive", "naive", (0, Q - 1), (0, Q - 1), 0, 1, (0, Q - 1), None, False, False, "i32:12289"),
    ("mul_reduce_array16", "red", (0, Q - 1), (0, Q - 1), 2, 3, (-36864, 12285), "mulred", False, False, ""),
    ("mul_reduce_array16", "red", (-6144, 6144), (-6144, 6144), 2, 3, (-9216, 21499), "mulred", False, False, ""),
    ("mul_reduce_array16", "red", I32, (-32768, 32767), 2, 3, I32, "mulred", False, True, ""),
    ("mul_reduce_array", "red", (0, Q - 1), (0, Q - 1), 4, 3, (-36864, 12285), "mulred", True, False, ""),
    ("mul_reduce_array", "red", (-6144, 6144), (-6144, 6144), 4, 3, (-9216, 21499), "mulred", True, False, ""),
    ("mul_reduce_array", "red", (-524287, 536573), (-524287, 536573), 4, 3, I32, "mulred", True, False, ""),
    ("mul_reduce_array", "red", I32, I32, 4, 3, I32, "mulred", True, True, ""),
    ("scalar_mul_reduce_array", "red", (-6144, 6144), (-6144, 6144), 0, 3, (-9216, 21499), "mulred", False, False, ""),
    ("scalar_mul_reduce_array", "red", I32, I32, 0, 3, I32, "mulred", False, True, ""),
]


def lengths(mod_consts, base, top, step=1):
    s = set(base)
    for c in mod_consts:
        for d in (-1, 0, 1):
            v = abs(c) + d
            if 0 < v <= top:
                s.add(v)
    return sorted(x for x in s if x % step == 0)


def residues(c, e, w, n, coef, binary, name="a"):
    sp = [("A", n)]
    if binary:
        K, bad, A, B = e.prodsyms("A", n, "B", n if binary == "array" else 1)
        lo, hi, kn, k, ms = e.dump(name, 4, n, [("A", n), ("B", n if binary == "array" else 1)] + ([("prod", K)] if K else []))
        ok = (kn == 2) & (k == 0) & (ms[0] == 0).all(axis=1) & (ms[1] == 0).all(axis=1)
        if not K or bad:
            ok[:] = False
        else:
            g = ms[2]
            one = (g != 0).sum(axis=1) == 1; j = g.argmax(axis=1)
            idx = np.arange(n); bi = idx if binary == "array" else np.zeros(n, dtype=int)
            ra, rb = A[j], B[j]
            pa = ra[idx, idx]; pb = rb[idx, bi]
            ok &= one & ((ra != 0).sum(axis=1) == 1) & ((rb != 0).sum(axis=1) == 1) & (g[idx, j] * pa % Q * pb % Q == coef)
    else:
        lo, hi, kn, k, (m,) = e.dump(name, 4, n, sp)
        W = np.zeros((n, n), dtype=np.int64); W[np.arange(n), np.arange(n)] = coef
        ok = (kn == 2) & (k == 0) & (m == W).all(axis=1)
    b = np.nonzero(~ok)[0]
    c.ob("residue", not len(b), w, "" if not len(b) else "element %d of %d: the result is not established to be %d times %s modulo %d (%d elements)" % (b[0], n, coef, "the product of the elements" if binary else "the element", Q, len(b)), n=n, bad=len(b))
    return lo, hi, kn


_lemma, _lock = {}, threading.Lock()


def mulred_range(ra, rb):
    """exact range of the documented function red(x*w) = 3*(xw mod 4096) - floor(xw/4096) on a box (arithmetic on the definition, independent of the code)"""
    with _lock:
        if (ra, rb) not in _lemma:
            x = np.arange(ra[0], ra[1] + 1, dtype=np.int32); lo, hi = 2**62, -2**62
            for b in range(rb[0], rb[1] + 1):
                y = x * np.int32(b); r = 3 * (y & 4095) - (y >> 12)
                lo = min(lo, int(r.min())); hi = max(hi, int(r.max()))
            _lemma[(ra, rb)] = (lo, hi)
        return _lemma[(ra, rb)]


def inrange(c, w, n, lo, hi, kn, rng, lemma=None):
    if lemma and ((lo < rng[0]) | (hi > rng[1])).any():
        # the value was shown to be red(x*w) exactly; use the exact range of that function
        l, h = mulred_range(*lemma)
        lo = np.maximum(lo, l); hi = np.minimum(hi, h)
    b = np.nonzero((kn == 0) | (lo < rng[0]) | (hi > rng[1]))[0]
    c.ob("output-range", not len(b), w, "" if not len(b) else "element %d of %d in [%d,%d], documented [%d,%d]" % (b[0], n, lo[b[0]], hi[b[0]], rng[0], rng[1]), n=n, bad=len(b))


def exact(c, e, w, n, name, spec):
    bad = e.cmd("eq %s 0 %s 0 4 %d" % (name, spec, n)).split()
    return c.ob("exact-definition", bad[0] == "0", w, "elements %s are not shown equal to the documented function of that element alone" % " ".join(bad[1:]), n=n, bad=int(bad[0]))


def unary(c, mod, fn, sp, n):
    fam, rng, coef, out, ex = sp
    e = c.engine(mod)
    w = loc(e, fn)
    small = n <= 2100
    e.cmd("space A %d" % max(n, 1)); e.cmd("sym a 4 %d %d %d %s" % (n, rng[0], rng[1], "A" if small else "-")); e.cmd("copy a0 a")
    e.cmd("call %s @a i32:%d" % (fn, n))
    if n:
        if small:
            lo, hi, kn = residues(c, e, w, n, coef, None)
        else:
            lo, hi, kn, _, _ = e.dump("a", 4, n)
        inrange(c, w, n, lo, hi, kn, out)
        if ex:
            e.cmd("specmap s 4 %s a0 4" % ex); exact(c, e, w, n, "a", "s")
        elif not small:
            # same abstract function of the element as at a short length: compare with an independent run on blocks
            blockwise(c, e, w, fn, n)
    c.alarms(e, KINDS, fn)


def blockwise(c, e, w, fn, n, B=1024):
    bad = 0
    for s in range(0, n, B):
        m = min(B, n - s)
        e.cmd("gather blk a0 4 " + " ".join(str(i) for i in range(s, s + m)))
        e.cmd("call %s @blk i32:%d" % (fn, m))
        bad += int(e.cmd("eq a %d blk 0 4 %d" % (4 * s, m)).split()[0])
    c.ob("exact-definition", bad == 0, w, "%d of %d elements are not treated as at the short lengths" % (bad, n), n=n, bad=bad)


def binary(c, mod, fn, sp, n):
    _, fam, ra, rb, eb, coef, out, ex, dest, cons, extra = sp
    e = c.engine(mod)
    w = loc(e, fn)
    small = n <= 2100
    e.cmd("space A %d" % max(n, 1)); e.cmd("space B %d" % max(n, 1))
    e.cmd("sym a 4 %d %d %d %s" % (n, ra[0], ra[1], "A" if small else "-"))
    if eb:
        e.cmd("sym b %d %d %d %d %s" % (eb, n, rb[0], rb[1], "B" if small else "-")); e.cmd("ro b")
    else:
        e.cmd("var b 32 %d %d B 0" % rb)
    if cons and n:
        e.cmd("assumemul %d %d a 4 %s" % (PLO, PHI, "b %d" % eb if eb else "$b"))
    e.cmd("copy a0 a")
    res = "a"
    if dest:
        e.cmd("arr c 4 %d" % n); e.cmd("ro a"); res = "c"
        e.cmd("call %s @c i32:%d @a @b %s" % (fn, n, extra))
    else:
        e.cmd("call %s @a i32:%d %s %s" % (fn, n, "@b" if eb else "$b", extra))
    if n:
        if small:
            lo, hi, kn = residues(c, e, w, n, coef, "array" if eb else "scalar", res)
        else:
            lo, hi, kn, _, _ = e.dump(res, 4, n)
        lem = None
        if ex:
            e.cmd("specmap s 4 %s a0 4 %s" % (ex, "b %d" % eb if eb else "$b 0"))
            if exact(c, e, w, n, res, "s") and (ra[1] - ra[0]) * (rb[1] - rb[0]) < 2e8:
                lem = (ra, rb)
        inrange(c, w, n, lo, hi, kn, out, lem)
        if ex:
            pass
        elif not small and eb:
            bad = 0
            for s in range(0, n, 1024):
                m = min(1024, n - s); ix = " ".join(str(i) for i in range(s, s + m))
                e.cmd("gather blk a0 4 " + ix); e.cmd("gather blb b %d %s" % (eb, ix))
                if dest:
                    e.cmd("arr blc 4 %d" % m); e.cmd("call %s @blc i32:%d @blk @blb %s" % (fn, m, extra))
                else:
                    e.cmd("call %s @blk i32:%d @blb %s" % (fn, m, extra))
                bad += int(e.cmd("eq %s %d %s 0 4 %d" % (res, 4 * s, "blc" if dest else "blk", m)).split()[0])
            c.ob("exact-definition", bad == 0, w, "%d of %d elements are not treated as at the short lengths" % (bad, n), n=n, bad=bad)
    c.alarms(e, KINDS, fn)


def p10(tier):
    ck = Check("P10", tier, "for each routine, length and element: residue of the result = documented factor times the element (or product of elements), interval inside the documented range, value = the documented function of that element alone; no operation may overflow or lose bits",
               ["two's-complement >> and & on negative integers", "lengths: every length 0..%d, the boundary lengths around every integer constant of the routine's code, and 1000, 1024, 2048, 65535..65537%s; a length-dependence outside these is not seen" % (64 if tier == "quick" else 300, "" if tier == "quick" else ", 131073")])
    ck.front = f = Front()
    mods = {"plain": f.plain(), "naive": f.naive(), "red": f.red()}
    from .eng import Engine
    base = list(range(0, 65 if tier == "quick" else 301)) + [100, 127, 128, 129, 255, 256, 257, 1000, 1024, 2048, 65535, 65536, 65537] + ([131073] if tier == "thorough" else [])
    consts = {}
    for fam, m in mods.items():
        with Engine(m) as e:
            for fn in [k for k, v in UNARY.items() if v[0] == fam] + [b[0] for b in BINARY if b[1] == fam]:
                consts[fn] = [int(x) for x in e.cmd("consts " + fn).split()[1:]]

    def batch(name, run, ns):
        for part in ([n for n in ns if n <= 300], [n for n in ns if 300 < n <= 5000]) + tuple([n] for n in ns if n > 5000):
            if part:
                ck.job("%s/n=%s" % (name, "%d..%d" % (part[0], part[-1]) if len(part) > 1 else part[0]), lambda c, part=part: [run(c, n) for n in part], KINDS)
    for fn, sp in UNARY.items():
        batch(fn, lambda c, n, fn=fn, sp=sp: unary(c, mods[sp[0]], fn, sp, n), lengths(consts[fn], base, 70000))
    for sp in BINARY:
        ns = lengths(consts[sp[0]], base, 70000)
        if sp[9]:
            ns = [1, 2, 3]
        batch("%s[%d..%d x %d..%d]" % (sp[0], sp[2][0], sp[2][1], sp[3][0], sp[3][1]), lambda c, n, sp=sp: binary(c, mods[sp[1]], sp[0], sp, n), ns)
    ck.jobs.sort(key=lambda j: -int(j[0].split("=")[1].split(".")[-1]))
    return ck.run(20)


# assembly routine, C routine, kind, ranges, constraint
ASM = [
    ("shift_array_asm", "shift_array", "u", (0, Q - 1), None, 0, False),
    ("reduce_array_asm", "reduce_array", "u", I32, None, 0, False),
    ("reduce_array_asm2", "reduce_array", "u", I32, None, 0, False),
    ("reduce_array_twice_asm", "reduce_array_twice", "u", I32, None, 0, False),
    ("reduce_array_twice_asm2", "reduce_array_twice", "u", I32, None, 0, False),
    ("correct_asm", "correct", "u", (-Q, 2 * Q - 1), None, 0, False),
    ("mul_reduce_array16_asm", "mul_reduce_array16", "p", I32, (-32768, 32767), 2, True),
    ("mul_reduce_array16_asm2", "mul_reduce_array16", "p", I32, (-32768, 32767), 2, True),
    ("mul_reduce_array_asm", "mul_reduce_array", "d", I32, I32, 4, True),
    ("scalar_mul_reduce_array_asm", "scalar_mul_reduce_array", "s", I32, I32, 0, True),
    ("mul_reduce_array16_asm", "mul_reduce_array16", "p", (-Q, Q), (-Q, Q), 2, False),
    ("mul_reduce_array16_asm2", "mul_reduce_array16", "p", (-Q, Q), (-Q, Q), 2, False),
    ("mul_reduce_array_asm", "mul_reduce_array", "d", (-524287, 536573), (-524287, 536573), 4, False),
    ("scalar_mul_reduce_array_asm", "scalar_mul_reduce_array", "s", (-Q, Q), (-Q, Q), 0, False),
]


def asmpair(c, mod, asm, sp, n):
    fa, fc, kind, ra, rb, eb, cons = sp
    e = c.engine(mod, asm)
    w = loc(e, fa); loc(e, fc)
    e.cmd("space A %d" % n); e.cmd("sym a 4 %d %d %d A" % (n, ra[0], ra[1]))
    if kind in "pd":
        e.cmd("sym b %d %d %d %d -" % (eb, n, rb[0], rb[1])); e.cmd("ro b")
    elif kind == "s":
        e.cmd("var b 32 %d %d" % rb)
    if cons:
        e.cmd("assumemul %d %d a 4 %s" % (PLO, PHI, "b %d" % eb if eb else "$b"))
    e.cmd("copy a2 a")
    x, y = "a", "a2"
    if kind == "u":
        ca, cc = "call %s @a i32:%d" % (fa, n), "call %s @a2 i32:%d" % (fc, n)
    elif kind in "ps":
        b = "@b" if kind == "p" else "$b"
        ca, cc = "call %s @a i32:%d %s" % (fa, n, b), "call %s @a2 i32:%d %s" % (fc, n, b)
    else:
        e.cmd("ro a"); e.cmd("arr c 4 %d" % n); e.cmd("arr c2 4 %d" % n); x, y = "c", "c2"
        ca, cc = "call %s @c i32:%d @a @b" % (fa, n), "call %s @c2 i32:%d @a @b" % (fc, n)
    e.cmd(ca); c.alarms(e, KINDS, fa); e.cmd(cc)
    bad = e.cmd("eq %s 0 %s 0 4 %d" % (x, y, n)).split()
    c.ob("same-integers-as-C", bad[0] == "0", w, "at length %d, elements %s differ from (or are not shown equal to) %s" % (n, " ".join(bad[1:]), fc), n=n, bad=int(bad[0]))


def p11(tier):
    ck = Check("P11", tier, "for each assembly routine and length, the abstract value of every result element (decoded AVX2 instructions) equals that of the C routine on the same symbolic inputs; vector lanes do not overflow except where the C routine's value wraps identically",
               ["decoding by llvm-objdump is right", "lengths: all multiples of 16 up to %d, and 1024, 2048, 4096, 65536, 65552" % (512 if tier == "quick" else 2048)])
    ck.front = f = Front()
    mod = f.redasm(); asm = f.assembly()
    base = list(range(16, 513 if tier == "quick" else 2049, 16)) + [1024, 2048, 4096, 65536, 65552]
    for sp in ASM:
        ns = [16, 32, 48] if sp[6] else base
        nm = sp[0] if sp[4] is None else "%s[%d..%d x %d..%d]" % (sp[0], sp[3][0], sp[3][1], sp[4][0], sp[4][1])
        for part in ([n for n in ns if n <= 1024],) + tuple([n] for n in ns if n > 1024):
            if part:
                ck.job("%s/n=%s" % (nm, "%d..%d" % (part[0], part[-1]) if len(part) > 1 else part[0]), lambda c, sp=sp, part=part: [asmpair(c, mod, asm, sp, n) for n in part], KINDS)
    ck.jobs.sort(key=lambda j: -int(j[0].split("=")[1].split(".")[-1]))
    return ck.run(20)
