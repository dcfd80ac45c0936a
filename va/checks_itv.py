"""P16, P18, P19, P25: the interval library and the interval-domain transforms."""
import re
from .core import Check, Undecided, ARITH, MEMORY
from .front import Front
from .checks_ntt import loc, mono, sizes
from .checks_bounds import contracts
from .spec import Q, INV3, TRANSFORMS, table_exps

L64, H64 = -2**63, 2**63 - 1
KIN = ARITH | MEMORY | {"leak", "bad-free"}
# operation: arguments, bounds of the arguments, the concrete operation, bounds for which it must not stop
OPS = {
    "neg": (1, L64, H64, "-1*$xa", -2**63 + 1, H64),
    "add": (2, L64, H64, "$xa $xb", -2**62, 2**62 - 1),
    "sub": (2, L64, H64, "$xa -1*$xb", -2**62 + 1, 2**62 - 1),
    "red": (1, L64, H64, "red", L64, H64),
    "red_twice": (1, L64, H64, "red_twice", L64, H64),
    "normal": (1, L64, H64, "normal", L64, H64),
    "normal_inv3": (1, L64, H64, "normal_inv3", L64, H64),
    "shift": (1, 0, 12288, "shift", 0, 12288),
    "correct": (1, -12289, 2 * 12289 - 1, "correct", -12289, 2 * 12289 - 1),
}


def setup(e, nargs, lo, hi):
    for s in "ab"[:nargs]:
        for v in ("l", "h", "x"):
            e.cmd("var %s%s 64 %d %d" % (v, s, lo, hi))
        for u, v in (("h", "l"), ("x", "l"), ("h", "x")):
            if e.cmd("assume 0 - $%s%s -1*$%s%s" % (u, s, v, s)) != "ok":
                raise Undecided("contradictory assumptions")
        e.cmd("arr %s 8 2" % s); e.cmd("setcell %s 0 8 $l%s" % (s, s)); e.cmd("setcell %s 8 8 $h%s" % (s, s)); e.cmd("ro " + s)


def result(c, e, w, fn, args):
    r = e.cmd("call %s %s -> r" % (fn, args))
    if r.startswith("dead"):
        return None
    b = e.cmd("bindvar R $r")
    if not c.ob("result", b.startswith("ok"), w, "%s does not return an interval object (%s)" % (fn, r)):
        return None
    i = b.split()[1]
    live = e.cmd("heap").split()[2:]
    c.ob("fresh-result", live == [i], w, "%s must return one newly allocated interval; live allocations afterwards: %d" % (fn, len(live)))
    for v, off in (("mn", 0), ("mx", 8)):
        if not c.ob("result", e.cmd("cell %s R %d 8" % (v, off)).startswith("int"), w, "%s leaves a bound of its result unset" % fn):
            return None
    return True


def op(c, fn, front):
    n, lo, hi, f, lo2, hi2 = OPS[fn]
    e = c.engine(front.itv()); w = loc(e, fn)
    setup(e, n, lo, hi)
    if not result(c, e, w, fn, " ".join("@" + s for s in "ab"[:n])):
        c.ob("result", False, w, "%s never returns an interval" % fn)
        return
    e.cmd(("let f 64 " + f) if "$" in f else "spec f %s $xa" % f)
    c.ob("contains", e.cmd("entails $f -1*$mn") == "yes", w, "%s: the concrete result is not established to be at least the lower bound of the interval returned, for every interval and member" % fn)
    c.ob("contains", e.cmd("entails $mx -1*$f") == "yes", w, "%s: the concrete result is not established to be at most the upper bound of the interval returned, for every interval and member" % fn)
    c.ob("ordered", e.cmd("entails $mx -1*$mn") == "yes", w, "%s: the interval returned is not established to be ordered" % fn)
    c.alarms(e, KIN, fn)
    # the operation answers whenever the bounds are representable
    e2 = c.engine(front.itv()); setup(e2, n, lo2, hi2)
    r = e2.cmd("call %s %s -> r" % (fn, " ".join("@" + s for s in "ab"[:n])))
    ev = e2.cmds("events")
    c.ob("total", not r.startswith("dead") and not ev, w, "%s stops although the result is representable: %s" % (fn, "; ".join(ev)[:200]))


def ctor(c, front):
    e = c.engine(front.itv())
    for fn, lo, hi, args in (("point", "x", "x", "$x"), ("interval", "l", "h", "$l $h")):
        e.cmd("reset")
        for v in "lhx":
            e.cmd("var %s 64 %d %d" % (v, L64, H64))
        e.cmd("assume 0 - $h -1*$l")
        w = loc(e, fn)
        if not result(c, e, w, fn, args):
            c.ob("result", False, w, "%s never returns an interval" % fn); continue
        c.ob("contains", e.cmd("eqv $mn $" + lo) == "1" and e.cmd("eqv $mx $" + hi) == "1", w, "%s does not build the interval with the given bounds" % fn)
        ev = e.cmds("events")
        c.ob("total", not ev, w, "%s stops on a legitimate argument: %s" % (fn, "; ".join(ev)[:200]))
        c.alarms(e, KIN, fn)
    e.cmd("reset")
    for v in "lh":
        e.cmd("var %s 64 %d %d" % (v, L64, H64))
    e.cmd("assume 1 - $l -1*$h")
    r = e.cmd("call interval $l $h -> r")
    c.ob("rejects", r.startswith("dead") or e.cmd("feasible") == "no", loc(e, "interval"), "interval returns although min > max")
    c.alarms(e, KIN, "interval")


def opmul(c, fn, front, split=None):
    """red_mul, red_scale: over the contract of the extremal reductions (P17)"""
    n = 2 if fn == "red_mul" else 1
    e = c.engine(front.itv()); w = loc(e, fn); lim = 2**30
    setup(e, n, -lim, lim)
    if split and e.cmd("assume %s $ha -1*$la -1*$hb $lb" % split) != "ok":
        raise Undecided("contradictory assumptions")
    e.cmd("var rho 64 %d %d" % (-2**49, 2**49))   # red(x * y): any value
    if n == 1:
        e.cmd("var k 64 %d %d" % (-lim, lim)); e.cmd("ghost $xa $k $rho")
    else:
        e.cmd("ghost $xa $xb $rho"); e.cmd("ghost $xb $xa $rho")
    contracts(e)
    args = "@a @b" if n == 2 else "$k @a"
    if not result(c, e, w, fn, args):
        c.ob("result", False, w, "%s never returns an interval" % fn)
        return
    e.cmd("inst")
    c.ob("contains", e.cmd("entails $rho -1*$mn") == "yes", w, "%s: the concrete result is not established to be at least the lower bound of the interval returned, for every interval and member" % fn)
    c.ob("contains", e.cmd("entails $mx -1*$rho") == "yes", w, "%s: the concrete result is not established to be at most the upper bound of the interval returned, for every interval and member" % fn)
    c.ob("ordered", e.cmd("entails $mx -1*$mn") == "yes", w, "%s: the interval returned is not established to be ordered" % fn)
    ev = e.cmds("events")
    c.ob("total", e.cmd("feasible") == "yes", w, "%s never returns" % fn)
    c.alarms(e, KIN | {"precondition"}, fn)


def p16(tier):
    c = Check("P16", tier, "for symbolic bounds l <= x <= h over all 64-bit values (shift and correct: their documented domain), the result of each operation is an ordered interval whose bounds enclose the concrete operation applied to x (linear entailment over floor-division atoms), arguments are read-only, no signed overflow occurs, and the operation does not stop where the result is representable",
              ["malloc returns a fresh object", "red_mul and red_scale: bounds within +-2^30, over the contract of the extremal reductions (P17)", "LP64, two's complement"])
    f = c.front = Front(); f.itv()
    for o in OPS:
        c.job(o, lambda k, o=o: op(k, o, f), KIN)
    c.job("constructors", lambda k: ctor(k, f), KIN)
    c.job("red_scale", lambda k: opmul(k, "red_scale", f), KIN | {"precondition"})
    for nm, sp in (("first wider", "1 -"), ("second wider", "- -1"), ("same width", "0 0")):
        c.job("red_mul/" + nm, lambda k, sp=sp: opmul(k, "red_mul", f, sp), KIN | {"precondition"})
    return c.run(len(OPS) + 5)


# ---- the interval-domain routines
OWN = {"double-free", "use-after-free", "bad-free", "leak", "uninit", "oob", "write-const", "bad-interval", "data-address"}
UN = {"normalize": (-2**31, 2**31 - 1), "normalize_inv3": (-2**31, 2**31 - 1), "shift_array": (0, Q - 1), "reduce_array": (-2**31, 2**31 - 1), "reduce_array_twice": (-2**31, 2**31 - 1), "correct": (-Q, 2 * Q - 1)}
ARR = (-524287, 536573)
MIRROR = [(k, k, "unary") for k in UN] + [("mul_reduce_array16", "mul_reduce_array16", "tab"), ("mul_reduce_array", "mul_reduce_array", "bin"), ("scalar_mul_reduce_array", "scalar_mul_reduce_array", "scalar")]


def mirror(c, mod, name, kind, n, tr=None, owner=False):
    """the interval routine and the routine it mirrors, on the same symbolic values"""
    e = c.engine(mod); e.cmd("set shadow 1")
    fn = ("abstract2_" if kind == "ntt2" else "abstract_") + name
    w = loc(e, fn); ref = "concrete_correct" if name == "correct" else name
    loc(e, ref)
    res, args, given = "A", "", {}
    if kind.startswith("ntt"):
        e.cmd("root %d" % n); e.cmd("space A %d" % n); e.cmd("sym a 4 %d -21499 21499 A" % n)
        mono(e, "p", -6144, 6144, table_exps(tr[4], n), INV3)
        args = "@p"
    else:
        lo, hi = UN.get(name, ARR)
        e.cmd("space A %d" % max(n, 1)); e.cmd("sym a 4 %d %d %d A" % (max(n, 1), lo, hi))
        if kind == "tab":
            e.cmd("sym p 2 %d -6144 6144 -" % max(n, 1)); e.cmd("ro p"); args = "@p"
        elif kind == "scalar":
            e.cmd("var s 32 -6144 6144"); args = "$s"
        elif kind == "bin":
            e.cmd("sym b 4 %d %d %d -" % (max(n, 1), ARR[0], ARR[1])); e.cmd("ro a b"); e.cmd("arr r 4 %d" % max(n, 1))
    if kind == "bin":
        e.cmd("shadowarr A a 4 %d ro" % n); e.cmd("shadowarr B b 4 %d ro" % n); e.cmd("arr R 8 %d" % n); res = "R"
        e.cmd("call %s @R i32:%d @A @B" % (fn, n))
    else:
        e.cmd("shadowarr A a 4 %d rw" % n)
        if kind == "ntt2":
            e.cmd("shadowarr P p 2 %d ro" % n)
        e.cmd("call %s @A i32:%d %s" % (fn, n, "@P" if kind == "ntt2" else args))
    if owner:
        slots = e.cmd("slots %s %d" % (res, n)).split()[1:] if n else []
        ids = [int(x.split(":")[0]) for x in slots]; freed = [x.split(":")[1] == "1" for x in slots]
        c.ob("slot-live", not any(i < 0 or f for i, f in zip(ids, freed)), w, "slot %s holds no live interval on return" % next((k for k, (i, f) in enumerate(zip(ids, freed)) if i < 0 or f), "?"), n=n, bad=sum(i < 0 or f for i, f in zip(ids, freed)))
        dup = [k for k, i in enumerate(ids) if i >= 0 and i in ids[:k]]
        c.ob("slot-distinct", not dup, w, "slot %s shares its interval with an earlier slot" % (dup[:1] or [0])[0], n=n, bad=len(dup))
        live = set(int(x) for x in e.cmd("heap").split()[2:])
        keep = set(ids)
        for arr in {"bin": ("A", "B"), "ntt2": ("P",)}.get(kind, ()):
            s2 = e.cmd("slots %s %d" % (arr, n)).split()[1:] if n else []
            k2 = set(int(x.split(":")[0]) for x in s2)
            c.ob("constant-kept", len(k2) == n and k2 <= live, w, "an interval the routine was given as constant is released or replaced (array %s)" % arr, n=n)
            c.ob("constant-kept", not (k2 & set(ids)), w, "a slot of the result aliases an interval given as constant")
            keep |= k2
        lost = sorted(live - keep)
        c.ob("no-leak", not lost, w, "%d interval object(s) are live but unreachable on return, e.g. one from %s" % (len(lost), e.cmd("objname %d" % lost[0]) if lost else ""), n=max(1, len(live)), bad=len(lost))
        c.alarms(e, OWN, fn)
    else:
        if kind == "bin":
            e.cmd("call %s @r i32:%d @a @b" % (ref, n))
        else:
            e.cmd("call %s @a i32:%d %s" % (ref, n, args))
        bad = e.cmd("eqshadow %s %s 4 %d" % (res, "r" if kind == "bin" else "a", n)).split()
        c.ob("same-computation", bad[0] == "0", w, "slots %s: the interval is not shown to bound the value that %s computes there" % (" ".join(bad[1:6]), name), n=max(n, 1), bad=int(bad[0]))
        for a in e.alarms():
            if a[0] in ("bad-interval", "oob", "uninit", "nonterm"):
                c.viol.append({"unit": c.name, "rule": a[0], "where": a[1], "detail": a[2] if len(a) > 2 else ""})


def mirrors(pid, tier, rule, owner, asm):
    c = Check(pid, tier, rule, asm)
    f = c.front = Front(); mod = f.itv()
    top = 256 if tier == "quick" else 1024
    kinds = OWN if owner else {"bad-interval", "oob", "uninit", "nonterm"}
    for n in reversed(sizes(2, top)):
        for k, tr in TRANSFORMS.items():
            nm = k.format(r="_red")
            for kind in ("ntt", "ntt2"):
                c.job("%s%s/n=%d" % ("abstract_" if kind == "ntt" else "abstract2_", nm, n), lambda x, nm=nm, kind=kind, n=n, tr=tr: mirror(x, mod, nm, kind, n, tr, owner), kinds)
    for nm, ref, kind in MIRROR:
        for n in list(range(0, 18)) + [31, 32, 33, 64, 100, 256, 1000, 1024]:
            c.job("abstract_%s/n=%d" % (nm, n), lambda x, nm=nm, kind=kind, n=n: mirror(x, mod, nm, kind, n, None, owner), kinds)
    return c.run(100)


def p18(tier):
    return mirrors("P18", tier, "with every interval object carrying the concrete value it stands for (each operation of the interval library maps values as documented), every slot of the result stands for exactly the value that the mirrored routine of ntt_red.c computes there, as equality of abstract values for every input and table",
                   False, ["the interval operations themselves are sound (P16)"])


def p19(tier):
    return mirrors("P19", tier, "typestate of heap intervals (live, released) through every routine: no double release, no use after release, no release of a constant interval, result slots live and pairwise distinct, nothing live but unreachable on return",
                   True, ["the operations of the interval library return a fresh object (P16)"])


# ---- what the interval transforms report
CLASSES = ((1, "every bound within 32 bits"), (2, "every lower bound below -2^31"), (3, "every upper bound above 2^31-1"), (4, "every lower bound below and upper bound above"), (5, "a mixture"))


def report(c, mod, name, kind, n, tr, cls, text):
    """index and bounds printed, per interval object: once, and once more if the bounds leave the 32-bit range"""
    e = c.engine(mod); e.cmd("set shadow 1"); e.cmd("set trackout 1"); e.cmd("set itvclass %d" % cls)
    fn = ("abstract2_" if kind == "ntt2" else "abstract_") + name
    w = loc(e, fn); lg = n.bit_length() - 1
    e.cmd("sym a 4 %d -21499 21499 -" % n); e.cmd("sym p 2 %d -6144 6144 -" % n); e.cmd("ro p")
    e.cmd("shadowarr A a 4 %d rw" % n)
    if kind == "ntt2":
        e.cmd("shadowarr P p 2 %d ro" % n)
    first = [int(x.split(":")[0]) for x in e.cmd("slots A %d" % n).split()[1:]]
    e.cmd("call %s @A i32:%d %s" % (fn, n, "@P" if kind == "ntt2" else "@p"))
    last = [int(x.split(":")[0]) for x in e.cmd("slots A %d" % n).split()[1:]]
    seen, order, idx, prev = {}, [], None, None
    for t in e.cmd("outitv").split()[1:]:
        if t[0] == "m":
            prev = t[1:]
        elif t[0] == "M":
            o, k, may = map(int, t[1:].split(":"))
            if prev == t[1:] and idx is not None:
                if (idx, o) not in seen:
                    seen[idx, o] = [0, k, 0]; order.append((idx, o))
                seen[idx, o][0] += 1; seen[idx, o][2] += 1 - may
            prev = None
        elif t != "?":
            idx = int(t); prev = None
        else:
            prev = None
    t = "%s, n = %d, %s" % (fn, n, text)
    rounds = [order[k:k + n] for k in range(0, len(order), n)]
    c.ob("reported", len(order) == n * (lg + 1) and len(set(o for _, o in order)) == len(order) and all(sorted(i for i, _ in r) == list(range(n)) for r in rounds), w,
         "%s: prints bounds for %d pairs of element and interval, not for the %d elements at each of the %d stages" % (t, len(order), n, lg + 1), n=n * (lg + 1))
    miss = [i for i in range(n) if (i, first[i]) not in seen]
    c.ob("reported", not miss, w, "%s: the bounds given for element %s are not printed" % (t, miss[:1] and miss[0]), n=n, bad=len(miss))
    miss = [i for i in range(n) if (i, last[i]) not in seen]
    c.ob("reported", not miss, w, "%s: the final bounds of element %s are not printed" % (t, miss[:1] and miss[0]), n=n, bad=len(miss))
    bad = [(i, o) for (i, o), (k, cl, must) in seen.items() if cl != 1 and must < 2]
    c.ob("warned", not bad, w, "%s: no warning for element %s although its bounds may exceed 32 bits (%s)" % (t, bad[:1] and bad[0][0], e.cmd("objname %d" % bad[0][1]) if bad else ""), n=max(1, len(seen)), bad=len(bad))
    bad = [(i, o) for (i, o), (k, cl, must) in seen.items() if cl == 1 and k > 1]
    c.ob("warned", not bad, w, "%s: warning for element %s whose bounds are within 32 bits" % (t, bad[:1] and bad[0][0]), n=max(1, len(seen)), bad=len(bad))
    for a in e.alarms():
        if a[0] in ("bad-interval", "oob", "uninit", "nonterm"):
            c.viol.append({"unit": c.name, "rule": a[0], "where": a[1], "detail": a[2] if len(a) > 2 else ""})


def precondition(c, mod, n):
    """abstract_correct: stops exactly when an element may be outside [-12289, 24577]"""
    e = c.engine(mod); fn = "abstract_correct"; w = loc(e, fn)
    for k in range(-1, n):
        for cls, text in ((1, "within [-12289, 24577]"),) if k < 0 else ((2, "with a lower bound below -12289"), (3, "with an upper bound above 24577"), (4, "beyond both ends of [-12289, 24577]")):
            e.cmd("reset"); e.cmd("set shadow 1"); e.cmd("set itvrange %d %d" % (-Q, 2 * Q - 1)); e.cmd("set itvclass %d" % cls); e.cmd("set itvonly %d" % k)
            e.cmd("sym a 4 %d %d %d -" % (n, -Q, 2 * Q - 1)); e.cmd("shadowarr A a 4 %d rw" % n)
            r = e.cmd("call %s @A i32:%d" % (fn, n)).split(); ev = [x for x in e.cmds("events") if re.match(r"(_?exit|abort|__assert_fail)\(", x)]
            if k < 0:
                c.ob("accepted", r[0] != "dead" and not ev, w, "%s, %d elements %s: stops with %s" % (fn, n, text, "; ".join(ev)))
            else:
                c.ob("rejected", r[0] == "dead" and ev and "exit(0)" not in ev, w, "%s, %d elements: element %d %s is accepted" % (fn, n, k, text))


def p25(tier):
    c = Check("P25", tier, "interval objects with bounds known only to be in a class (within 32 bits, lower bound below, upper bound above, both, mixtures): the numbers printed identify every element with its interval at each stage, each once, and a second time exactly when its class leaves the 32-bit range; abstract_correct ends in a failure status exactly when the class of one element leaves [-12289, 24577]",
              ["the operations of the interval library return a fresh object (P16)", "a warning repeats the element's index and bounds", "sizes enumerated"])
    f = c.front = Front(); mod = f.itv()
    ns = sizes(2, 64 if tier == "quick" else 512)
    for n in reversed(ns):
        for k, tr in TRANSFORMS.items():
            nm = k.format(r="_red")
            for kind in ("ntt", "ntt2"):
                for cls, text in CLASSES:
                    c.job("%s%s/n=%d/%s" % ("abstract_" if kind == "ntt" else "abstract2_", nm, n, text), lambda x, nm=nm, kind=kind, n=n, tr=tr, cls=cls, text=text: report(x, mod, nm, kind, n, tr, cls, text), {"bad-interval", "oob", "uninit", "nonterm"})
    for n in (1, 2, 3, 4, 5, 8, 9, 16, 17):
        c.job("abstract_correct/n=%d" % n, lambda x, n=n: precondition(x, mod, n))
    return c.run(len(ns) * len(TRANSFORMS) * 10 + 9)
