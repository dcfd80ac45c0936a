"""P17, P24: extremal values of reduced products and the growth of bounds (red_bounds.c)."""
import time
from .core import Check, Undecided, ARITH, MEMORY
from .front import Front
from .eng import Fatal
from .checks_ntt import loc

L64, H64 = -2**63, 2**63 - 1
KB = ARITH | MEMORY | {"precondition"}
B = 2**31
WQ = [0, 1, -1, 2, -2, 3, -3, 4, 5, 12, -12, 1365, 2048, -2048, 4095, -4095, 4096, -4096, 4097, 6144, -6144, 8192, 12288, 65536]
WT = sorted(set(WQ + list(range(-16, 17)) + [s * w for s in (1, -1) for w in (24, 48, 100, 127, 128, 1023, 1024, 1025, 1366, 2047, 2049, 3000, 3072, 4094, 4098, 5000, 6143, 8191, 8193, 12289, 32767, 32768, 1000003)]))
WIN = [(0, 0), (1, 1), (-1, -1), (-1, 1), (0, 2), (-2, 0), (1, 3), (-3, -1), (-2, 2), (4095, 4096), (-4096, -4095), (6143, 6144)]
WINT = WIN + [(-3, 2), (-1, 3), (2, 5), (-5, -2), (-6144, -6143), (12288, 12290), (-4097, -4095), (0, 4), (-4, 0)]


def ordered(e, *pairs):
    for u, v in pairs:
        if e.cmd("assume 0 - $%s -1*$%s" % (v, u)) != "ok":
            raise Undecided("contradictory assumptions")


def sgn(fn):
    return 1 if fn.startswith("max") else -1


def word(fn):
    return "below the value at some point of the range" if fn.startswith("max") else "above the value at some point of the range"


def simple(c, fn, front):
    e = c.engine(front.itv()); w = loc(e, fn); s = sgn(fn)
    for v in "abz":
        e.cmd("var %s 64 %d %d" % (v, L64, H64))
    ordered(e, "ab", "az", "zb"); e.cmd("arr m 8 1"); e.cmd("spec R red $z")
    r = e.cmd("call %s $a $b @m -> r" % fn)
    if not c.ob("result", r.startswith("int") and e.cmd("cell x m 0 8").startswith("int"), w, "%s does not return a value and a point" % fn):
        return
    e.cmd("spec RX red $x")
    c.ob("bound", e.cmd("entails %d*$r %d*$R" % (s, -s)) == "yes", w, "%s: the value returned is not shown to bound red(x) for every x of the range: it may be %s" % (fn, word(fn)))
    c.ob("attained", e.cmd("eqv $r $RX") == "1", w, "%s: the value returned is not red of the point reported" % fn)
    c.ob("point", e.cmd("entails $x -1*$a") == "yes" and e.cmd("entails $b -1*$x") == "yes", w, "%s: the point reported is not shown to be in the range" % fn)
    c.alarms(e, KB, fn)


def attempt(e, at, fn, wt, block):
    """-> claims [(rule, ok, text, n, bad)], number of invariant candidates decided"""
    s = sgn(fn); t = "%s with w = %d" % (fn, wt)
    for v in "abz":
        e.cmd("var %s 64 %d %d" % (v, -B, B))
    ordered(e, "ab", "az", "zb"); e.cmd("arr m 8 1")
    e.cmd("let wz 64 %d*$z" % wt); e.cmd("spec R red $wz"); e.cmd("let nz 64 -1*$z"); e.cmd("let w 64 %d" % wt)
    for x in ("$a", "$b", "-1*$a", "-1*$b"):
        e.cmd("inv anchor " + x)
    e.cmd("inv ghost $z $R"); e.cmd("inv ghost $nz $R"); e.cmd("inv scale %d" % wt); e.cmd("inv scale %d" % -wt); e.cmd("inv dir %d" % s)
    if block:
        e.cmd("inv block $wz")
    e.cmd("set steps 400000")
    r = e.cmd("callinv %s $a $b $w @m -> r" % fn).split()
    if r[0] != "int" or not e.cmd("cell x m 0 8").startswith("int"):
        return [("result", False, "%s does not return a value and a point" % t, 1, 1)], 0
    d = dict(zip(r[3::2], map(int, r[4::2])))
    e.cmd("let wx 64 %d*$x" % wt); e.cmd("spec RX red $wx")
    return [("bound", e.cmd("entails %d*$r %d*$R" % (s, -s)) == "yes", "%s: the value returned is not shown to bound red(w x) for every x of the range: it may be %s" % (t, word(fn)), 1, 1),
            ("attained", e.cmd("entails $r -1*$RX") == "yes" and e.cmd("entails $RX -1*$r") == "yes", "%s: the value returned is not shown to be red(w x) at the point x reported" % t, 1, 1),
            ("point", e.cmd("entails $x -1*$a") == "yes" and e.cmd("entails $b -1*$x") == "yes", "%s: the point reported is not shown to be in the range" % t, 1, 1),
            ("terminates", d["terminating"] == d["loops"], "%s: no variable of the search loop is shown to be strictly monotone" % t, max(1, d["loops"]), d["loops"] - d["terminating"])], d["claims"]


def mul(c, fn, wt, front):
    """the loops as they are written and, where that does not suffice, after inlining"""
    first = None
    for mod, block in ((front.itv, 0), (front.itv, 1), (front.itv_inlined, 0), (front.itv_inlined, 1)):
        if first is not None and (mod == front.itv) == bool(first[4]):
            continue        # inlining when the loop could not be summarised as written, more templates when they did not suffice
        # further forms only while every unit decided so far has been shown, and with time left
        if first is not None and (c.check.lost or time.time() - c.check.t0 > 420):
            break
        e = c.engine(mod()); at = loc(e, fn)
        try:
            obs, n = attempt(e, at, fn, wt, block); err = None
        except Fatal as x:
            obs, n, err = [], 0, x
        bad = [a for a in e.alarms() if a[0] in KB]
        if not err and not bad and all(o[1] for o in obs):
            break
        if first is None:
            first = (e, at, obs, n, err)
        e = None
    if e is None:
        e, at, obs, n, err = first; c.check.lost = True
    for k in list(c.engines):
        if k is not e:
            c.engines.remove(k); k.close()
    for rule, ok, text, k, bad in obs:
        c.ob(rule, ok, at, text, k, bad)
    c.obl += n; c.dis += n
    if err:
        raise err
    c.alarms(e, KB, fn)


def contracts(e):
    for m in ("max", "min"):
        e.cmd("set contract %s_red_mul %s-mul" % (m, m)); e.cmd("set contract %s_red_mul_interval %s-mul-interval" % (m, m))


def interval(c, fn, lo, hi, front):
    s = sgn(fn)
    e = c.engine(front.itv()); at = loc(e, fn)
    for w0 in range(lo, hi + 1):
        t = "%s for w in [%d, %d]" % (fn, lo, hi)
        e.cmd("reset")
        for v in "abz":
            e.cmd("var %s 64 %d %d" % (v, -B, B))
        ordered(e, "ab", "az", "zb"); e.cmd("arr m 8 1"); e.cmd("arr mw 8 1")
        e.cmd("let wz 64 %d*$z" % w0); e.cmd("spec R red $wz"); e.cmd("let w0 64 %d" % w0); e.cmd("ghost $z $w0 $R"); contracts(e)
        r = e.cmd("call %s $a $b i64:%d i64:%d @m @mw -> r" % (fn, lo, hi))
        if not c.ob("result", r.startswith("int") and e.cmd("cell x m 0 8").startswith("int") and e.cmd("cell w mw 0 8").startswith("int"), at, "%s does not return a value and a pair" % t):
            c.alarms(e, KB, fn); return
        c.ob("bound", e.cmd("entails %d*$r %d*$R" % (s, -s)) == "yes", at, "%s: the value returned is not shown to bound red(w x) for w = %d and every x of the range: it may be %s" % (t, w0, word(fn)))
        if w0 == lo:
            c.ob("point", e.cmd("entails $x -1*$a") == "yes" and e.cmd("entails $b -1*$x") == "yes", at, "%s: the point reported is not shown to be in the range" % t)
            c.ob("point", e.cmd("entails $w %d" % -lo) == "yes" and e.cmd("entails -1*$w %d" % hi) == "yes", at, "%s: the weight reported is not shown to be in the interval" % t)
        # the same state, for the executions that report w0
        if e.cmd("assume %d %d $w" % (w0, w0)) == "ok":
            e.cmd("let wx 64 %d*$x" % w0); e.cmd("spec RX red $wx")
            c.ob("attained", e.cmd("entails $r -1*$RX") == "yes" and e.cmd("entails $RX -1*$r") == "yes", at, "%s: when w = %d is reported, the value returned is not shown to be red(w x) at the point x reported" % (t, w0))
        c.alarms(e, KB, fn)


def p17(tier):
    c = Check("P17", tier, "for symbolic a <= z <= b: the value returned bounds the reduction at the arbitrary point z, equals the reduction at the point reported, and that point is in range (linear entailment over floor-division atoms); search loops through inductive invariants drawn from fixed templates, with a strictly monotone loop variable for termination; the interval versions over the contract of the fixed-weight versions",
              ["ranges within +-2^31", "weights and weight intervals enumerated", "LP64, two's complement"])
    f = c.front = Front(); f.itv(); c.lost = False
    ws, wins = (WQ, WIN) if tier == "quick" else (WT, WINT)
    for lo, hi in sorted(wins, key=lambda p: p[0] - p[1]):
        for m in ("max", "min"):
            c.job("%s_red_mul_interval/w=%d..%d" % (m, lo, hi), lambda k, m=m, lo=lo, hi=hi: interval(k, m + "_red_mul_interval", lo, hi, f), KB)
    for m in ("max", "min"):
        c.job(m + "_red", lambda k, m=m: simple(k, m + "_red", f), KB)
        for w in ws:
            c.job("%s_red_mul/w=%d" % (m, w), lambda k, m=m, w=w: mul(k, m + "_red_mul", w, f), KB)
    return c.run(2 * (len(ws) + len(wins)) + 2)


# ---- growth of bounds
def step(c, fn, front):
    e = c.engine(front.itv()); at = loc(e, fn); gs = fn.startswith("gs"); fixed = fn.endswith("fixed")
    WB = 2**20
    e.cmd("var b 64 0 %d" % B)
    for v in "xy":
        e.cmd("var %s 64 %d %d" % (v, -B, B))
        if e.cmd("assume 0 - $b -1*$%s" % v) != "ok" or e.cmd("assume 0 - $b $%s" % v) != "ok":
            raise Undecided("contradictory assumptions")
    for v in "w" if fixed else "lhw":
        e.cmd("var %s 64 %d %d" % (v, -WB, WB))
    if not fixed:
        ordered(e, "lh", "lw", "wh")
    e.cmd("var rho 64 %d %d" % (-2**41, 2**41))     # red(w * y), red(w * (x - y)): any value
    e.cmd("let d 64 $x -1*$y"); e.cmd("let o 64 $x $y")
    e.cmd("ghost %s $w $rho" % ("$d" if gs else "$y")); contracts(e)
    r = e.cmd("call %s $b %s -> r" % (fn, "$w" if fixed else "$l $h"))
    if not c.ob("result", r.startswith("int"), at, "%s does not return a value" % fn):
        c.alarms(e, KB, fn); return
    goals = ("$o", "$rho") if gs else ("$x $rho", "$x -1*$rho")
    for k, g in enumerate(goals):
        for sg in (1, -1):
            e.cmd("let g 64 " + g)
            c.ob("bound", e.cmd("entails $r %d*$g" % -sg) == "yes", at, "%s: the bound returned is not shown to cover the %s %s of the butterfly" % (fn, "positive" if sg > 0 else "negative", ("sum" if k == 0 else "scaled difference") if gs else ("sum" if k == 0 else "difference")))
    c.alarms(e, KB, fn)


def rounds(c, fn, n, front, over):
    e = c.engine(front.itv()); at = loc(e, fn); gs = "_gs" in fn
    lg = n.bit_length() - 1
    if over:
        # is every step a call of that function?
        e.cmd("var b 64 0 1"); e.cmd("sym p 2 4 0 1 -"); e.cmd("arr bound 8 3"); contracts(e); e.cmd("set contract %s %s" % (over, "gs-step" if gs else "ct-step"))
        e.cmd("call %s $b i32:4 @p @bound -> r" % fn); k = int(e.cmd("contracts").split()[0]); e.cmd("reset")
        if k != 3:
            c.ob("step", True, at); return
    e.cmd("var b 64 0 %d" % 2**20); e.cmd("sym p 2 %d -32768 32767 -" % max(n, 1)); e.cmd("ro p"); e.cmd("arr bound 8 %d" % (lg + 1))
    ts = [1 << k for k in range(lg)]
    ts = ts[::-1] if gs else ts
    for t in ts:
        for j in range(t):
            i = t + j
            for v in "xy":
                e.cmd("var %s%d 64 %d %d" % (v, i, -2**60, 2**60))
            e.cmd("var r%d 64 %d %d" % (i, -2**61, 2**61)); e.cmd("cell w%d p %d 2" % (i, 2 * i)); e.cmd("let d%d 64 $x%d -1*$y%d" % (i, i, i))
            e.cmd("ghost %s%d $w%d $r%d" % ("$d" if gs else "$y", i, i, i) + " $x%d $y%d" % (i, i))
    contracts(e)
    if over:
        e.cmd("set contract %s %s" % (over, "gs-step" if gs else "ct-step"))
    r = e.cmd("call %s $b i32:%d @p @bound -> r" % (fn, n))
    ok = r.startswith("int")
    for k in range(lg + 1):
        ok = ok and e.cmd("cell B%d bound %d 8" % (k, 8 * k)).startswith("int")
    if not c.ob("result", ok, at, "%s leaves a bound unset" % fn):
        c.alarms(e, KB, fn); return
    c.ob("input-bound", e.cmd("eqv $B0 $b") == "1", at, "%s: the first bound stored is not the bound given" % fn)
    c.ob("final-bound", e.cmd("eqv $B%d $r" % lg) == "1", at, "%s: the value returned is not the bound of the last round" % fn)
    for k, t in enumerate(ts):
        for j in range(t):
            i = t + j
            e.cmd("push")
            if all(e.cmd("assume 0 - $B%d %s$%s%d" % (k, s, v, i)) == "ok" for v in "xy" for s in ("-1*", "")):
                e.cmd("inst")
                for g in ("$x%d $y%d" % (i, i), "$r%d" % i) if gs else ("$x%d $r%d" % (i, i), "$x%d -1*$r%d" % (i, i)):
                    for sg in (1, -1):
                        e.cmd("let g 64 " + g)
                        c.ob("bound", e.cmd("entails $B%d %d*$g" % (k + 1, -sg)) == "yes", at, "%s, n = %d: the bound stored for round %d is not shown to cover the butterflies with coefficient p[%d]" % (fn, n, k + 1, i))
            else:
                raise Undecided("contradictory assumptions")
            e.cmd("pop")
    c.alarms(e, KB, fn)


def p24(tier):
    c = Check("P24", tier, "for symbolic bound b, weights, and butterfly inputs within b, with the extremal reductions replaced by their contract (P17): both outputs of the butterfly are within the bound returned; for the whole-transform versions the bound stored for each round covers every butterfly of that round (every coefficient of the table), given the bound of the round before",
              ["the extremal reductions meet P17", "step bound at most 2^31, weights within +-2^20; whole transform: input bound at most 2^20, any 16-bit table", "sizes enumerated", "LP64, two's complement"])
    f = c.front = Front(); f.itv()
    for fn in ("ct_bound", "gs_bound", "ct_bound_fixed", "gs_bound_fixed"):
        c.job(fn, lambda k, fn=fn: step(k, fn, f), KB)
    for fn in ("ntt_ct_bounds", "ntt_gs_bounds"):
        over = fn[4:6] + "_bound_fixed"
        for n in (1, 2, 4):
            c.job("%s/n=%d" % (fn, n), lambda k, fn=fn, n=n: rounds(k, fn, n, f, None), KB)
        # larger sizes over the contract of the step, which is decided above
        for n in (4, 8, 16) if tier == "quick" else (4, 8, 16, 32):
            c.job("%s/n=%d over %s" % (fn, n, over), lambda k, fn=fn, n=n, over=over: rounds(k, fn, n, f, over), KB)
    return c.run(12)
