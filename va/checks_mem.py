"""P12 memory extents, P20 calling convention, P23 CPU feature test."""
from .core import Check, Undecided, MEMORY, Fatal
from .spec import Q, TRANSFORMS
from .front import Front, SIZES
from .checks_ntt import loc, sizes
from .checks_util import UNARY, BINARY, ASM, lengths

KINDS = MEMORY
I32 = "-2147483648 2147483647"


def written(c, e, fn, w, allowed):
    bad = [x for x in e.cmd("written").split() if x not in allowed]
    c.ob("writes-only-given-arrays", not bad, w, "writes to %s, which the caller did not pass for output" % ", ".join(bad))


def transform(c, mod, asm, fn, n, arng, prng, extra="", psi=False):
    e = c.engine(mod, asm); e.cmd("set coarse 1"); w = loc(e, fn)
    e.cmd("sym a 4 %d %d %d -" % (n, arng[0], arng[1]))
    e.cmd("mono p 2 %d %d %s" % (prng[0], prng[1], " ".join(["?"] * n))); e.cmd("ro p")
    e.cmd("call %s @a i32:%d @p %s" % (fn, n, extra))
    c.alarms(e, KINDS, fn); written(c, e, fn, w, {"a"})


def product(c, mod, asm, fn, n):
    e = c.engine(mod, asm); e.cmd("set coarse 1"); w = loc(e, fn)
    for s in "ab":
        e.cmd("sym %s 4 %d 0 %d -" % (s, n, Q - 1))
    e.cmd("arr c 4 %d" % n)
    e.cmd("call %s @c @a @b" % fn)
    c.alarms(e, KINDS, fn); written(c, e, fn, w, {"a", "b", "c"})
    _, _, kn, _, _ = e.dump("c", 4, n)
    c.ob("result-fully-written", (kn != 0).all(), w, "an entry of the result is left unwritten", n=n, bad=int((kn == 0).sum()))


def wrapper(c, mod, asm, fn, n, rng):
    e = c.engine(mod, asm); e.cmd("set coarse 1")
    e.cmd("sym a 4 %d %d %d -" % (n, rng[0], rng[1]))
    e.cmd("call va_%s @a" % fn)
    c.alarms(e, KINDS, fn); written(c, e, fn, fn, {"a"})


def util(c, mod, asm, fn, n, ra, rb, eb, dest, extra, binary):
    e = c.engine(mod, asm); e.cmd("set coarse 1"); w = loc(e, fn)
    e.cmd("sym a 4 %d %d %d -" % (n, ra[0], ra[1])); res = "a"
    if not binary:
        e.cmd("call %s @a i32:%d" % (fn, n))
    else:
        if eb:
            e.cmd("sym b %d %d %d %d -" % (eb, n, rb[0], rb[1])); e.cmd("ro b")
        else:
            e.cmd("var b 32 %d %d" % rb)
        if dest:
            e.cmd("arr c 4 %d" % n); e.cmd("ro a"); res = "c"
            e.cmd("call %s @c i32:%d @a @b %s" % (fn, n, extra))
        else:
            e.cmd("call %s @a i32:%d %s %s" % (fn, n, "@b" if eb else "$b", extra))
    c.alarms(e, KINDS, fn); written(c, e, fn, w, {res})
    if n and res == "c":
        _, _, kn, _, _ = e.dump(res, 4, n)
        c.ob("result-fully-written", (kn != 0).all(), w, "an entry of the result is left unwritten", n=n, bad=int((kn == 0).sum()))


def shuffle(c, mod, n, sym):
    e = c.engine(mod)
    e.cmd("sym a 4 %d %s -" % (n, I32))
    if sym:
        w = loc(e, "shuffle_with_table")
        g = [x.split(":") for x in e.cmd("globals").split()]
        size = [int(s) for nm, s, k in g if nm == sym and s != "ext"]
        if not size:
            raise Undecided("table %s not found" % sym)
        e.cmd("call shuffle_with_table @a @%s i32:%d" % (sym, size[0] // 4)); c.alarms(e, KINDS, "shuffle_with_table")
    else:
        w = loc(e, "bitrev_shuffle")
        e.cmd("call bitrev_shuffle @a i32:%d" % n); c.alarms(e, KINDS, "bitrev_shuffle")
    written(c, e, "", w, {"a"})


def p12(tier):
    top = 64 if tier == "quick" else 300
    ck = Check("P12", tier, "every load and store of every routine, with the arguments at their exact documented extents: address provably inside one of them or inside a constant of the library, inputs and tables not written, no read of an unwritten cell, no address depending on array contents, result arrays entirely written",
               ["lengths of the elementwise routines: 0..%d and the boundary lengths around every integer constant of the routine, 1000, 1024, 2048, 65535..65537 (assembly: multiples of 16)" % top, "decoding of the assembly by llvm-objdump is right", "arrays passed as different arguments do not overlap"])
    ck.front = f = Front()
    asm = f.assembly()
    plain, naive, red, redasm = f.plain(), f.naive(), f.red(), f.redasm()
    J = lambda name, fn: ck.job(name, fn, KINDS)
    for n in reversed(sizes(2, 2048)):
        for k in list(TRANSFORMS) + ["ntt{r}_ct_rev2std_v1"]:
            fn = k.format(r="")
            J("%s/n=%d" % (fn, n), lambda c, fn=fn, n=n: transform(c, plain, None, fn, n, (0, Q - 1), (0, Q - 1)))
            if k in TRANSFORMS:
                J("%s_naive/n=%d" % (fn, n), lambda c, fn=fn + "_naive", n=n: transform(c, naive, None, fn, n, (0, Q - 1), (0, Q - 1), "i32:12289"))
                fr = k.format(r="_red")
                J("%s/n=%d" % (fr, n), lambda c, fn=fr, n=n: transform(c, red, None, fn, n, (-21499, 21499), (-6144, 6144)))
                if n >= 16:
                    J("%s_asm/n=%d" % (fr, n), lambda c, fn=fr + "_asm", n=n: transform(c, redasm, asm, fn, n, (-21499, 21499), (-6144, 6144)))
    for n in reversed(SIZES):
        for k in range(1, 6):
            for fam, mod, nm in (("plain", plain, "ntt%d_product%d"), ("naive", naive, "naive_ntt%d_product%d"), ("red", red, "ntt_red%d_product%d"), ("asm", redasm, "ntt_red%d_product%d_asm")):
                J(nm % (n, k), lambda c, mod=mod, fn=nm % (n, k), n=n, a=asm if fam == "asm" else None: product(c, mod, a, fn, n))
    for fam, rng in (("plain", (0, Q - 1)), ("naive", (0, Q - 1)), ("red", (-21499, 21499)), ("redasm", (-21499, 21499))):
        mod = f.wrapped(fam)
        for n in SIZES:
            for w in f.wrappers(fam, n):
                J("%s" % w, lambda c, mod=mod, w=w, n=n, rng=rng, a=asm if fam == "redasm" else None: wrapper(c, mod, a, w, n, rng))
    base = list(range(0, top + 1)) + [100, 127, 128, 129, 255, 256, 257, 1000, 1024, 2048, 65535, 65536, 65537]
    from .eng import Engine
    mods = {"plain": plain, "naive": naive, "red": red}

    def batch(name, run, ns):
        for part in ([n for n in ns if n <= 300], [n for n in ns if 300 < n <= 5000]) + tuple([n] for n in ns if n > 5000):
            if part:
                J("%s/n=%s" % (name, "%d..%d" % (part[0], part[-1]) if len(part) > 1 else part[0]), lambda c, part=part: [run(c, n) for n in part])
    consts = {}
    for fam, m in mods.items():
        with Engine(m) as e:
            for fn in [k for k, v in UNARY.items() if v[0] == fam] + [b[0] for b in BINARY if b[1] == fam]:
                consts[fn] = [int(x) for x in e.cmd("consts " + fn).split()[1:]]
    for fn, sp in UNARY.items():
        batch(fn, lambda c, n, fn=fn, sp=sp: util(c, mods[sp[0]], None, fn, n, sp[1], None, 0, False, "", False), lengths(consts[fn], base, 70000))
    seen = set()
    for sp in BINARY:
        if sp[0] in seen or sp[9]:
            continue
        seen.add(sp[0])
        batch(sp[0], lambda c, n, sp=sp: util(c, mods[sp[1]], None, sp[0], n, sp[2], sp[3], sp[4], sp[8], sp[10], True), lengths(consts[sp[0]], base, 70000))
    for sp in ASM:
        if sp[6]:
            continue
        batch(sp[0], lambda c, n, sp=sp: util(c, redasm, asm, sp[0], n, sp[3], sp[4], sp[5], sp[2] == "d", "", sp[2] != "u"), [n for n in range(16, 513, 16)] + [1024, 4096, 65536, 65552])
    for src in "ntt.c", "naive_ntt.c":
        mod, bits = f.shuffles(src)
        for n in sizes(2, 4096):
            J("%s:bitrev_shuffle/n=%d" % (src, n), lambda c, mod=mod, n=n: shuffle(c, mod, n, None))
        for n, sym, kind in bits:
            J("%s:shuffle_with_table/%s" % (src, sym), lambda c, mod=mod, n=n, sym=sym: shuffle(c, mod, n, sym))
    return ck.run(300)


ABI = {"abi", "align", "nonterm"}


def asmfun(c, mod, asm, fn, n, args):
    """one assembly routine at one length: once with clean and once with arbitrary upper halves of its 32-bit arguments"""
    for garbage in 0, 1:
        e = c.engine(mod, asm); e.cmd("set coarse 1"); w = loc(e, fn)
        if garbage:
            e.cmd("set garbage 1")
        a = args(e, n)
        try:
            r = e.cmd("call %s %s" % (fn, a))
        except Fatal as x:
            al = c.alarms(e, ABI, fn)
            if not garbage:
                if al:
                    return
                raise
            c.ob("upper-halves-ignored", False, w, "n=%d: with arbitrary bits 32..63 in the registers of 32-bit arguments the routine's accesses or control flow are no longer determined (%s)" % (n, str(x)[:160]))
            return
        al = c.alarms(e, ABI, fn)
        c.ob("convention", not al, w, "see alarms")
        c.ob("returns", not r.startswith("dead"), w, "n=%d: no path returns" % n)
        if garbage:
            mem = [x for x in e.alarms() if x[0] in MEMORY]
            c.ob("upper-halves-ignored", not mem or mem == clean, w, "n=%d: with arbitrary bits 32..63 in the registers of 32-bit arguments: %s" % (n, mem[0][2] if mem else ""))
        else:
            clean = [x for x in e.alarms() if x[0] in MEMORY]


def p20(tier):
    ck = Check("P20", tier, "on every path of every global assembly routine: rbx, rbp, r12-r15 and rsp hold their entry values at ret, ret goes to the caller's address, no store above the entry stack pointer or below the red zone, aligned vector accesses only to the routine's own aligned constants, nothing depends on bits 32..63 of 32-bit arguments, loops terminate",
               ["System V AMD64 calling convention", "decoding by llvm-objdump is right", "lengths as listed in the samples"])
    ck.front = f = Front(); mod = f.redasm(); asm = f.assembly()
    kinds = ABI

    def one(rng):
        def args(e, n):
            e.cmd("sym a 4 %d %d %d -" % (n, rng[0], rng[1])); return "@a i32:%d" % n
        return args

    def tr(e, n):
        e.cmd("sym a 4 %d -21499 21499 -" % n); e.cmd("mono p 2 -6144 6144 " + " ".join(["?"] * n)); return "@a i32:%d @p" % n

    def bin_(sp):
        def args(e, n):
            e.cmd("sym a 4 %d %d %d -" % (n, sp[3][0], sp[3][1]))
            if sp[5]:
                e.cmd("sym b %d %d %d %d -" % (sp[5], n, sp[4][0], sp[4][1]))
            else:
                e.cmd("var b 32 %d %d" % sp[4])
            if sp[2] == "d":
                e.cmd("arr c 4 %d" % n); return "@c i32:%d @a @b" % n
            return "@a i32:%d %s" % (n, "@b" if sp[5] else "$b")
        return args
    lens = list(range(16, 257, 16)) + [512, 1024, 2048] + ([4096, 65536] if tier == "thorough" else [])
    for k in TRANSFORMS:
        fn = k.format(r="_red") + "_asm"
        for n in reversed(sizes(16, 2048)):
            ck.job("%s/n=%d" % (fn, n), lambda c, fn=fn, n=n: asmfun(c, mod, asm, fn, n, tr), kinds)
    for sp in ASM:
        if sp[6]:
            continue
        a = one(sp[3]) if sp[2] == "u" else bin_(sp)
        ck.job("%s/n=%d..%d" % (sp[0], lens[0], lens[-1]), lambda c, sp=sp, a=a: [asmfun(c, mod, asm, sp[0], n, a) for n in lens], kinds)
    ck.job("avx2_supported", lambda c: asmfun(c, mod, asm, "avx2_supported", 0, lambda e, n: ""), kinds)
    return ck.run(60)


REQUIRED = [("cpuid1.ecx", 27, "OSXSAVE (the operating system enabled XGETBV)"), ("cpuid1.ecx", 28, "AVX"), ("cpuid7_0.ebx", 5, "AVX2"),
            ("xcr0.eax", 1, "XCR0.SSE (xmm state saved)"), ("xcr0.eax", 2, "XCR0.AVX (ymm state saved)")]


def p23(tier):
    ck = Check("P23", tier, "for each required feature bit: with that bit 0 and every other bit of every cpuid/xgetbv result unknown, every path of avx2_supported returns 0; with nothing assumed every path returns 0 or 1; xgetbv is not reached when OSXSAVE is 0 and always reads XCR0",
               ["cpuid leaf 7 is implemented by every processor that reports AVX", "decoding by llvm-objdump is right"])
    ck.front = f = Front(); mod = None; asm = f.assembly()
    fn = "avx2_supported"

    def unit(c, zero):
        e = c.engine(mod, asm); w = loc(e, fn)
        if zero:
            e.cmd("set cpuzero %s %d" % zero[:2])
        e.cmd("call %s" % fn)
        paths = e.cmds("paths")
        # the result is a C bool: only al is read by callers
        rets = [p.split(" | ")[0] for p in paths]
        if not rets:
            raise Undecided("no path returns")
        c.alarms(e, {"abi"}, fn)
        if zero:
            bad = [p for p in paths if p.split(" | ")[0] != "0"]
            c.ob("needs-" + zero[2].split()[0], not bad, w, "a path returns %s although %s is 0" % (bad[0].split(" | ")[0] if bad else "", zero[2]), n=len(paths), bad=len(bad))
            if zero[1] == 27:
                ev = e.cmds("events")
                c.ob("xgetbv-guarded", "xgetbv" not in ev, w, "xgetbv is executed although OSXSAVE is 0 (invalid opcode)")
        else:
            bad = [r for r in rets if r not in ("0", "1")]
            c.ob("boolean", not bad, w, "a path returns %s" % bad[:1], n=len(paths), bad=len(bad))
            c.ob("reports-support", "1" in rets, w, "no path ever reports support")
    ck.job("no assumption", lambda c: unit(c, None), {"abi"})
    for z in REQUIRED:
        ck.job("%s bit %d = 0" % z[:2], lambda c, z=z: unit(c, z), {"abi"})
    return ck.run(6)
