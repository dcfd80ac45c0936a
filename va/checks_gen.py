"""P15: the table generators, for a formal root and for rejected arguments."""
import re
from .core import Check, Undecided, ARITH, MEMORY
from .spec import Q, INV3, rev, log2, table_exps
from .front import Front
from .checks_ntt import loc, sizes
from .checks_tab import inv, psi_rev, OPTIONAL
from .eng import Engine, Fatal

KINDS = (ARITH | MEMORY | {"bad-free"}) - {"data-address"}
L64, H64 = -2**63, 2**63 - 1


# ---- functions that compute inverses modulo 12289 are recognised by what they return on every residue
def inverters(front, which):
    """-> {function: contract}, [(function, x, got)] for every function that is an inverse on most residues"""
    out, wrong = {}, []
    with Engine(front.gen(which)) as e:
        e.cmd("set steps 100000")
        for s in e.cmd("fnsig").split():
            nm, sig = s.split(":")
            m = re.fullmatch(r"(i\d+)\((i32|i64)(,i32|,i64)?(,p)?\)", sig)
            if not m:
                continue
            kind = "inverse" if m.group(4) else "inverse-ret"
            mod = " %s:%d" % (m.group(3)[1:], Q) if m.group(3) else ""

            def value(x):
                e.cmd("reset"); e.cmd("set steps 100000")
                try:
                    if kind == "inverse":
                        e.cmd("arr o 4 1")
                        r = e.cmd("call %s %s:%d%s @o -> r" % (nm, m.group(2), x, mod)).split()
                        v = e.cmd("cell v o 0 4").split()
                        ok = r[0] == "int" and r[1] == r[2] and int(r[1]) != 0 and v[0] == "int" and v[1] == v[2]
                        return int(v[1]) if ok else None
                    r = e.cmd("call %s %s:%d%s -> r" % (nm, m.group(2), x, mod)).split()
                    return int(r[1]) if r[0] == "int" and r[1] == r[2] else None
                except Fatal:
                    return None
            probe = [1, 2, 3, 5, 7, 11, 100, 1000, 6145, 12288]
            if sum(value(x) == inv(x) for x in probe) < 6:
                continue
            bad = [(nm, x, v) for x in range(1, Q) for v in (value(x),) if v != inv(x)]
            wrong += bad[:1]
            out[nm] = kind
    return out, wrong


# ---- the text a generator writes, with symbolic numbers as placeholders
def render(e):
    """-> {file: text}, [(lo, hi, coef, exp or None)]: \\x01k\\x02 stands for number k"""
    files, nums = {}, []
    for l in e.cmds("out"):
        w = l.split()
        fn, stream, fmt, args = w[0], w[1], "" if w[2] == "-" else bytes.fromhex(w[2]).decode("latin1"), w[3:]
        if not stream.startswith("file:"):
            continue
        if fn in ("fputs", "fputc", "putc", "fwrite"):
            t = fmt
        else:
            it = iter(args); t = ""; pos = 0
            for m in re.finditer(r"%([-+ 0#]*\d*(?:\.\d+)?)([hlzjt]*)([a-zA-Z%])", fmt):
                t += fmt[pos:m.start()]; pos = m.end()
                if m.group(3) == "%":
                    t += "%"; continue
                a = next(it, None)
                if a is None:
                    raise Undecided("too few arguments for format %r" % fmt)
                if a[0] == "s" and m.group(3) == "s":
                    t += bytes.fromhex(a[1:]).decode("latin1")
                elif a[0] == "i" and m.group(3) in "diu":
                    lo, hi, r = a[1:].split(":")
                    lo, hi = int(lo), int(hi)
                    if lo == hi:
                        t += str(lo + 2**32 if lo < 0 and m.group(3) == "u" else lo)
                    else:
                        c, x = (None, None) if r == "?" else map(int, r.split("^"))
                        t += "\x01%d\x02" % len(nums); nums.append((lo, hi, c, x, m.group(3)))
                else:
                    raise Undecided("format %r with argument %s" % (fmt, a[:20]))
            t += fmt[pos:]
        files[stream[5:]] = files.get(stream[5:], "") + t
    return files, nums


def strip(t):
    return re.sub(r"//[^\n]*", " ", re.sub(r"/\*.*?\*/", " ", t, flags=re.S))


NUM = r"[-+]?\s*(?:\d+|\x01\d+\x02)"


def number(tok, nums):
    """-> (lo, hi, coef, exp)"""
    tok = re.sub(r"\s", "", tok); neg = tok.startswith("-"); tok = tok.lstrip("+-")
    if tok.startswith("\x01"):
        lo, hi, c, x, conv = nums[int(tok[1:-1])]
        if conv == "u" and lo < 0 or neg:
            return lo, hi, None, None
        return lo, hi, c, x
    v = -int(tok) if neg else int(tok)
    return v, v, v % Q, 0


def tables_of(text, nums):
    t = strip(text); d = {}
    for m in re.finditer(r"const\s+(u?)int(\d+)_t\s+(\w+)\s*\[([^\]]*)\]\s*(?:\[2\]\s*)?=\s*\{(.*?)\}\s*;", t, flags=re.S):
        body = m.group(5)
        d[m.group(3)] = (m.group(1), int(m.group(2)), m.group(4).strip(), [number(x, nums) for x in re.findall(NUM, body)])
    return d


def params_of(text, nums):
    t = strip(text)
    return {m.group(1): number(m.group(2), nums) for m in re.finditer(r"const\s+int32_t\s+(\w+)\s*=\s*(%s)\s*;" % NUM, t)}


def gen_spec(fam, n):
    """table -> [(coefficient, exponent of psi) or None]"""
    s = INV3 if fam == "ntt_red" else 1
    ninv = inv(n)
    d = {"psi_powers": [(s, i) for i in range(n)], "inv_psi_powers": [(s, -i) for i in range(n)]}
    if fam == "ntt":
        d["scaled_inv_psi_powers"] = [(ninv, -i) for i in range(n)]
    else:
        d["scaled_inv_psi_powers"] = [(ninv * pow(INV3, 8, Q), -i) for i in range(n)]
        d["scaled_inv_psi_powers_var"] = [(ninv * pow(INV3, 6, Q), -i) for i in range(n)]
    for kind in "omega", "mixed":
        for r in "", "_rev":
            ex = table_exps(kind + r, n)
            d["%s_powers%s" % (kind, r)] = [None if x is None else (s, x) for x in ex]
            d["inv_%s_powers%s" % (kind, r)] = [None if x is None else (s, -x) for x in ex]
    nm, sg = ("inv_psi_powers_rev", -1) if fam == "ntt" else ("psi_powers_rev", 1)
    d[nm] = [None if x is None else (s, sg * x) for x in psi_rev(n)]
    return d


def gen_params(fam, n):
    ninv = inv(n)
    d = {"psi": (1, 1), "omega": (1, 2), "inv_psi": (1, -1), "inv_omega": (1, -2), "inv_n": (ninv, 0)}
    if fam == "ntt_red":
        d.update(inv_k=(INV3, 0), rescale8=(ninv * pow(INV3, 8, Q), 0), rescale6=(ninv * pow(INV3, 6, Q), 0))
    return d


def same(v, want, n):
    """the number is congruent to coef * psi^exp, psi^n = -1"""
    if v[2] is None:
        return False
    c, x = want; x %= 2 * n
    if x >= n:
        x -= n; c = -c
    c %= Q
    if v[3] == 0 and x == 0 or v[3] == x:
        return v[2] == c
    return False


def start(c, front, which, contracts, ring=None):
    e = c.engine(front.gen(which)); w = loc(e, "main") + " in %s.c" % which
    if ring:
        e.cmd("root %d" % ring)
    for fn, kind in contracts.items():
        e.cmd("set contract %s %s" % (fn, kind))
    e.cmd("set trackout 1"); e.cmd("set statics 0"); e.cmd("cstr a0 70")
    return e, w


def exits(ev):
    return [x for x in ev if not x.startswith(("fopen(", "fclose("))]


def tables(c, front, which, fam, n, contracts):
    e, w = start(c, front, which, contracts, n)
    e.cmd("mono psi 4 2 %d 1:1" % (Q - 2))  # n >= 2 is even, so neither 1 nor -1 qualifies
    e.cmd("cell x psi 0 4"); e.cmd("let y 64 $x")
    e.cmd("argnum a1 i64:%d" % n); e.cmd("argnum a2 $y"); e.cmd("ptrs argv @a0 @a1 @a2 null")
    r = e.cmd("call main i32:3 @argv -> r").split()
    ev = e.cmds("events")
    c.alarms(e, KINDS, which)
    if not c.ob("accepts", r[0] == "int" and not exits(ev), w, "size %d and a valid psi: stops with %s" % (n, "; ".join(exits(ev))[:200])):
        return
    c.ob("status", r[1] == "0" and r[2] == "0", w, "size %d and a valid psi: exit status %s..%s" % (n, r[1], r[2]))
    files, nums = render(e)
    px = "%s%d" % (fam, n)
    for suf in "c", "h":
        if not c.ob("output-file", "%s_tables.%s" % (px, suf) in files, w, "%s_tables.%s is not written" % (px, suf)):
            return
    tab = tables_of(files[px + "_tables.c"], nums); par = params_of(files[px + "_tables.h"], nums)
    decl = dict(re.findall(r"extern\s+const\s+(\w+\s+\w+)\s*\[([^\]]*)\]", strip(files[px + "_tables.h"])))
    lo, hi = (0, Q - 1) if fam == "ntt" else (-6144, 6144)
    ty = "uint16_t" if fam == "ntt" else "int16_t"
    spec = gen_spec(fam, n)
    for t, want in spec.items():
        g = "%s_%s" % (px, t)
        if t in OPTIONAL and g not in tab:
            continue
        if not c.ob("table", g in tab, w, "table %s is not written" % g):
            continue
        u, bits, dim, vals = tab[g]
        c.ob("table-type", "%sint%d_t" % (u, bits) == ty and dim == str(n), w, "table %s is declared %sint%d_t[%s]" % (g, u, bits, dim))
        if not c.ob("table-size", len(vals) == n, w, "table %s has %d entries" % (g, len(vals))):
            continue
        bad = [i for i in range(n) if want[i] is not None and not same(vals[i], want[i], n) or vals[i][0] < lo or vals[i][1] > hi]
        c.ob("table-entry", not bad, w, "" if not bad else "%s[%d]: %s, defined as %d*psi^%d in [%d,%d] (%d entries)" % (g, bad[0], "value in [%d,%d], residue %s*psi^%s" % vals[bad[0]], want[bad[0]][0] % Q if want[bad[0]] else 0, want[bad[0]][1] % (2 * n) if want[bad[0]] else 0, lo, hi, len(bad)), n=n, bad=len(bad))
        d = decl.get("%s %s" % (ty, g))
        c.ob("declaration", d.strip() == str(n) if d else t in OPTIONAL, w, "%s is declared with %s entries in the header" % (g, d) if d else "%s is not declared in the header" % g)
    for p, want in gen_params(fam, n).items():
        g = "%s_%s" % (px, p)
        if not c.ob("parameter", g in par, w, "parameter %s is not written" % g):
            continue
        v = par[g]
        c.ob("parameter", same(v, want, n) and v[0] >= 1 - Q and v[1] <= Q - 1, w, "parameter %s: value in [%d,%d], residue %s*psi^%s, defined as %d*psi^%d" % ((g,) + v + (want[0] % Q, want[1] % (2 * n))))


def reject(c, front, which, contracts, nargs, what, setup, argc=None):
    """no run of the class reaches fopen; each ends in a failure status"""
    e, w = start(c, front, which, contracts)
    e.cmd("set openends 1"); setup(e)
    r = e.cmd("call main i32:%d @argv -> r" % (nargs if argc is None else argc)).split()
    ev = e.cmds("events")
    op = [x for x in ev if x.startswith("fopen(")]
    c.ob("no-output", not op, w, "%s: output file created all the same: %s" % (what, "; ".join(op)[:160]))
    codes = exits(ev); bad = [x for x in codes if re.fullmatch(r"_?exit\((0|\?)\)", x)]
    ok = not bad and (r[0] == "dead" and codes or r[0] == "int" and not (int(r[1]) <= 0 <= int(r[2])))
    c.ob("failure-status", bool(ok), w, "%s: ends with %s" % (what, "; ".join(codes) or "status " + " ".join(r[:3])))
    c.alarms(e, KINDS, which)
    return ok and not op


def rejects(c, front, which, contracts, nargs, top):
    def argv(*vals):
        def s(e):
            ps = ["@a0"]
            for k, v in enumerate(vals):
                if isinstance(v, tuple):
                    e.cmd("var v%d 64 %d %d" % (k, v[0], v[1])); e.cmd("argnum a%d $v%d" % (k + 1, k))
                else:
                    e.cmd("argnum a%d i64:%d" % (k + 1, v))
                ps.append("@a%d" % (k + 1))
            e.cmd("ptrs argv %s null" % " ".join(ps))
        return s
    full = [(2, 2**62)] * 6
    for argc in [1, 2, 3, 4, 5, 6]:
        if argc != nargs:
            # first an instance whose first arguments are valid, then arbitrary ones
            if not reject(c, front, which, {}, nargs, "%d argument(s), e.g. 4 %d" % (argc - 1, pow(11, (Q - 1) // 8, Q)), argv(*([4, pow(11, (Q - 1) // 8, Q)] + [7] * 6)[:argc - 1]), argc):
                continue
            reject(c, front, which, contracts, nargs, "%d argument(s)" % (argc - 1), argv(*full[:argc - 1]), argc)
    rest = ((L64, H64),) * (nargs - 2)
    # each class first at instances with an otherwise acceptable argument list, then as a whole
    low = [reject(c, front, which, {}, nargs, "size %d" % n, argv(n, *(7,) * (nargs - 2))) for n in (1, 0, -1, -4, L64)]
    if all(low):
        reject(c, front, which, contracts, nargs, "size below 2", argv((L64, 1), *rest))
    top0 = 100000 if nargs == 3 else 65535
    high = [reject(c, front, which, {}, nargs, "size %d" % n, argv(n, *(7,) * (nargs - 2))) for n in (top0, 2**17, 2**31, 2**32, 2**32 + 4, 2**62)]
    if all(high):
        reject(c, front, which, contracts, nargs, "size too large", argv((top0, H64), *rest))
    for n in range(3, top):
        if n & (n - 1):
            reject(c, front, which, contracts, nargs, "size %d, not a power of two" % n, argv(n, *rest))
    if nargs == 3:
        for n in sizes(2, 2048):
            reject(c, front, which, contracts, nargs, "size %d, psi below 2" % n, argv(n, (L64, 1)))
            reject(c, front, which, contracts, nargs, "size %d, psi above %d" % (n, Q - 1), argv(n, (Q, H64)))


def guard(c, front, which, contracts, n):
    """an arbitrary psi: files are created only on paths that established psi^n = -1"""
    e, w = start(c, front, which, contracts, 8 * n)
    e.cmd("mono psi 4 2 %d 1:1" % (Q - 1)); e.cmd("cell x psi 0 4"); e.cmd("let y 64 $x")
    e.cmd("argnum a1 i64:%d" % n); e.cmd("argnum a2 $y"); e.cmd("ptrs argv @a0 @a1 @a2 null")
    e.cmd("set trackout 0")
    e.cmd("call main i32:3 @argv -> r")
    ev = e.cmds("events"); op = [x for x in ev if x.startswith("fopen(")]
    if not op:
        raise Undecided("no run of main creates a file for size %d" % n)
    for x in op:
        ok = False
        for c0, ex, v in re.findall(r"(\d+)\^(\d+)=(-?\d+)", x):
            if int(ex) == n and (int(v) - int(c0) * (Q - 1)) % Q == 0:
                ok = True
        c.ob("root-checked", ok, w, "size %d: %s is created without psi^%d = -1 modulo %d having been established" % (n, x.split(",")[0] + ")", n, Q))
    bad = [x for x in exits(ev) if re.fullmatch(r"_?exit\((0|\?)\)", x)]
    c.ob("failure-status", exits(ev) and not bad, w, "size %d and an invalid psi: ends with %s" % (n, "; ".join(exits(ev)) or "success"))


def bitrev(c, front, n):
    e, w = start(c, front, "make_bitrev_table", {})
    e.cmd("argnum a1 i64:%d" % n); e.cmd("ptrs argv @a0 @a1 null")
    r = e.cmd("call main i32:2 @argv -> r").split(); ev = e.cmds("events")
    c.alarms(e, KINDS, "make_bitrev_table")
    if not c.ob("accepts", r[:3] == ["int", "0", "0"] and not exits(ev), w, "size %d: ends with %s" % (n, "; ".join(exits(ev)) or " ".join(r[:3]))):
        return
    files, nums = render(e)
    h, s = "bitrev%d_table.h" % n, "bitrev%d_table.c" % n
    if not c.ob("output-file", h in files and s in files, w, "size %d: %s and %s are not both written" % (n, h, s)):
        return
    lg = log2(n)
    want = set((i, rev(i, lg)) for i in range(n) if i < rev(i, lg))
    t = tables_of(files[s], nums).get("bitrev%d" % n)
    if not c.ob("table", t is not None, w, "size %d: table bitrev%d is not written" % (n, n)):
        return
    vals = [v[0] if v[0] == v[1] else None for v in t[3]]
    pr = [p if None in p else tuple(sorted(p)) for p in zip(vals[::2], vals[1::2])]
    c.ob("bitrev-pairs", len(vals) % 2 == 0 and len(pr) == len(set(pr)) and set(pr) == want, w, "size %d: wrong pairs %s, missing %s" % (n, [p for p in pr if p not in want][:3], sorted(want - set(pr))[:3]), n=max(1, len(want)))
    m = re.search(r"#define\s+BITREV%d_NPAIRS\s+(\d+)" % n, strip(files[h]))
    c.ob("pair-count", m is not None and int(m.group(1)) == len(want), w, "size %d: BITREV%d_NPAIRS is %s, there are %d pairs" % (n, n, m.group(1) if m else "missing", len(want)))


def p15(tier):
    ck = Check("P15", tier, "main of each generator analysed with psi a formal root X (X^n = -1): every number it writes, as residue c*X^e with its range, equals the definition; with an arbitrary psi every path that creates a file has established psi^n = -1; every class of invalid arguments ends in a failure status without creating a file. Functions that compute inverses are replaced by their contract after constant propagation over all 12288 residues confirmed it",
               ["arguments are decimal numbers", "fopen and malloc succeed", "entry 0 of the omega/mixed tables is unused and only its range is checked"])
    f = ck.front = Front()
    gens = (("make_tables", "ntt"), ("make_red_tables", "ntt_red"))
    for which, _ in gens:
        f.gen(which)
    f.gen("make_bitrev_table")
    con = {}

    def contract(c, which):
        d, wrong = inverters(f, which)
        con[which] = d
        for fn, x, v in wrong:
            c.ob("inverse", False, "%s in %s.c" % (fn, which), "%s(%d) is %s, the inverse of %d modulo %d is %d" % (fn, x, v, x, Q, inv(x)))
        c.ob("inverse", True, which, n=(Q - 1) * max(1, len(d)))
    pre = [("%s/inverse" % w, lambda c, w=w: contract(c, w), frozenset()) for w, _ in gens]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(ck._run, pre))
    for n in reversed(sizes(2, 2048)):
        for which, fam in gens:
            ck.job("%s/n=%d" % (which, n), lambda c, w=which, fam=fam, n=n: tables(c, f, w, fam, n, con.get(w, {})), KINDS)
            ck.job("%s/psi-check/n=%d" % (which, n), lambda c, w=which, n=n: guard(c, f, w, con.get(w, {}), n))
    for n in reversed(sizes(2, 4096 if tier == "quick" else 32768)):
        ck.job("make_bitrev_table/n=%d" % n, lambda c, n=n: bitrev(c, f, n), KINDS)
    top = 260 if tier == "quick" else 4200
    for which, _ in gens:
        ck.job("%s/invalid" % which, lambda c, w=which: rejects(c, f, w, con.get(w, {}), 3, top), KINDS)
    ck.job("make_bitrev_table/invalid", lambda c: rejects(c, f, "make_bitrev_table", {}, 2, top), KINDS)
    return ck.run(11 * 4 + 12 + 3)
