"""Front end: turns /repo's current working tree into the program representations the analyses read.

C sources      -> LLVM IR (clang -O0, then mem2reg and lower-switch; no other transformation)
ntt_asm.S      -> assembled and linked object, disassembled to decoded instructions + section contents
tables         -> generated by the project's own Makefile rules (they are generated *source* of the build)
Everything is written to a scratch directory that is removed afterwards.
"""
import atexit, fcntl, hashlib, os, re, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
ENGINE = os.path.join(os.path.dirname(HERE), "engine")
SIZES = [16, 256, 512, 1024]


class FrontError(Exception):
    pass


def sh(cmd, cwd=None, inp=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, input=inp)
    if p.returncode != 0:
        raise FrontError("command failed: %s\n%s" % (" ".join(cmd), p.stderr.decode(errors="replace")[-2000:]))
    return p.stdout.decode(errors="replace")


def tool(*names):
    for n in names:
        p = shutil.which(n) or (os.path.exists("/usr/lib/llvm-18/bin/" + n) and "/usr/lib/llvm-18/bin/" + n)
        if p:
            return p
    raise FrontError("tool not found: " + "/".join(names))


_eng = None
_englock = threading.Lock()


def engine_path():
    """the analyser, rebuilt when its sources differ from those it was built from (never when only time stamps do)"""
    global _eng
    with _englock:
        if _eng:
            return _eng
        h = hashlib.sha256()
        for f in sorted(os.listdir(ENGINE)):
            if f.endswith((".cpp", ".h")) or f == "Makefile":
                h.update(f.encode() + b"\0" + open(os.path.join(ENGINE, f), "rb").read())
        bd = os.path.join(ENGINE, "build"); os.makedirs(bd, exist_ok=True)
        out, stamp = os.path.join(bd, "absint"), os.path.join(bd, "stamp")
        with open(os.path.join(bd, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not (os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest()):
                sh(["make", "-B", "-C", ENGINE, "-j8"])
                with open(stamp, "w") as f:
                    f.write(h.hexdigest())
        _eng = out
        return out


class Front:
    def __init__(self, scratch=None):
        self.lock = threading.Lock()
        self.dir = scratch or tempfile.mkdtemp(prefix="nttva.")
        atexit.register(shutil.rmtree, self.dir, True)
        self.src = os.path.join(self.dir, "src")
        os.mkdir(self.src)
        rs = os.path.join(REPO, "src")
        for f in os.listdir(rs):
            if f.endswith((".c", ".h", ".S", ".s", ".inc")) or f == "Makefile":
                shutil.copy(os.path.join(rs, f), self.src)
        self.bc = {}
        self.warnings = []
        self.gen_done = False
        self.asm = None
        self.files = []

    # --- generated sources, by the project's own rules (as in its build: tracked copies are regenerated)
    def generate(self):
        if self.gen_done:
            return
        stale = []
        for n in SIZES:
            stale += ["ntt%d_tables" % n, "ntt_red%d_tables" % n, "bitrev%d_table" % n]
        for s in stale:
            for e in ".c", ".h":
                p = os.path.join(self.src, s + e)
                if os.path.exists(p):
                    os.rename(p, p + ".tracked")
        env = dict(os.environ)
        for k in ("MAKEFLAGS", "CFLAGS", "CPPFLAGS"):
            env.pop(k, None)
        tg = [s + e for s in stale for e in (".c", ".h")]
        p = subprocess.run(["make", "-j1", "CC=" + tool("gcc"), "make_tables", "make_red_tables", "make_bitrev_table"] + tg,
                           cwd=self.src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if p.returncode != 0:
            raise FrontError("table generation failed: " + p.stdout.decode(errors="replace")[-1500:])
        self.gen_done = True

    def compile(self, name, defs=(), tag="", asserts=False):
        key = name + tag
        if key in self.bc:
            return self.bc[key]
        src = os.path.join(self.src, name)
        if not os.path.exists(src):
            raise FrontError("source file %s is missing" % name)
        out = os.path.join(self.dir, key.replace("/", "_") + ".bc")
        raw = out + ".raw"
        sh([tool("clang-18", "clang"), "-O0", "-g", "-std=gnu99", "-D_DEFAULT_SOURCE"] + ([] if asserts else ["-DNDEBUG"]) + list(defs) +
           ["-w", "-Xclang", "-disable-O0-optnone", "-fno-builtin-printf", "-emit-llvm", "-c", "-o", raw, src], cwd=self.src)
        sh([tool("opt-18", "opt"), "-passes=mem2reg,lowerswitch", "-o", out, raw])
        os.unlink(raw)
        self.bc[key] = out
        return out

    def module(self, name, parts):
        """parts: list of file names or (file, defs, tag)"""
        out = os.path.join(self.dir, name + ".mod.bc")
        if os.path.exists(out):
            return out
        ps = [p if isinstance(p, tuple) else (p, (), "") for p in parts]
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(lambda p: self.compile(*p), ps))
        link = [tool("llvm-link-18", "llvm-link"), "-o", out]
        sh(link + bcs)
        self.files += [p[0] for p in ps]
        # functions that live in another library source: pull it in
        have, tried = set(p[0] for p in ps), set()
        for _ in range(4):
            und = subprocess.run([tool("llvm-nm-18", "llvm-nm"), "--undefined-only", "--just-symbol-name", out], stdout=subprocess.PIPE).stdout.decode().split()
            more = None
            for u in und:
                for f in self.definers(u):
                    if f not in have and f not in tried:
                        more = f; break
                if more:
                    break
            if not more:
                break
            tried.add(more)
            try:
                b = self.compile(more)
                sh([tool("llvm-link-18", "llvm-link"), "-o", out + ".more"] + bcs + [b])
            except FrontError:
                continue
            os.replace(out + ".more", out); bcs.append(b); have.add(more); self.files.append(more)
        return out

    def definers(self, fn):
        if not hasattr(self, "_defs"):
            self._defs = {}
            for f in sorted(os.listdir(self.src)):
                if f.endswith(".c") and not f.startswith(("test_", "speed_", "va_client")):
                    t = open(os.path.join(self.src, f), errors="replace").read()
                    if re.search(r"\bmain\s*\(", t):
                        continue
                    for m in re.finditer(r"^[A-Za-z_][\w \t\*]*?\b(\w+)\s*\([^;{}]*\)\s*\{", t, re.M):
                        self._defs.setdefault(m.group(1), []).append(f)
        return self._defs.get(fn, [])

    def plain(self):
        self.generate()
        return self.module("plain", ["ntt.c"] + ["ntt%d.c" % n for n in SIZES] + ["ntt%d_tables.c" % n for n in SIZES] + ["bitrev%d_table.c" % n for n in SIZES])

    def naive(self):
        self.generate()
        return self.module("naive", ["naive_ntt.c"] + ["naive_ntt%d.c" % n for n in SIZES] + ["ntt%d_tables.c" % n for n in SIZES] + ["bitrev%d_table.c" % n for n in SIZES])

    def red(self):
        self.generate()
        return self.module("red", ["ntt_red.c"] + ["ntt_red%d.c" % n for n in SIZES] + ["ntt_red%d_tables.c" % n for n in SIZES])

    def redasm(self):
        """C wrappers of the assembly routines, the C lazy-reduction routines and the red tables"""
        self.generate()
        return self.module("redasm", ["ntt_red.c"] + ["ntt_red_asm%d.c" % n for n in SIZES] + ["ntt_red%d_tables.c" % n for n in SIZES])

    def itv(self):
        return self.module("itv", ["intervals.c", "red_bounds.c", "ntt_red_interval.c", ("ntt_red.c", ("-Dcorrect=concrete_correct",), ".ren")])

    def itv_inlined(self):
        """the same module after inlining and promotion of locals: a second form of the loops, for the same claims"""
        src = self.itv(); out = os.path.join(self.dir, "itv.inl.bc")
        with self.lock:
            if not os.path.exists(out):
                sh([tool("opt-18", "opt"), "-passes=forceattrs,inline,sroa,simplifycfg,lowerswitch", "-force-remove-attribute=noinline", "-inline-threshold=5000", "-o", out + ".tmp", src]); os.rename(out + ".tmp", out)
        return out

    WRAP = {
        "plain": ("ntt%d.h", ["ntt{n}_{v}", "intt{n}_{v}"], ["mulntt{n}_ct_{o}", "inttmul{n}_gs_{o}"], "ntt%d"),
        "naive": ("naive_ntt%d.h", ["naive_ntt{n}_{v}", "naive_intt{n}_{v}"], ["naive_mulntt{n}_ct_{o}", "naive_inttmul{n}_gs_{o}"], "ntt%d"),
        "red": ("ntt_red%d.h", ["ntt_red{n}_{v}", "intt_red{n}_{v}"], ["mulntt_red{n}_ct_{o}", "inttmul_red{n}_gs_{o}"], "ntt_red%d"),
        "redasm": ("ntt_red_asm%d.h", ["ntt_red{n}_{v}_asm", "intt_red{n}_{v}_asm"], ["mulntt_red{n}_ct_{o}_asm", "inttmul_red{n}_gs_{o}_asm"], "ntt_red%d"),
    }

    def wrappers(self, fam, n):
        """-> {wrapper name: (inverse?, weighted?, input order, output order)}"""
        h, basic, mixed, _ = self.WRAP[fam]
        d = {}
        for i, b in enumerate(basic):
            for v in "ct_rev2std", "gs_rev2std", "ct_std2rev", "gs_std2rev":
                d[b.format(n=n, v=v)] = (i == 1, False) + tuple(v[3:].split("2"))
        for i, b in enumerate(mixed):
            for o in "rev2std", "std2rev":
                d[b.format(n=n, o=o)] = (i == 1, True) + tuple(o.split("2"))
        return d

    def wrapped(self, fam):
        """the family's module plus a client that calls every size-specific entry point and reads every published parameter"""
        self.generate()
        parts = {"plain": ["ntt.c"] + ["ntt%d_tables.c" % n for n in SIZES], "naive": ["naive_ntt.c"] + ["ntt%d_tables.c" % n for n in SIZES],
                 "red": ["ntt_red.c"] + ["ntt_red%d_tables.c" % n for n in SIZES], "redasm": ["ntt_red%d_tables.c" % n for n in SIZES]}[fam]
        clients = []
        for n in SIZES:
            h, _, _, t = self.WRAP[fam]
            src = '#include "%s"\n' % (h % n)
            for w in self.wrappers(fam, n):
                src += "void va_%s(int32_t *a) { %s(a); }\n" % (w, w)
            src += "int32_t va_par_%s_psi(void) { return %s_psi; }\n" % (t % n, t % n)
            name = "va_client_%s_%d.c" % (fam, n)
            with open(os.path.join(self.src, name), "w") as f:
                f.write(src)
            clients.append(name)
        return self.module("wrap_" + fam, parts + clients)

    PARAMS = {"ntt": ["psi", "omega", "inv_psi", "inv_omega", "inv_n"], "ntt_red": ["psi", "omega", "inv_psi", "inv_omega", "inv_n", "inv_k", "rescale8", "rescale6"]}

    def tables(self):
        """module with every precomputed table: generated ones, and tracked copies under the prefix trk_; returns (module, [(family, n, prefix)], [bitrev (n, symbol)])"""
        self.generate()
        units, bits, parts = [], [], []
        src = ""
        for fam in "ntt", "ntt_red":
            for n in SIZES:
                parts.append("%s%d_tables.c" % (fam, n)); units.append((fam, n, "%s%d" % (fam, n), "generated"))
        # tracked tables that are not regenerated
        known = set("%s%d_tables.c" % (f, n) for f in ("ntt", "ntt_red") for n in SIZES)
        for f in sorted(os.listdir(self.src)):
            m = re.fullmatch(r"(ntt|ntt_red)(\d+)_tables\.c", f)
            if m and f not in known:
                parts.append(f); units.append((m.group(1), int(m.group(2)), m.group(1) + m.group(2), "tracked"))
        for n in SIZES:
            parts.append("bitrev%d_table.c" % n); bits.append((n, "bitrev%d" % n, "generated"))
        for f in sorted(os.listdir(self.src)):
            m = re.fullmatch(r"bitrev(\d+)_table\.c\.tracked", f)
            if m:
                n = int(m.group(1)); d = os.path.join(self.src, "trk%d" % n); os.makedirs(d, exist_ok=True)
                for e in ".c", ".h":
                    t = os.path.join(self.src, "bitrev%d_table%s.tracked" % (n, e))
                    if os.path.exists(t):
                        shutil.copy(t, os.path.join(d, "bitrev%d_table%s" % (n, e)))
                parts.append(("trk%d/bitrev%d_table.c" % (n, n), ("-Dbitrev%d=trk_bitrev%d" % (n, n),), "")); bits.append((n, "trk_bitrev%d" % n, "tracked"))
        for fam, n, px, _ in units:
            src = '#include "%s_tables.h"\n' % px
            for p in self.PARAMS[fam]:
                src += "int32_t va_par_%s_%s(void) { return %s_%s; }\n" % (px, p, px, p)
            with open(os.path.join(self.src, "va_par_%s.c" % px), "w") as f:
                f.write(src)
            parts.append("va_par_%s.c" % px)
        return self.module("tables", parts), units, bits

    def shuffles(self, which):
        """one copy of the shuffle routines with all bit-reversal tables"""
        self.generate()
        mod, units, bits = self.tables()
        out = os.path.join(self.dir, "shuf_%s.mod.bc" % which)
        if not os.path.exists(out):
            sh([tool("llvm-link-18", "llvm-link"), "-o", out, mod, self.compile(which)])
        self.files.append(which)
        return out, bits

    def gen(self, which):
        out = os.path.join(self.dir, which + ".mod.bc")
        if not os.path.exists(out):
            shutil.copy(self.compile(which + ".c", (), ".gen"), out)
            self.files.append(which + ".c")
        return out

    def assembly(self):
        if self.asm:
            return self.asm
        o = os.path.join(self.dir, "ntt_asm.o"); so = os.path.join(self.dir, "ntt_asm.so")
        sh([tool("clang-18", "clang"), "-DNDEBUG", "-D_DEFAULT_SOURCE", "-g", "-c", "-o", o, os.path.join(self.src, "ntt_asm.S")], cwd=self.src)
        sh([tool("ld.lld-18", "ld.lld", "ld"), "-shared", "-o", so, o])
        objdump = tool("llvm-objdump-18", "llvm-objdump")
        dis = os.path.join(self.dir, "asm.dis")
        with open(dis, "w") as f:
            f.write(sh([objdump, "-d", "-l", "--x86-asm-syntax=intel", "--no-show-raw-insn", so]))
        data = os.path.join(self.dir, "asm.data")
        hdr = sh([objdump, "-h", so])
        with open(data, "w") as f:
            for l in hdr.splitlines():
                w = l.split()
                if len(w) >= 4 and w[0].isdigit() and w[1].startswith((".data", ".rodata", ".bss", ".text")):
                    name, size, addr = w[1], int(w[2], 16), int(w[3], 16)
                    if size == 0 or name.startswith(".text"):
                        continue
                    if name.startswith(".bss"):
                        f.write("%s %d %d %s\n" % (name, addr, size, "00" * size)); continue
                    dump = sh([objdump, "-s", "-j", name, so]); hx = ""
                    for d in dump.splitlines():
                        t = d.split()
                        if d.startswith(" ") and t and all(c in "0123456789abcdef" for c in t[0]):
                            # " addr  w0 w1 w2 w3  ascii": words are in fixed columns
                            body = d[d.index(t[0]) + len(t[0]) + 1:]
                            hx += body[:36].replace(" ", "") if len(body) >= 36 else body.replace(" ", "")
                    f.write("%s %d %d %s\n" % (name, addr, size, hx[:2 * size]))
        self.files.append("ntt_asm.S")
        self.asm = (dis, data)
        return self.asm
