"""Client of the abstract interpreter (engine/absint)."""
import os, subprocess, tempfile
import numpy as np
from . import front


class Fatal(Exception):
    pass


class Engine:
    def __init__(self, module=None, asm=None, tmp=None):
        self.p = subprocess.Popen([front.engine_path()], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)
        self.tmp = tmp or tempfile.gettempdir()
        if module:
            self.cmd("module " + module)
        if asm:
            self.cmd("asm %s %s" % asm)

    def line(self):
        l = self.p.stdout.readline()
        if not l:
            raise Fatal("the analyser stopped")
        return l.rstrip("\n")

    def cmd(self, s):
        try:
            self.p.stdin.write(s + "\n"); self.p.stdin.flush()
        except BrokenPipeError:
            raise Fatal("the analyser stopped")
        l = self.line()
        if l.startswith(("FATAL", "ERR")):
            raise Fatal(l)
        return l

    def cmds(self, s):
        n = int(self.cmd(s).split()[0])
        return [self.line() for _ in range(n)]

    def alarms(self):
        return [tuple(l.split("\t")) for l in self.cmds("alarms")]

    def const(self, name, elt, vals):
        return self.cmd("const %s %d %s" % (name, elt, " ".join("-" if v is None else str(int(v)) for v in vals)))

    def dump(self, name, elt, count, spaces=()):
        """-> lo, hi, known, k, [matrices]"""
        fd, path = tempfile.mkstemp(dir=self.tmp); os.close(fd)
        try:
            self.cmd("dump %s %d %d %s %s" % (name, elt, count, path, " ".join("%s %d" % s for s in spaces)))
            raw = open(path, "rb").read()
        finally:
            os.unlink(path)
        h = np.frombuffer(raw, dtype=np.int64, count=4 * count).reshape(count, 4)
        tot = sum(s[1] for s in spaces)
        m = np.frombuffer(raw, dtype=np.uint32, offset=32 * count).reshape(count, tot) if tot else None
        mats, c = [], 0
        for s in spaces:
            mats.append(m[:, c:c + s[1]].astype(np.int64)); c += s[1]
        return h[:, 0], h[:, 1], h[:, 2], h[:, 3], mats

    def prodsyms(self, a, n, b, m):
        fd, path = tempfile.mkstemp(dir=self.tmp); os.close(fd)
        try:
            k, bad = map(int, self.cmd("prodsyms %s %s %d %s %d" % (path, a, n, b, m)).split())
            raw = np.fromfile(path, dtype=np.uint32)
        finally:
            os.unlink(path)
        raw = raw.reshape(k, n + m).astype(np.int64) if k else np.zeros((0, n + m), dtype=np.int64)
        return k, bad, raw[:, :n], raw[:, n:]

    def stats(self):
        l = self.cmd("stats"); d = {}
        for w in l.split():
            if "=" in w:
                a, b = w.split("=", 1); d[a] = int(b) if b.lstrip("-").isdigit() else b
        d["functions"] = l.split("fns=")[1].split()[1:]
        return d

    def close(self):
        try:
            self.p.stdin.close(); self.p.wait(5)
        except Exception:
            self.p.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
