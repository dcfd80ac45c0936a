"""Obligations, violations, evidence and exit status of a check."""
import json, os, re, sys, time, threading, traceback
from concurrent.futures import ThreadPoolExecutor
from . import front
from .eng import Engine, Fatal
from .front import Front, FrontError

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
MEMORY = {"oob", "write-const", "uninit", "data-address", "use-after-free", "double-free", "null"}
ARITH = {"overflow", "shift", "div-zero", "nonterm", "loss"}


class Undecided(Exception):
    """The analysis cannot answer (a vanished anchor, an unsupported construct): an error of the check, not a verdict."""


class Ctx:
    """one analysis unit (a function at a size, a table, ...)"""

    def __init__(self, check, name):
        self.check, self.name = check, name
        self.obl = self.dis = 0
        self.viol = []
        self.stats = {"steps": 0, "loads": 0, "stores": 0, "arith": 0, "atoms": 0}
        self.fns = set()
        self.engines = []

    def engine(self, module=None, asm=None):
        e = Engine(module, asm, self.check.front.dir)
        self.engines.append(e)
        return e

    def ob(self, rule, ok, where, text="", n=1, bad=1):
        self.obl += n
        if ok:
            self.dis += n
        else:
            self.dis += max(0, n - bad)
            self.viol.append({"unit": self.name, "rule": rule, "where": where, "detail": text})
        return bool(ok)

    def alarms(self, e, kinds, fn, floor=0):
        """every instruction analysed is an obligation; the alarms of the given kinds are the ones not discharged"""
        al = [a for a in e.alarms() if a[0] in kinds]
        seen = set()
        for a in al:
            key = (a[0], a[1])
            if key in seen:
                continue
            seen.add(key)
            self.viol.append({"unit": self.name, "rule": a[0], "where": "%s (analysed from %s)" % (a[1], fn), "detail": a[2] if len(a) > 2 else ""})
        return al

    def collect(self, e, kinds):
        try:
            s = e.stats()
        except Fatal:
            return
        for k in self.stats:
            self.stats[k] += int(s.get(k, 0))
        self.fns |= set(s.get("functions", []))
        n = 0
        if kinds & ARITH:
            n += int(s.get("arith", 0))
        if kinds & MEMORY:
            n += int(s.get("loads", 0)) + int(s.get("stores", 0))
        bad = len([a for a in e.alarms() if a[0] in kinds])
        self.obl += n
        self.dis += max(0, n - bad)


class Check:
    def __init__(self, pid, tier, rule, assumptions=(), level="proof", workers=8):
        self.pid, self.tier, self.rule, self.level = pid, tier, rule, level
        self.assumptions = list(assumptions)
        self.units, self.undecided = [], []
        self.front = None
        self.lock = threading.Lock()
        self.workers = workers
        self.t0 = time.time()
        self.jobs = []
        self.extra = {}

    def job(self, name, fn, kinds=frozenset()):
        self.jobs.append((name, fn, frozenset(kinds)))

    def _run(self, job):
        name, fn, kinds = job
        c = Ctx(self, name)
        try:
            fn(c)
        except Fatal as x:
            # the analysis stopped: either because of an alarm of this property, or without an answer
            hit = []
            for e in c.engines:
                try:
                    hit += c.alarms(e, kinds, name)
                except Fatal:
                    pass
            if not hit:
                with self.lock:
                    self.undecided.append((name, str(x)))
        except (Undecided, FrontError) as x:
            with self.lock:
                self.undecided.append((name, str(x)))
        except Exception:
            with self.lock:
                self.undecided.append((name, traceback.format_exc()))
        finally:
            for e in c.engines:
                try:
                    c.collect(e, kinds)
                except Exception:
                    pass
                e.close()
        # the same alarm may have been recorded twice
        uniq, seen = [], set()
        for v in c.viol:
            k = (v["rule"], v["where"], v["detail"][:60])
            if k not in seen:
                seen.add(k); uniq.append(v)
        c.viol = uniq
        with self.lock:
            self.units.append(c)

    def run(self, min_units=1):
        with ThreadPoolExecutor(self.workers) as ex:
            list(ex.map(self._run, self.jobs))
        return self.finish(min_units)

    def finish(self, min_units=1):
        os.makedirs(EVID, exist_ok=True)
        viol = [v for u in self.units for v in u.viol]
        known, new = split_known(self.pid, viol)
        obl = sum(u.obl for u in self.units); dis = sum(u.dis for u in self.units)
        stats = {}
        for u in self.units:
            for k, v in u.stats.items():
                stats[k] = stats.get(k, 0) + v
        fns = sorted(set().union(*[u.fns for u in self.units])) if self.units else []
        cov = {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "python3-vt check.py %s --tier %s" % (self.pid, self.tier),
            "trusted_base": ["engine/ (abstract interpreter over LLVM IR and x86-64/AVX2 instructions)", "clang-18 front end and mem2reg", "llvm-mc/llvm-objdump decoding of ntt_asm.S", "va/spec.py (the documented definitions)"],
            "rule": self.rule,
            "units_analysed": len(self.units),
            "functions_analysed": len(fns),
            "functions": fns[:200],
            "abstract_steps": stats.get("steps", 0), "memory_accesses": stats.get("loads", 0) + stats.get("stores", 0),
            "arithmetic_operations": stats.get("arith", 0),
            "source_files": sorted(set(self.front.files)) if self.front else [],
            "samples": [{"unit": u.name, "obligations": u.obl, "discharged": u.dis} for u in sorted(self.units, key=lambda u: u.name)[:: max(1, len(self.units) // 12)]][:14],
        }
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, v in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        print("%s: %d units, %d functions, %d obligations, %d discharged, %.1f s" % (self.pid, len(self.units), len(fns), obl, dis, time.time() - self.t0))
        if new:
            rd = os.path.join(EVID, "replay"); os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + ".json")
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "rule": self.rule, "violations": new[:200], "count": len(new)}, f, indent=1)
            for v in new[:12]:
                print("  %s: [%s] %s: %s" % (v["unit"], v["rule"], v["where"], v["detail"][:300]))
            if len(new) > 12:
                print("  ... %d more" % (len(new) - 12))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            for n, t in self.undecided[:4]:
                print("  (not decided: %s: %s)" % (n, t.strip()[:300]))
            return 1
        if self.undecided:
            print("ERROR: %d unit(s) could not be decided" % len(self.undecided))
            for n, t in self.undecided[:20]:
                print("  %s: %s" % (n, t.strip()[-600:]))
            return 2
        if len(self.units) < min_units or obl == 0:
            print("ERROR: only %d unit(s) found, %d obligations: the analysis has nothing to say" % (len(self.units), obl))
            return 2
        return 0


def split_known(pid, viol):
    path = os.path.join(ROOT, "known-findings.json")
    fs = []
    if os.path.exists(path):
        fs = [f for f in json.load(open(path)).get("findings", []) if f.get("property") == pid and f.get("status") == "known"]
    known, new, hit = [], [], set()
    for v in viol:
        for i, f in enumerate(fs):
            m = f["match"]
            if re.fullmatch(m.get("unit", ".*"), v["unit"]) and re.fullmatch(m.get("rule", ".*"), v["rule"]) and re.search(m.get("where", ""), v["where"]):
                if i not in hit:
                    hit.add(i); known.append((f["what"], v))
                break
        else:
            new.append(v)
    return known, new
