"""Check context: seeds, evidence, known findings, verdicts."""
import hashlib, json, os, random, sys, time, traceback
from . import build, drv
VERIF = build.VERIF

# the leak checker itself could not run (it needs ptrace); nothing was observed
NOLSAN = "LeakSanitizer has encountered a fatal error"
class Stop(Exception): pass
MISREAD = (TypeError, KeyError, IndexError, ValueError, AttributeError, AssertionError, OverflowError, ZeroDivisionError)

class Ctx:
    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.t0 = time.monotonic()
        self.evals = 0; self.distinct = set(); self.samples = []; self.extra = {}; self.counts = {}
        self.viol = []; self.known_hit = {}; self.rule = ""; self.assumptions = []
        self.known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k["property"] == pid]
        self.max_viol = 5; self.drivers = []
    @property
    def quick(self): return self.tier == "quick"
    def n(self, quick, thorough): return quick if self.quick else thorough
    def sub(self, name): return random.Random("%s/%s/%s" % (self.pid, self.seed, name))
    # -- coverage
    def seen(self, case, sample=None):
        """one judged case; `case` (any repr-able) identifies it for distinctness; None = trivial"""
        self.evals += 1
        if case is not None:
            self.distinct.add(hashlib.blake2b(repr(case).encode(), digest_size=8).digest())
        if sample is not None and len(self.samples) < 12: self.samples.append(str(sample)[:400])
    def count(self, k, d=1): self.counts[k] = self.counts.get(k, 0) + d
    # -- drivers
    def driver(self, config="asan", **kw):
        d = drv.Driver(config, **kw); self.drivers.append(d); return d
    # -- verdicts
    def has(self, config): return True
    def violation(self, key, text, history=None, driver=None):
        """report a property violation; returns True if it was a listed known finding"""
        full = key
        for k in self.known:
            if k["key"] == full:
                self.known_hit.setdefault(full, (k, text)); return True
        for v in self.viol:
            if v["key"] == full: return False
        if history is None and driver is not None: history = list(driver.history)
        self.viol.append(dict(key=full, text=text[:6000], history=history or [],
                              config=driver.config if driver is not None else "asan", env=driver.env if driver is not None else {}))
        if len(self.viol) >= self.max_viol: raise Stop()
        return False
    def check(self, cond, key, text, driver=None, history=None):
        if not cond:
            self.violation(key, text if isinstance(text, str) else text(), history, driver)
        return cond
    def guard(self, driver, fn, *a):
        """run one history; a crash of the real code is a violation, then continue with a fresh driver"""
        try:
            fn(driver, *a); return True
        except drv.DriverDied as e:
            hist = list(driver.history)
            if e.key.startswith("hang:") and not self._hang_confirmed(driver, hist):
                self.count("timeouts_not_reproduced"); driver.restart(); return False
            self.violation(e.key, e.text[-5000:], hist, driver); driver.restart(); return False
        except MISREAD as e:
            if not self.misread(e, driver): raise
            driver.restart(); return False
    def misread(self, e, driver=None):
        """the check tripped over an answer: it is not one the property allows, or the oracle could have read it"""
        f = [x for x in traceback.extract_tb(e.__traceback__)]
        if not f or os.path.basename(os.path.dirname(f[-1].filename)) not in ("checks", "oracle") or not any(d.total for d in self.drivers): return False
        at = [x for x in f if os.path.basename(os.path.dirname(x.filename)) == "checks"][-1]
        driver = driver or (self.drivers[-1] if self.drivers else None)
        hist = list(driver.history) if driver is not None else []
        self.violation("answer-not-understood:%s@%s" % (type(e).__name__, at.name), "an answer that no correct library gives: %r at %s:%d: %s\nlast operations:\n%s" % (e, os.path.basename(at.filename), at.lineno, at.line, "\n".join(map(str, hist[-4:]))[:3000]), hist, driver)
        return True
    def _hang_confirmed(self, driver, hist):
        d = drv.Driver(driver.config, exe=driver.exe, env=driver.env, timeout=240)
        try:
            for l in hist: d.cmd(l)
            return False
        except drv.DriverDied as e:
            return e.key.startswith("hang:")
        finally: d.kill()
    def leaks(self, driver, what=""):
        try: t = driver.leakcheck()
        except drv.DriverDied as e:
            if NOLSAN in e.text: self.count("leak_checks_not_possible"); driver.restart(); return
            self.violation(e.key, e.text[-3000:], None, driver); driver.restart(); return
        if t:
            kind, fns = drv.classify(t)
            self.violation("leak:%s@%s" % ("<".join(fns), what), t[-5000:], None, driver); driver.restart()
    def close_drivers(self):
        for d in self.drivers:
            if d.p is None: continue
            try: d.close()
            except drv.DriverDied as e:
                if NOLSAN in e.text: self.count("leak_checks_not_possible"); continue
                self.violation(e.key, e.text[-5000:], None, d)
            except Stop: pass
    # -- finish
    def finish(self):
        for d in self.drivers:
            try: d.kill()
            except Exception: pass
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rc = 0
        for full, (k, text) in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        rd = os.path.join(VERIF, "build", "replay"); 
        for i, v in enumerate(self.viol):
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s-%d.replay" % (self.pid, self.tier, i))
            with open(path, "w") as f:
                f.write("# property %s  seed %s\n# key: %s\n# config: %s\n# env: %s\n" % (self.pid, self.seed, v["key"], v["config"], json.dumps(v["env"])))
                for l in v["text"].splitlines(): f.write("#| " + l + "\n")
                for l in v["history"]: f.write(l + "\n")
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  " + v["key"]); print("  " + v["text"][:700].replace("\n", "\n  "))
            rc = 1
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule, samples=self.samples[:8])
        cov["driver_operations"] = sum(d.total for d in self.drivers)
        if self.counts: cov["observed"] = dict(sorted(self.counts.items()))
        cov.update(self.extra)
        if self.known_hit: cov["known_findings_seen"] = sorted(self.known_hit)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.monotonic() - self.t0, 2), violations=len(self.viol))
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        print("%s %s: %d evaluations, %d distinct, %d violations, %.1fs" % (self.pid, self.tier, self.evals, len(self.distinct), len(self.viol), time.monotonic() - self.t0))
        if rc == 0 and (self.evals == 0 or len(self.distinct) == 0):
            print("ERROR: the monitors observed nothing", file=sys.stderr); return 2
        return rc
