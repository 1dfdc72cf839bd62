"""Workloads of the other checks, replayed for a monitor of their own.

Every behavioural check generates operation histories.  Here the same generators run (with their own seeds) against
a wrapped driver: a pair of drivers whose answers are compared, or a driver whose operations are disturbed.  Verdicts
of the borrowed check itself are ignored; only the wrapper judges."""
import collections, concurrent.futures as cf, hashlib, importlib, json, os, sys, time, traceback
from . import core, drv, build
META = ("_a", "_ah", "_d", "_dh")
def clean(o): return {k: v for k, v in o.items() if k not in META} if isinstance(o, dict) else o

class Wrap:
    """what checks use of a driver"""
    more = 0
    def __init__(self, ctx, config, **kw): self.ctx = ctx; self.config = config; self.env = {}; self.kw = kw
    def send(self, *a): raise NotImplementedError
    def cmd(self, *a): return self.one(" ".join(str(x) for x in a))
    def many(self, lines): return [self.one(" ".join(str(x) for x in l)) for l in lines]
    def reset(self):
        for d in self.ds: d.history = []
        return self.one("reset")
    @property
    def history(self): return self.ds[0].history
    @property
    def total(self): return self.more + sum(d.total for d in self.ds)
    @total.setter
    def total(self, v): self.more = v - sum(d.total for d in self.ds)
    @property
    def exe(self): return self.ds[0].exe
    @property
    def timeout(self): return self.ds[0].timeout
    @property
    def p(self): return self.ds[0].p
    def restart(self):
        for d in self.ds: d.restart()
        self.started()
    def started(self): pass
    def leakcheck(self):
        t = None
        for d in self.ds: t = d.leakcheck() or t
        return t
    def close(self):
        for d in self.ds: d.close()
    def kill(self):
        for d in self.ds: d.kill()
    def errtext(self): return self.ds[-1].errtext()

class Skip(Exception): pass

class FakeCtx(core.Ctx):
    """context handed to a borrowed check: same interface, its own verdicts are dropped"""
    def __init__(self, pid, tier, seed, mod, make, scale, configs, deadline):
        super().__init__(pid, tier, seed, "exploration")
        self.mod, self.make, self.scale, self.configs = mod, make, scale, configs
        self.deadline = deadline; self.rule_ = ""
        self.env = {}; self.max_viol = 4; self.counts = collections.defaultdict(int); self.notes = {}
    def sub(self, name): return super().sub("%s/%s" % (self.mod, name))
    def n(self, q, t):
        v = q if self.quick else t
        return max(1, int(v * self.scale)) if isinstance(v, (int, float)) else v
    def seen(self, case, sample=None): pass
    def count(self, k, d=1): pass
    def has(self, config): return config in self.configs or config == "asan" and self.configs == ("nojson",)
    def driver(self, config="asan", **kw):
        if config not in self.configs:
            if config != "asan" or self.configs != ("nojson",): raise Skip()
            config = "nojson"
        d = self.make(self, config, **kw); self.drivers.append(d); return d
    def violation(self, key, text, history=None, driver=None): return False
    def leaks(self, driver, what=""):
        try: t = driver.leakcheck()
        except drv.DriverDied as e:
            if core.NOLSAN not in e.text: self.report(e.key, e.text, driver)
            driver.restart(); return
        if t:
            kind, fns = drv.classify(t); self.report("leak:%s" % "<".join(fns), t, driver); driver.restart()
    def guard(self, driver, fn, *a):
        if time.monotonic() > self.deadline: return False
        try: fn(driver, *a); return True
        except drv.DriverDied as e:
            if e.key.startswith("hang:"):
                for d in driver.ds:
                    h = list(d.history)
                    if self._hang_confirmed(d, h): core.Ctx.violation(self, e.key, e.text, h, d); break
                else: self.note("timeouts_not_reproduced")
                driver.restart(); return False
            self.report(e.key, e.text, driver); driver.restart(); return False
        except (core.Stop, Skip): raise
        except Exception as e:
            # a borrowed check may trip over an answer that the disturbance changed
            self.note("histories_cut_short"); self.extra.setdefault("cut", []).append("%s: %r" % (self.mod, e))
            if os.environ.get("WL_TRACE"): traceback.print_exc()
            driver.restart(); return False
    # the wrapper's own verdicts
    def report(self, key, text, driver, which=-1):
        core.Ctx.violation(self, key, text, list(driver.ds[which].history), driver.ds[which])
    def judged(self, case, sample=None): core.Ctx.seen(self, case, sample)
    def note(self, k, d=1): self.notes[k] = self.notes.get(k, 0) + d

def _run(a):
    pid, tier, seed, mod, make, scale, configs, limit = a
    sys.setrecursionlimit(10000)
    m = importlib.import_module("checks." + mod)
    mk = getattr(importlib.import_module(make[0]), make[1])
    f = FakeCtx(pid, tier, seed, mod, mk, scale, configs, time.monotonic() + limit)
    err = None
    try:
        try: m.run(f)
        except (core.Stop, Skip): pass
        for d in f.drivers:
            try: d.close()
            except drv.DriverDied as e:
                if core.NOLSAN not in e.text and not e.key.startswith("hang"): f.report(e.key, e.text, d)
            except core.Stop: pass
    except build.BuildError: raise
    except core.Stop: pass
    except Exception: err = traceback.format_exc()
    finally:
        for d in f.drivers:
            try: d.kill()
            except Exception: pass
    return dict(mod=mod, evals=f.evals, distinct=f.distinct, samples=f.samples, counts=f.notes, viol=f.viol, known=f.known_hit, ops=sum(d.total for d in f.drivers), err=err, cut=f.extra.get("cut", [])[:3])

def run(ctx, jobs, make, configs=("asan",), workers=8):
    """jobs: [(module, scale, seconds)]; runs in processes of their own and merges what the wrappers observed"""
    for c in {c for c in configs}: build.driver(c)
    errs = []
    with cf.ProcessPoolExecutor(max_workers=workers) as ex:
        fs = [ex.submit(_run, (ctx.pid, ctx.tier, ctx.seed, m, make, s, configs, lim)) for m, s, lim in jobs]
        for f in fs:
            r = f.result()
            ctx.evals += r["evals"]; ctx.distinct |= r["distinct"]; ctx.samples += r["samples"][:2]
            for k, v in r["counts"].items(): ctx.count(k, v)
            ctx.extra.setdefault("operations_by_workload", {})[r["mod"]] = r["ops"]
            for c in r["cut"]: ctx.extra.setdefault("histories_cut_short", []).append(c)
            ctx.known_hit.update(r["known"])
            if r["err"]: errs.append(r["err"])
            for v in r["viol"]:
                if all(w["key"] != v["key"] for w in ctx.viol) and len(ctx.viol) < 12: ctx.viol.append(v)
    for e in errs: ctx.extra.setdefault("workloads_cut_short", []).append(e[-300:])
    if len(errs) * 2 > len(jobs) and not ctx.viol: raise RuntimeError(errs[0])
