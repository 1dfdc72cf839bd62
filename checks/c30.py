"""C30: failing allocations are reported without leaks, corruption or lasting effects."""
import random
from lib import drv, wl
# operations of the harness made of several library calls that together are not repeatable
COMPOSITE = set("ev.build ev.addtags ev.manytags ls.many cleanup ns.create nip.sweep".split())      # failed ns.create calls count towards the sessions allowed per second
# return codes of operations that make more than one call
MULTI = {"ns.conn": ("req",), "rl.views": ("rr", "rw"), "ev.sig_check": ("f",)}
SHIM = ("c17", "c36", "c37", "c38")
class Fault(wl.Wrap):
    """one history on two drivers: undisturbed, and with allocations failing; the disturbed call is repeated until it succeeds"""
    def __init__(self, ctx, config, **kw):
        super().__init__(ctx, config); env = dict(kw.pop("env", None) or {}, VF_DET="1")
        self.ds = [drv.Driver(config, env=env, **kw) for _ in range(2)]; self.rnd = ctx.sub("ks"); self.seenk = {}; self.swept = {}
        self.cap = 4 if ctx.quick else 40; self.started()
    def started(self):
        self.taint = self.rng = False
        for d in self.ds: d.cmd("init")
    def back(self, d):
        if self.rng: d.cmd("vf.rngback")
    def one(self, line):
        op = drv.Driver._op(line); a, b = self.ds; ctx = self.ctx
        if op == "reset": self.taint = False
        if op == "vf.rng": self.rng = line.split()[1] != "0"
        if op == "n13.minet" or line.startswith("!"): self.taint = True
        if self.taint: b.cmd(line); return a.cmd(line)
        ra = a.cmd("!f999999999 " + line); K = ra["_a"]; ra = wl.clean(ra)
        rb = None
        if K and not composite(op, line):
            done = self.seenk.setdefault(op, {})
            ks = list(range(1, K + 1))
            args = line.split(); shape = (op, len(args), tuple(a == "-" for a in args)); sw = self.swept.get(op, set())
            if ra.get("r", 1) == 0 and shape not in sw and len(sw) < (4 if self.ctx.quick else 30):      # every allocation of the call, once per shape of its arguments
                self.swept.setdefault(op, set()).add(shape); ctx.note("all_allocations_failed_in_turn"); ks = ks[:400]
            elif K > self.cap: ks = sorted(self.rnd.sample(ks, self.cap - 1) + [K])
            if len(ks) <= self.cap and done.get(K, 0) >= 6 * self.cap: ks = self.rnd.sample(ks, 1) if self.rnd.random() < .3 else []
            done[K] = done.get(K, 0) + len(ks)
            for k in ks:
                x = b.cmd("!f%d %s" % (k, line)); hit = x.get("_ah"); x = wl.clean(x)
                if not hit: rb = x; break
                ctx.judged((op, k, K, line), "allocation %d of %d failed in %s: %s" % (k, K, line[:120], str(x)[:120]) if ctx.evals % 499 == 0 else None); ctx.note("op:" + op)
                if x == ra:
                    ctx.note("same_result_anyway"); rb = x
                    if x.get("r", 1) == 0: break
                    rb = None; self.back(b); continue
                if not failed(op, x, ra): ctx.report("wrong-result:" + op, "allocation %d of %d failed in %s\n without failure: %s\n with failure:    %s" % (k, K, line[:1500], str(ra)[:1500], str(x)[:1500]), self)
                ctx.note("reported"); self.back(b)
        if rb is None: rb = wl.clean(b.cmd(line))
        if rb != ra: ctx.report("later-result:" + op, "%s\n undisturbed: %s\n after failed allocations: %s" % (line[:1500], str(ra)[:1500], str(rb)[:1500]), self)
        return ra
def failed(op, x, ra):
    """the disturbed call says so"""
    if op == "rm.ser" and ra.get("nolen") == 1 and x.get("nolen") == 0: return True      # second call of the operation, without the length pointer
    if op == "ev.binary":      # two getters without an error code: the one that failed gives nothing, the other what it gave before
        return all(x[h] == ra[h] and x[h + "c"] == ra[h + "c"] and x[h + "null"] == ra[h + "null"] or not x[h] and x[h + "null"] == 1 for h in "ep")
    return any(isinstance(v, int) and v != 0 for k, v in x.items() if k == "r" or k in MULTI.get(op, ()))
def composite(op, line):
    return op in COMPOSITE or op == "ri.addnip" and line.count(" ") > 1
class Shake(wl.Wrap):
    """one driver; random allocations fail and the history goes on; judged by the sanitizers only"""
    def __init__(self, ctx, config, **kw):
        super().__init__(ctx, config, **kw); self.rnd = ctx.sub("shake"); self.ds = [drv.Driver(config, **kw)]
    def one(self, line):
        op = drv.Driver._op(line)
        if line.startswith("!"): return self.ds[0].cmd(line)
        ks = self.__dict__.setdefault("Ks", {}).setdefault(op, [])
        p = .4 if len(ks) < 60 else .25
        if op.startswith("rl.") or self.rnd.random() < p:
            if ks and self.rnd.random() < .5: K = self.rnd.choice(ks); k = max(1, self.rnd.choice([K, K - 1, K - 2, self.rnd.randint(1, K), self.rnd.randint(1, K)])) if K else 1
            else: k = self.rnd.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 14, 20, 40, 80])
            if op.startswith("rl.") and self.rnd.random() < .5: k = 999999999
        else: k = 999999999
        x = self.ds[0].cmd("!f%d %s" % (k, line))
        if not x.get("_ah"):
            if x.get("_a"): ks.append(x["_a"]); del ks[:-60]
            return wl.clean(x)
        self.ctx.judged(("shake", k, line), None); self.ctx.note("shaken:" + op)
        if x.get("r") not in (0, None): return wl.clean(self.ds[0].cmd(line))     # once more, with memory
        return wl.clean(x)
MODS = "c01 c02 c03 c04 c05 c06 c07 c08 c10 c11 c12 c13 c14 c15 c16 c17 c18 c19 c20 c21 c22 c23 c24 c25 c26 c27".split()
LEAN = "c01 c02 c10 c15 c16 c17 c18 c19".split()
def run(ctx):
    ctx.rule = "an operation repeated with its k-th allocation failing, answer and all later answers of the history compared with an undisturbed twin; distinct by (operation text, k)"
    wl.run(ctx, [(m, .3 if ctx.quick else 1, 20 if ctx.quick else 500) for m in MODS], ("checks.c30", "Fault"), ("asan",))
    wl.run(ctx, [(m, .5 if ctx.quick else 2, 20 if ctx.quick else 400) for m in ("c28", "c32", "c33", "c03", "c17", "c22", "c27")], ("checks.c30", "Shake"), ("asan",))
    wl.run(ctx, [(m, .3 if ctx.quick else 1, 20 if ctx.quick else 400) for m in SHIM], ("checks.c30", "Fault"), ("shim",))
    wl.run(ctx, [(m, .3 if ctx.quick else 2, 20 if ctx.quick else 400) for m in SHIM], ("checks.c30", "Shake"), ("shim",))
    wl.run(ctx, [(m, .2 if ctx.quick else 1, 12 if ctx.quick else 300) for m in (LEAN if ctx.quick else MODS)], ("checks.c30", "Fault"), ("nojson",))
