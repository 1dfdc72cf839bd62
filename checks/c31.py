"""C31: the functions documented as thread-safe, run by many threads at once.

 scripts  histories of every other check's workload, first run alone (plain driver), then eight at a time in threads
          of one ThreadSanitizer process; every answer must be the one of the history run alone
 shared   threads which only read the same events and filters
 first    fresh processes whose very first library calls come from several threads
 mix      initialization, cleanup, configuration and callbacks; the recorded event log is checked offline: whole values,
          one chain of updates, linearizable reads, exactly one notification per accepted update, one live context"""
import json, os, random, concurrent.futures as cf
from lib import build, core, drv, wl, gen
from lib.drv import hx, hl
TS = {"TSAN_OPTIONS": drv.SAN_ENV["TSAN_OPTIONS"].replace("halt_on_error=0", "halt_on_error=1"), "VF_DET": "1"}
MODS = "c01 c02 c03 c04 c05 c06 c07 c08 c09 c10 c11 c12 c13 c14 c15 c16 c17 c18 c19 c20 c21 c22 c23 c24 c25 c26 c27".split()
# not scriptable: relay client, process-wide state of the harness or of the library, real time
DENY = set("leakcheck cleanup feat.list rl.new rl.nulls rl.connect rl.disconnect rl.destroy rl.state rl.sub rl.unsub rl.send rl.cb rl.inj rl.post rl.script rl.log rl.wire rl.fail rl.par rng.big rng.threads n13.minet".split()) - {"feat.list"}
class Rec(wl.Wrap):
    """records histories with the answers they give alone"""
    def __init__(self, ctx, config, **kw):
        super().__init__(ctx, config); env = dict(kw.pop("env", None) or {}, VF_DET="1"); self.ds = [drv.Driver("plain", env=env, **kw)]
        self.hist = []; self.cur = []; self.dead = True; self.size = 0; self.started()
    def started(self): self.cur = []; self.dead = self.taint = False; self.ds[0].cmd("init")
    def one(self, line):
        op = drv.Driver._op(line)
        if op == "reset": self.flush()
        a = self.ds[0].cmd(line)
        if op in ("cfg.init", "cfg.update", "cfg.setenv"): self.taint = True      # outlives the history
        if op == "reset": return a
        if self.dead or self.taint: self.dead = True; return a
        if op in DENY or op.startswith(("cfg.", "vf.secret", "vf.fail")) or line[0] == "!" or len(line) > 40000: self.dead = True; return a
        self.cur.append((line, a))
        if len(self.cur) >= 120: self.flush(); self.dead = True
        return a
    def flush(self):
        if len(self.cur) >= 1 and self.size < 3000000:
            self.hist.append(self.cur); self.size += sum(len(l) for l, _ in self.cur)
        self.cur = []; self.dead = False
    def kill(self):
        self.flush(); d = os.environ.get("VF_PAR_DIR")
        if d and self.hist: json.dump(self.hist, open(os.path.join(d, "%s-%d-%d.json" % (self.ctx.mod, os.getpid(), id(self))), "w")); self.hist = []
        super().kill()
def harvest(ctx, tmp):
    os.environ["VF_PAR_DIR"] = tmp; q = ctx.quick
    sub = core.Ctx("C31", ctx.tier, ctx.seed, "exploration")
    try: wl.run(sub, [(m, .06 if q else .5, 6 if q else 60) for m in MODS], ("checks.c31", "Rec"), ("asan",))
    finally: os.environ.pop("VF_PAR_DIR", None)
    hs = {}
    for f in sorted(os.listdir(tmp)):
        for h in json.load(open(os.path.join(tmp, f))): hs.setdefault(f.split("-")[0], []).append(h)
    return hs
def scripts(d, ctx, r, hs, config):
    """one round: 4..8 histories side by side"""
    T = r.choice([2, 4, 6, 8, 8]); js = r.choice([0, 0, 20, 200]); sel = []
    mods = sorted(hs)
    same = r.random() < .25; m0 = r.choice(mods)
    for t in range(T):
        m = m0 if same else r.choice(mods); L = []
        while len(L) < (40 if ctx.quick else 80):
            if L: L.append(("reset", {}))
            L += r.choice(hs[m])
        sel.append(L)
    d.many([("par.t", t, l) for t in range(T) for l, _ in sel[t]])
    o = d.cmd("par.go", js, 0)["t"]
    judge(ctx, d, sel, o, "run alone")
def judge(ctx, d, sel, o, what):
    for t, L in enumerate(sel):
        got = o[str(t)]
        for (l, a), b in zip(L, got):
            if a != b: ctx.violation("different:" + drv.Driver._op(l), "%s\n %s:      %s\n with other threads: %s" % (l[:2000], what, str(a)[:1500], str(b)[:1500]), d.history, d); break
        ctx.seen(("par", [l for l, _ in L]), None)
        for l, _ in L: ctx.count("op:" + drv.Driver._op(l))
    ctx.count("rounds"); ctx.count("scripts", len(sel)); ctx.count("operations_in_threads", sum(len(L) for L in sel))
READ = ("ev.verify {e};ev.tojson {e};ev.get {e};ev.canon {e} 70000 1;ev.access {e};ev.tagq {e} x65 3;ev.binary {e};rp.exp {e} 1700000000;rp.full {e} 900 300;rp.cmp {e} {f};n10.root {e} 65 256;n10.reply {e} 65 256;n10.isreply {e};n18.parse {e} 65 65 256 0;n25.parse {e} 64 65 65 0;n13.verify {e} 4;"
        "zap.parse {e} 15;n26.get {e};n26.everify {e};fl.match {k} 0 {e};fl.match {k} 3 {e};fl.validate {k};fl.get {k};fl.clone 5 {k};ls.fromev 1 {e} -;rl.fromev 1 {e}").split(";")
def shared(d, ctx, r):
    from checks import c29
    evs = []
    for l in c29.fixed(r)["events"]:
        if l.startswith("ev.parse"): evs.append(l.split(" ", 2)[2])
    r.shuffle(evs); k = 12
    d.cmd("reset")
    for i in range(k): d.cmd("ev.parse", i, evs[i % len(evs)])
    pk = "%064x" % r.getrandbits(256)
    for i, f in enumerate([{"kinds": [0, 1, 3, 6, 7, 9735], "limit": 5}, {"ids": [pk[:64]], "authors": [pk, pk[::-1]]}, {"#e": [pk], "#p": [pk, pk[::-1]], "since": 1, "until": 1800000000}, {}]): d.cmd("fl.parse", i, hx(json.dumps(f)), 0)
    T = r.choice([2, 4, 8]); sel = []
    for t in range(T):
        L = []
        for _ in range(40): L.append(r.choice(READ).format(e=r.randrange(k), f=r.randrange(k), k=r.randrange(4)))
        sel.append(L)
    # alone: one thread after the other on the same objects
    alone = []
    for t in range(T):
        d.many([("par.t", t, l) for l in sel[t]]); alone.append(d.cmd("par.go", 0, 1)["t"][str(t)])
    d.many([("par.t", t, l) for t in range(T) for l in sel[t]])
    o = d.cmd("par.go", r.choice([0, 20]), 1)["t"]
    judge(ctx, d, [list(zip(sel[t], alone[t])) for t in range(T)], o, "one thread at a time"); ctx.count("shared_rounds"); ctx.count("events_shared", k)
FIRST = [("key.generate", 1), ("kp.generate", 1), ("init", 3), ("hd.seed", 1), ("mn.gen 12 400", 1), ("feat 44", 1), ("feat.list", 1), ("rp.kinds", 1), ("errstr 3", 1), ("b32.note %s 70" % hx(b"\x11" * 32), 2), ("b32.dnote " + hx("note1" + "q" * 58), 1), ("hex.decode %s 32" % hx("ab" * 32), 1), ("n13.diff " + hx(bytes(32)), 1)]
def first(ctx, r, hs, config):
    d = drv.Driver(config, env=TS, timeout=60); ctx.drivers.append(d)
    T = r.choice([2, 3, 4, 8]); sel = []; mods = sorted(hs)
    same = r.random() < .5; m0 = r.choice(mods); h0 = r.choice(hs[m0])
    for t in range(T):
        L = list(h0 if same else r.choice(hs[r.choice(mods)]))[:12]
        if r.random() < .3: L.insert(0, ("init", {"r": 0}))
        sel.append(L)
    def go(d):
        d.many([("par.t", t, l) for t in range(T) for l, _ in sel[t]])
        o = d.cmd("par.go", r.choice([0, 50, 500]), 0)
        judge(ctx, d, sel, o["t"], "run alone")
        ctx.check(o["made"] <= 1 and o["live"] <= 1 and not o["bad"], "initialized-twice", "the first calls of %d threads created %d contexts (%d live, monitor %d)" % (T, o["made"], o["live"], o["bad"]), d)
        ctx.count("first_use_processes"); ctx.count("first_use_contexts", o["made"])
    ok = ctx.guard(d, go)
    finish(ctx, d)
def finish(ctx, d):
    try: d.close()
    except drv.DriverDied as e: ctx.violation(e.key, e.text, d.history, d)
    d.kill()
    if d in ctx.drivers: ctx.drivers.remove(d)
GET, UPD, BAD, SETCB, INITC, INIT, CLEAN, CALLED, SIGN = range(9)
def analyse(threads, final, pre, alwayscb):
    """offline checker; pre: number of the configuration before the run (-1 = none); returns list of (key, text) and statistics"""
    bad = []; st = dict(updates=0, reads=0, calls=0, rejected=0, inits=0)
    ev = [dict(zip(("k", "r", "a", "b", "c", "t0", "t1"), x), t=t, i=i) for t, L in enumerate(threads) for i, x in enumerate(L)]
    upd = [e for e in ev if e["k"] == UPD]; ok = [e for e in upd if e["r"] == 0]; inits = [e for e in ev if e["k"] == INITC]; reads = [e for e in ev if e["k"] == GET]; calls = [e for e in ev if e["k"] == CALLED]
    st.update(updates=len(ok), reads=len(reads), calls=len(calls), rejected=sum(e["k"] == BAD for e in ev), inits=len(inits))
    for e in ev:
        if e["k"] in (GET,) and e["a"] == -2 or e["k"] == CALLED and -2 in (e["a"], e["b"]): bad.append(("torn-configuration", "a configuration mixing two applied ones was seen: %s" % e))
        if e["k"] == BAD and e["r"] == 0: bad.append(("invalid-accepted", str(e)))
        if e["k"] in (SETCB, INITC, INIT, SIGN) and e["r"] != 0: bad.append(("failed:%d" % e["k"], str(e)))
    if final == -2: bad.append(("torn-configuration", "final configuration is torn"))
    if bad: return bad, st
    # an update is refused only before the first initialization has completed
    fi = min([e["t1"] for e in inits], default=None)
    for e in upd:
        if e["r"] != 0 and (pre >= 0 or fi is not None and fi < e["t0"]): bad.append(("refused", "valid update refused: %s" % e))
    byval = {e["a"]: e for e in ok}; initv = {e["a"] for e in inits}
    # callbacks: at most one per update, in the updating thread, inside the call, with the new value
    seen = {}
    for e in calls:
        u = byval.get(e["b"])
        if not u or u["t"] != e["t"] or not (u["t0"] <= e["t0"] and e["t1"] <= u["t1"]): bad.append(("stray-notification", "notified of %d -> %d by no such update: %s" % (e["a"], e["b"], e))); continue
        if e["b"] in seen: bad.append(("notified-twice", "%s and %s" % (seen[e["b"]], e)))
        seen[e["b"]] = e
        if e["c"] != 5: bad.append(("wrong-user-data", "callback called with user data %d" % e["c"]))
    if alwayscb:
        for e in ok:
            if e["a"] not in seen: bad.append(("not-notified", "accepted update %d not notified" % e["a"]))
    if bad: return bad, st
    valid = set(byval) | (initv if pre < 0 else {pre})
    for e in reads:
        if e["a"] == -1:
            if pre >= 0 or fi is not None and fi < e["t0"]: bad.append(("vanished", "no configuration after initialization: %s" % e))
        elif e["a"] not in valid: bad.append(("unknown-configuration", "a configuration that was never applied was read: %s" % e))
    if alwayscb and not bad:
        nxt = {}
        for b, e in seen.items():
            if e["a"] in nxt: bad.append(("lost-update", "updates %d and %d both replaced configuration %d" % (nxt[e["a"]], b, e["a"])))
            nxt[e["a"]] = b
        roots = set(nxt) - set(seen)
        if not bad and len(ok) and len(roots) != 1: bad.append(("broken-chain", "updates do not form one history: roots %s" % sorted(roots)))
        if not bad:
            root = (roots or {pre if pre >= 0 else (final if final >= 0 else -1)}).pop()
            if pre >= 0 and root != pre or pre < 0 and inits and root not in initv: bad.append(("wrong-start", "history starts with %s" % root))
            pos = {root: 0}; x = root; order = []
            while x in nxt: x = nxt[x]; pos[x] = len(pos); order.append(byval[x])
            if len(pos) != len(ok) + 1: bad.append(("broken-chain", "%d updates, chain of %d" % (len(ok), len(pos) - 1)))
            elif final != -1 and pos.get(final) != len(pos) - 1: bad.append(("wrong-final", "last applied configuration is %s, current is %s" % (x, final)))
            else:
                # real time: suffix minimum of completion times against starts
                m = None
                for e in reversed(order):
                    if m is not None and m < e["t0"]: bad.append(("order", "an update that completed before another began comes after it in the history: %s" % e)); break
                    m = e["t1"] if m is None else min(m, e["t1"])
                import bisect
                done = sorted((e["t1"], pos[e["a"]]) for e in order); mx = []; c = 0
                for t1, p in done: c = max(c, p); mx.append(c)
                ts = [t for t, _ in done]
                for e in reads:
                    if e["a"] == -1: continue
                    p = pos.get(e["a"])
                    if p is None:
                        bad.append(("unknown-configuration", "configuration %d was read but never was the current one" % e["a"])); break
                    i = bisect.bisect_left(ts, e["t0"])
                    if i and mx[i - 1] > p: bad.append(("stale-read", "read of configuration %d (position %d) began after an update at position %d had completed" % (e["a"], p, mx[i - 1]))); break
                    if p and order[p - 1]["t0"] > e["t1"]: bad.append(("future-read", "configuration %d read before its update began" % e["a"])); break
                last = {}
                for e in sorted(reads, key=lambda e: e["t0"]):
                    if e["a"] == -1: continue
                    for f in (last.get("e"),):
                        if f and f["t1"] < e["t0"] and pos[f["a"]] > pos[e["a"]]: bad.append(("backwards", "reads go back from %d to %d" % (f["a"], e["a"])))
                    if "e" not in last or pos[last["e"]["a"]] <= pos[e["a"]]: last["e"] = e
                    if bad: break
    return bad, st
def mix(ctx, r, config):
    """one process: start uninitialized, several phases"""
    d = drv.Driver(config, env={k: v for k, v in TS.items() if k != "VF_DET"}, timeout=60); ctx.drivers.append(d)
    def go(d):
        pre = -1; cb = r.random() < .7
        if cb: d.cmd("par.cb", 1)
        for phase in range(r.choice([1, 2, 3])):
            T = r.choice([2, 3, 4, 8]); kind = r.random(); cleans = False
            if pre < 0: mixes = [r.choice(["iuug", "iggb", "inuuh", "ghni", "uiuib"]) for _ in range(T)]; mixes[0] = "iugh"
            elif kind < .5: mixes = [r.choice(["uuuggg", "ug", "ggh", "uub", "bug", "hhhu", "ngu", "fgu"]) for _ in range(T)]
            elif kind < .75: mixes = [r.choice(["nc", "ncg", "icu", "cnnn", "iuc", "fnc"]) for _ in range(T)]; cleans = True
            else: mixes = [r.choice(["kkn", "kug", "knf", "kiu", "kb"]) for _ in range(T)]
            if not cb: mixes = [m + r.choice(["s", ""]) for m in mixes]
            o = d.cmd("par.mix", 60 if ctx.quick else 200, r.choice([0, 20, 200]), r.randrange(1, 1 << 30), *mixes)
            bad, st = analyse(o["t"], o["final"], pre, cb)
            for k, t in bad[:2]: ctx.violation(k, "%s\n threads: %s" % (t, mixes), d.history, d)
            ctx.check(not o["bad"] and o["live"] <= 1, "contexts", "%d contexts live, monitor %d (1 two live, 2 destroyed twice); threads %s" % (o["live"], o["bad"], mixes), d)
            if not cleans: ctx.check(o["made"] <= 1, "initialized-twice", "%d contexts created without a cleanup; threads %s" % (o["made"], mixes), d)
            k = d.cmd("key.generate"); ctx.check(k["r"] == 0, "unusable-after", "key generation after the threads: %s" % k, d)
            for a, b in st.items(): ctx.count("log:" + a, b)
            ctx.seen(("mix", mixes, [[x[0] for x in L] for L in o["t"]]), "threads %s: %s" % (mixes, st) if ctx.evals % 97 == 0 else None); ctx.count("mix_phases")
            order = "".join(str(t) for _, t in sorted((x[5], t) for t, L in enumerate(o["t"]) for x in L)); ctx.interleavings.add(hash(order))
            # several values may be "the one before": numbers used again would be ambiguous
            d.cmd("cfg.update", *pcfg(60000 + phase)); pre = 60000 + phase
    ctx.guard(d, go); finish(ctx, d)
def pcfg(u): return [1 + u % 30011, 30100 + u % 35401, 1 + u % 9973, 60 + u, 1 + u % 997, 1024 + u % 1000003, 1 + u % 991, 1 + u % 983, 1000 + u % 290011, 1000 + u % 290021, 4 if u & 1 else 44, (u >> 1) & 1, (u >> 2) & 1]
def worker(ctx_args):
    tier, seed, n, hs, part, config = ctx_args
    ctx = core.Ctx("C31", tier, seed, "exploration"); ctx.interleavings = set(); r = ctx.sub("w%d" % n); err = None
    import time as tm
    end = tm.monotonic() + ((11 if part == "par" else 9) if ctx.quick else 300)
    try:
        if part == "par":
            d = drv.Driver(config, env=TS, timeout=120); ctx.drivers.append(d); k = 0
            while tm.monotonic() < end:
                k += 1
                if k % 9 == 0:
                    finish(ctx, d); d = drv.Driver(config, env=TS, timeout=120); ctx.drivers.append(d)
                d.history = []
                ctx.guard(d, shared, ctx, r) if r.random() < .25 else ctx.guard(d, scripts, ctx, r, hs, config)
            finish(ctx, d)
        else:
            while tm.monotonic() < end:
                first(ctx, r, hs, config) if r.random() < .4 else mix(ctx, r, config)
    except core.Stop: pass
    except build.BuildError: raise
    except Exception:
        import traceback; err = traceback.format_exc()
    for d in ctx.drivers: d.kill()
    return dict(evals=ctx.evals, distinct=ctx.distinct, samples=ctx.samples, counts=dict(ctx.counts), viol=ctx.viol, known=ctx.known_hit, inter=ctx.interleavings, err=err)
def run(ctx):
    import tempfile, shutil
    ctx.rule = "one thread script run concurrently with others (answers compared with the script run alone) or one phase of concurrent initialization/configuration calls with its event log; distinct by script text or sequence of recorded events"
    for c in ("par", "par-mbed", "par-asan", "plain"): build.driver(c)
    tmp = tempfile.mkdtemp(prefix="vf-par-")
    try: hs = harvest(ctx, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    ctx.extra["histories"] = {m: len(x) for m, x in hs.items()}
    jobs = [("par", "par"), ("par", "par"), ("par", "par-mbed"), ("par", "par-asan"), ("par", "par"), ("mix", "par"), ("mix", "par"), ("mix", "par-mbed"), ("mix", "par-asan")]
    rounds = 1; inter = set()
    with cf.ProcessPoolExecutor(max_workers=6) as ex:
        fs = [ex.submit(worker, (ctx.tier, ctx.seed, i, hs, p, c)) for i, (p, c) in enumerate(jobs * rounds)]
        for f in fs:
            x = f.result()
            if x["err"]: raise RuntimeError(x["err"])
            ctx.evals += x["evals"]; ctx.distinct |= x["distinct"]; ctx.samples += x["samples"][:3]; inter |= x["inter"]; ctx.known_hit.update(x["known"])
            for k, v in x["counts"].items(): ctx.count(k, v)
            for v in x["viol"]:
                if all(w["key"] != v["key"] for w in ctx.viol) and len(ctx.viol) < 12: ctx.viol.append(v)
    if ctx.has("shim"):
        r = ctx.sub("enc"); d = ctx.driver("shim-tsan")
        def enc(d, m):
            for _ in range(m):
                T = r.choice([2, 4, 8]); a = [T, ctx.n(12, 40), r.randrange(2**31), r.choice([0, 200]), r.choice([0, 1])]; o = d.cmd("enc.par", *a); ctx.seen(("enc", a), "encryption and wrapping in %d threads" % T if _ == 0 else None); ctx.count("encryptions_in_threads", o["done"])
                ctx.check(not o["bad"], "different:encryption", lambda: "%d threads: %s" % (T, [bytes.fromhex(x) for x in o["bad"]]), d)
        for _ in range(ctx.n(1, 12)):
            ctx.guard(d, enc, ctx.n(8, 20)); finish(ctx, d); d = ctx.driver("shim-tsan")
    ctx.extra["distinct_interleavings_of_logged_calls"] = len(inter)
