"""C33: life cycle of relay connections."""
import json
from lib import gen
from lib.drv import hx, hl, ub
from checks.c32 import EST, RECV, CLOSED, CONNERR, NOP, PART, REST, ub_
from checks.c03 import jtext, obj, strict
D, C, O, E = 0, 1, 2, 3     # disconnected, connecting, connected, error
def target(u):
    """(host, port, tls, path) or None: what a relay URL names"""
    for p, port, tls in (("wss://", 443, 1), ("ws://", 80, 0)):
        if u.startswith(p):
            a, sl, path = u[len(p):].partition("/"); h, c, q = a.partition(":"); full = a
            if a.startswith("[") and "]" in a: h, q = a[:a.index("]") + 1], a[a.index("]") + 1:]; c, q = q[:1], q[1:]
            if c:
                if not q.isascii() or not q.isdigit() or not 1 <= int(q) <= 65535: return None
                port = int(q)
            return [h, str(port), str(tls), "/" + path, full, full]
    return None
class Relay:
    def __init__(s, ctx, d, r, slot): s.ctx, s.d, s.r, s.slot = ctx, d, r, slot; s.on = False
    def call(s, *a): return s.d.cmd(a[0], s.slot, *a[1:])
    def log(s):
        o = s.d.cmd("rl.log", s.slot); s.ctx.check(o["late"] == 0, "late-callback", "a callback ran after destroy", s.d)
        for n in o["log"]:
            if n["k"] == ub_("S"): s.ctx.check(n["r"] < 100, "callback-view", lambda: "state callback saw %s (relay mismatch +100, state field mismatch +1000)" % n["r"], s.d)
        return o["log"]
    def notes(s): return [n["r"] for n in s.log() if n["k"] == ub_("S")]
    def wire(s): return [(ub(x["k"]).decode(), x["c"], ub(x["s"])) for x in s.d.cmd("rl.wire")["log"]]
    def conns(s): return [x[2].decode().split("\n") for x in s.wire() if x[0] == "C"]
    def ck(s, c, key, text): return s.ctx.check(c, key, lambda: "%s (url %s, model state %s)" % (text() if callable(text) else text, s.url, s.st), s.d)
    def same(s, o, what): s.ck(o.get("state", s.st) == s.st, "state", lambda: "%s left state %s" % (what, o))
    def new(s):
        r = s.r
        s.url = r.choice(["ws://r.example", "wss://r.example/", "wss://r.example/nostr/v1?x=1", "ws://127.0.0.1:7777", "wss://host:8443/p", "ws://h:1/", "ws://h:65535", "wss://" + "a" * 300 + "/" + "b" * 700, "wss://u.example:443/x/", "ws://[::1]:7777/x", "wss://[2001:db8::1]", "wss://[2001:db8::1]/p", "ws://[::1]:65535", "ws://h:00080/y", "wss://h:4848/a:9/b:c", "ws://h/?u=http://x:1/"]) if r.random() < .85 else r.choice(["http://x", "", "ws:/x", "ws//x", "wss", "WS://x", " ws://x", "ws://h:0", "ws://h:65536", "ws://h:99999999999999999999", "ws://h:", "ws://h:8x/", "ws://h:-1", "ws://h: 80", "ftp://ws://x", "ws://h:4294967376", "ws://h:18446744073709551696/"])
        o = s.call("rl.new", hx(s.url)); s.st = D; s.ws = s.live = False; s.last = None; s.subs = 0
        s.ck(o["r"] == 0 and o["state"] == D and ub(o["url"]).decode() == s.url and "alias" not in o, "create", lambda: str(o)); s.on = True
    def connect(s, now):
        r = s.r; t = target(s.url); fail = r.choice([None] * 8 + ["ctx", "conn", "conncce", "thread", "alloc", "nocb"]); pre = []
        if fail in ("thread", "alloc") and s.d.config == "tsan": fail = None
        if fail == "ctx": s.d.cmd("rl.fail", 1, 0, 0, 0)
        elif fail in ("conn", "conncce"): s.d.cmd("rl.fail", 0, 1, 0, fail == "conncce")
        elif fail == "thread": pre = ["!t1"]
        elif fail == "alloc": pre = ["!f%d" % r.randrange(1, 5)]
        a = ["rl.connect", s.slot, 0] + ([1] if fail == "nocb" else [])
        o = s.d.cmd(*(pre + a)); s.d.cmd("rl.fail", 0, 0, 0, 0); n = s.notes(); c = s.conns(); s.ctx.seen((s.url, "connect", s.st, s.ws, fail)); what = "connect(fail=%s) -> %s, notes %s, attempts %s" % (fail, o, n, c)
        if s.st in (C, O) or fail == "nocb":
            s.ck(o["r"] != 0 and not n and not c, "connect-twice", what); s.same(o, what); s.ctx.count("refused"); return
        if fail == "alloc" and o["r"] == 0: fail = None    # the fault came too late to matter
        if t is None or fail:
            s.ck(o["r"] != 0, "connect-failure", what); s.ck(o["state"] in (D, E) and not o["ws"], "connect-failure", what)
            s.ck(n in ([], [C, E], [C, D]) and (not n or n[-1] == o["state"]), "connect-failure-notes", what); s.st = o["state"]; s.ws = s.live = False; s.ctx.count("failed_connects")
            return
        s.ck(o["r"] == 0 and o["state"] == C and n == [C], "connect", what); s.ck(c == [t], "target", lambda: "%s, want %s" % (what, t))
        s.st = C; s.ws = s.live = True; s.last = now; s.subs = 0; s.ctx.count("connects")
    def inject(s, act, now, data=None):
        r = s.r; refuse = r.random() < .15
        if refuse: s.d.cmd("rl.fail", 0, 1, 0, 0)
        o = s.call("rl.inj", act, "-" if data is None else hx(data)); s.d.cmd("rl.fail", 0, 0, 0, 0); n = s.notes(); c = s.conns(); what = "%s at %s -> %s, notes %s, attempts %s" % (["established", "received", "closed", "connection error"][act], now, o, n, c); t = target(s.url)
        s.ctx.seen((s.url, act, s.st, now - (s.last or 0), refuse))
        s.ck((o["r"] == 0) == s.ws, "service", what)
        if act == EST and s.live and s.st == C: s.st = O; want, wc = [O], []; s.ctx.count("established")
        elif act == CLOSED and s.live and s.st == O or act == CONNERR and s.live and s.st == C:
            s.ctx.count("losses")
            if now - s.last >= 5:
                s.last = now; wc = [t]; want = [D, C]
                if refuse: want.append(D); s.st = D; s.live = False; s.ctx.count("reconnect_failed")
                else: s.st = C; s.ctx.count("reconnects")
            else: want, wc = [D], []; s.st = D; s.live = False
        else: want, wc = [], []
        s.ck(n == want, "notes", lambda: what + ", want %s" % want); s.ck(c == wc, "attempts", lambda: what + ", want %s" % wc); s.same(o, what)
    def ops(s):
        """requests outside the connected state have no effect"""
        r = s.r; k = r.randrange(4); s.wire()
        if k == 0: o = s.call("rl.sub", hx("s%d" % r.randrange(3)), hx('{"kinds":[1]}'), 7)
        elif k == 1: o = s.call("rl.unsub", hx("s0"))
        else: o = s.call("rl.send", 0, k - 2)
        w = [x for x in s.wire() if x[0] in "WF"]; what = "request %d -> %s, sent %s" % (k, o, w); s.ctx.seen(("op", k, s.st, s.ws))
        s.ck((o["r"] == 0) == (s.st == O), "request", what); s.ck(len(w) == (s.st == O), "request", what); s.ck(not s.notes(), "notes", what); s.ctx.count("requests_connected" if s.st == O else "requests_refused")
    def disconnect(s):
        o = s.call("rl.disconnect"); n = s.notes(); what = "disconnect -> %s, notes %s" % (o, n); s.ctx.seen(("disconnect", s.st, s.ws, s.url))
        s.ck((o["r"] == 0) == s.ws, "disconnect", what)
        if s.ws:
            s.ck(n == ([D] if s.st == O else []) or s.st == C and n == [D], "disconnect-notes", what); s.st = D; s.ws = s.live = False; s.ctx.count("disconnects")
        else: s.ck(not n, "disconnect-notes", what)
        s.same(o, what); s.ck(bool(o["ws"]) == s.ws, "handle", what); s.ck(not s.conns(), "attempts", what)
    def destroy(s):
        o = s.call("rl.destroy"); n = s.notes(); s.ctx.seen(("destroy", s.st, s.ws)); s.ck(n in ([], [D]) if s.ws and s.live else n == [], "destroy-notes", lambda: "destroy -> notes %s" % n); s.conns(); s.on = False; s.ctx.count("destroys"); return o
    def fromcb(s, now):
        """connect, disconnect and destroy inside a callback are refused and change nothing"""
        r = s.r
        if not s.live or s.st not in (C, O): return
        act = r.choice("dcx"); on = r.choice("SM") if s.st == O else "S"
        if on == "M": s.call("rl.cb", 1)
        s.call("rl.script", 0, hx(on), hx(act), 1, "-", "-", 1)
        if on == "M": o = s.call("rl.inj", RECV, hx('["NOTICE","x"]')); want = []
        elif s.st == C: o = s.call("rl.inj", EST, "-"); want = [O]; s.st = O
        else: o = s.call("rl.inj", CLOSED, "-"); want = [D]; s.st = D; s.live = False
        l = s.log(); acts = [x for x in l if x["k"] == ub_("A")]; n = [x["r"] for x in l if x["k"] == ub_("S")]; c = s.conns(); what = "%s in callback -> %s (%s), notes %s attempts %s" % (act, acts, o, n, c)
        if want == [D] and now - s.last >= 5: s.last = now; want = [D, C]; s.st = C; s.live = True; s.ck(c == [target(s.url)], "attempts", what)
        else: s.ck(not c, "attempts", what)
        s.ck(len(acts) == 1 and (act == "x" or acts[0]["r"] > 0), "in-callback", what); s.ck(n == want, "notes", what); s.same(o, what); s.ctx.seen(("cb", act, on, s.st)); s.ctx.count("refused_in_callbacks")
    def check(s): o = s.call("rl.state"); s.same(o, "at rest"); s.ck(bool(o["ws"]) == s.ws, "handle", lambda: str(o)); return o
def run(ctx):
    r = ctx.rng
    ctx.rule = "a random life of one to three relay connections over a scripted transport (failures of context, connection, thread and allocation at each connect, losses with and without reconnection, requests in every state, calls from callbacks); distinct by the step and the state it met; plus relays driven each by its own thread"
    ctx.assumptions = ["the transport is scripted: libwebsockets reports each loss once, on the service thread or while its context is destroyed", "calls on one relay come from one thread"]
    def life(d, n):
        now = 1700000000; d.cmd("vf.time", now, 0); e = gen.event(r, 2, 10); e.content = b"x"; e.tags = []; e.load(d, 0)
        rs = [Relay(ctx, d, r, i) for i in range(r.choice([1, 1, 1, 2, 3]))]
        for _ in range(n):
            x = r.choice(rs)
            if not x.on: x.new(); continue
            k = r.random()
            if k < .2 or (k < .3 and x.st in (D, E)): x.connect(now)
            elif k < .42: x.inject(EST, now)
            elif k < .5: x.inject(CLOSED, now)
            elif k < .56: x.inject(CONNERR, now)
            elif k < .62: now += r.choice([1, 4, 5, 6, 100]); d.cmd("vf.time", now, 0)
            elif k < .78: x.ops()
            elif k < .84: x.disconnect()
            elif k < .88: o = x.destroy(); ctx.check(o["live"] == sum(y.on and y.ws for y in rs), "contexts", lambda: "%s transports left" % o["live"], d)
            elif k < .95: x.fromcb(now)
            else: x.inject(RECV, now, b'["NOTICE","hello"]')
            if x.on: x.check()
        for x in rs:
            if x.on: o = x.destroy()
        o = d.cmd("rl.new", 9, hx("ws://x")); o = d.cmd("rl.state", 9); ctx.check(o["live"] == 0, "contexts", "transports left at the end", d)
        d.reset()
    def faults(d):
        """every allocation of create and connect fails in turn: an error, nothing left, and it works afterwards"""
        for k in range(1, 12):
            o = d.cmd("!f%d" % k, "rl.new", 0, hx("ws://h:80/p")); ctx.seen(("fault-new", k))
            if o["r"] == 0:
                x = d.cmd("!f%d" % k, "rl.connect", 0, 0)
                if x["r"] != 0: ctx.check(x["state"] in (D, E) and not x["ws"], "fault", lambda: str(x), d)
                else: d.cmd("rl.inj", 0, EST, "-"); d.cmd("!f%d" % k, "rl.sub", 0, hx("a"), hx("{}"), 5)
                if x["r"] != 0: y = d.cmd("rl.connect", 0, 0); ctx.check(y["r"] == 0, "fault-retry", lambda: str(y), d)
            d.reset()
        ctx.count("allocation_faults", 22)
    def parallel(d, nt, rounds, jitter):
        """relays used each from its own thread do not disturb one another"""
        g = []; evs = gen.event(r, 2, 10); evs.content = b"x"; evs.tags = []; evs.load(d, 0)
        for i in range(12):
            if r.random() < .5: g.append(("M", jtext(r, ["NOTICE", "n%d" % i]).encode()))
            else: e = gen.event(r, 2, 20); e.content = b"c%d" % i; e.tags = []; g.append(("E", jtext(r, ["EVENT", "sub", obj(r, e)]).encode(), e))
        o = d.cmd("rl.par", nt, rounds, r.randrange(1, 2**30), hl([x[1] for x in g]), jitter)
        ctx.check(not o["bad"], "parallel", lambda: str([ub(x) for x in o["bad"]]), d); ctx.check(o["live"] == 0, "contexts", lambda: "%s transports left" % o["live"], d)
        for i in range(nt):
            l = d.cmd("rl.log", i); ctx.check(l["late"] == 0, "late-callback", "a callback ran after destroy", d); cur = []
            for n in l["log"]:
                if n["k"] != ub_("|"): cur.append(n); continue
                st = [x["r"] for x in cur if x["k"] == ub_("S")]; data = [x for x in cur if x["k"] in (ub_("M"), ub_("E"))]
                ctx.check(st in ([C], [C, D], [C, O, D]), "parallel-notes", lambda: "relay %d saw %s" % (i, st), d)
                want = g if n["a"] else []
                ok = len(data) == len(want) and all(x["k"] == ub_(w[0]) and (w[0] == "M" and json.loads(ub(x["t"])) == json.loads(w[1]) or w[0] == "E" and strict(ub(x["s"]))[1].key() == w[2].key()) for x, w in zip(data, want))
                ctx.check(ok, "parallel-data", lambda: "relay %d: %d deliveries of %d" % (i, len(data), len(want)), d); ctx.seen(("par", i, len(cur), tuple(st), len(data))); ctx.count("parallel_rounds"); cur = []
        d.reset()
    d = ctx.driver("asan")
    x = d.cmd("rl.nulls"); ctx.check(x["r"] == 0, "null", str(x), d)
    for k in range(ctx.n(350, 5000)):
        ctx.guard(d, life, r.choice([10, 40, 100]))
        if k % 25 == 24: ctx.leaks(d, "lives")
    ctx.guard(d, faults); ctx.leaks(d, "faults")
    for _ in range(ctx.n(4, 60)): ctx.guard(d, parallel, 6, 5, r.choice([0, 50]))
    ctx.leaks(d, "parallel")
    t = ctx.driver("tsan")
    for _ in range(ctx.n(6, 200)): ctx.guard(t, life, 60)
    for _ in range(ctx.n(4, 80)): ctx.guard(t, parallel, 6, 5, r.choice([0, 20, 100]))
