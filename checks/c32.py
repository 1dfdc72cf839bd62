"""C32: what the relay client delivers and sends."""
import json, re
from decimal import Decimal
from lib import gen
from lib.drv import hx, hl, ub
from checks import c03, c21, c22
from checks.c03 import jtext, lenient
from checks.c18 import Pairs
EST, RECV, CLOSED, CONNERR, NOP, PART, REST = range(7)
OPEN = 2
def load(b):
    def no(x): raise ValueError(x)
    return json.loads(b.decode("utf-8"), object_pairs_hook=Pairs, parse_constant=no, parse_float=Decimal, strict=True)
def deep(b): return b.count(b"[") + b.count(b"{") > 900
def judge(b):
    """what one WebSocket message must lead to: none / msg / event / free"""
    if not b.strip(b" \t\r\n"): return ("none",)
    if b"\0" in b or deep(b): return ("free",)
    try: s = b.decode("utf-8")
    except UnicodeDecodeError: return ("free",)
    if re.search(r"\\u(?![0-9a-fA-F]{4})", s): return ("free",)
    try: o = load(b)
    except RecursionError: return ("free",)
    except ValueError:
        if lenient(b): return ("free",)
        try: json.JSONDecoder(strict=False).raw_decode(s.lstrip(" \t\r\n")); return ("free",)   # several texts in one message
        except RecursionError: return ("free",)
        except ValueError: pass
        t = re.sub(r"[\x00-\x1f]", " ", s); t = re.sub(r"\d[\d.eE+-]*", "1", t).lstrip(" ")
        try: json.JSONDecoder(strict=False).raw_decode(t); return ("free",)
        except (ValueError, RecursionError): return ("none",)
    if not isinstance(o, list) or isinstance(o, Pairs) or len(o) < 2 or not isinstance(o[0], str): return ("none",)
    flat = json.dumps(o, ensure_ascii=False, default=str)
    if any(0xd800 <= ord(c) < 0xe000 for c in flat) or c21.LONGNUM.search(b): return ("free",)
    if "\0" in o[0]: return ("none",)
    if o[0] == "EVENT" and len(o) >= 3:
        if not isinstance(o[1], str): return ("none",)
        if isinstance(o[1], str) and "\0" in o[1]: return ("none",)
        w = c22.ev_of(json.loads(json.dumps(o[2], default=float)) if not isinstance(o[2], Pairs) else o[2]) if not _dec(o[2]) else ("skip", "float")
        if w[0] == "skip": return ("free",)
        if w[0] == "bad": return ("none",)
        if len(o) > 3 or b"\\u0000" in b: return ("free",)
        return ("event", o[1], w[1])
    if o[0] == "CLOSED" and b"\\u0000" in b: return ("free",)
    return ("msg", o[0], o, o[1] if o[0] == "CLOSED" and len(o) >= 3 and isinstance(o[1], str) else None)
def _dec(x):
    if isinstance(x, Decimal): return True
    if isinstance(x, Pairs): return any(_dec(v) for _, v in x)
    return isinstance(x, (list, tuple)) and any(_dec(v) for v in x)
class Gen:
    """relay-side messages"""
    def __init__(s, r): s.r = r
    def event(s):
        r = s.r
        while True:
            e = gen.event(r, 5, 60)
            if gen.utf8(e.content) and all(gen.utf8(v) for t in e.tags for v in t): return e
    def word(s, n=20):
        while True:
            w = gen.text(s.r, n)
            if gen.utf8(w) and b"\0" not in w: return w.decode()
    def good(s, ids):
        r = s.r; k = r.random(); i = r.choice(ids + ["nosuch"]) if r.random() < .9 else s.word()
        if r.random() < .04:
            n = r.choice([10, 30, 63, 64, 65, 100, 128, 200, 256, 400]); v = "deep"
            for _ in range(n): v = [v] if r.random() < .7 else {"k": v, "]": "["}
            m = r.choice([["NOTICE", v], ["OK", "x", True, v], [s.word(6), v, 1]]); return json.dumps(m).encode()
        if k < .4: m = ["EVENT", i, c03.obj(r, s.event(), extra=r.random() < .1)]
        elif k < .5: m = ["OK", gen.hexid(r).decode(), r.random() < .5, s.word()]
        elif k < .6: m = ["EOSE", i]
        elif k < .66: m = ["CLOSED", i, s.word()] + [r.choice([1, None, {}, "x"]) for _ in range(r.choice([0, 0, 0, 1, 2, 5]))]
        elif k < .76: m = ["NOTICE", s.word(60)]
        elif k < .8: m = ["AUTH", s.word()]
        elif k < .84: m = ["COUNT", i, {"count": r.choice([0, 1, 2**53 + 1, 2**64 - 1, 10**30])}]
        elif k < .9: m = [s.word(6), r.choice([None, 1, [], {}, "x", True, [["EVENT", "a", {}]], 9007199254740993, -5])]
        elif k < .93: m = ["EVENT", i]
        elif k < .95: m = ["CLOSED", i]
        elif k < .97: m = ["OK", "x"]
        else: m = ["NOTICE", "]]}}[[{{\"],[\"EVENT\",\"%s\",{}" % i]
        return jtext(r, m).encode()
    def bad(s, ids):
        r = s.r; k = r.random(); i = r.choice(ids + ["nosuch"]); g = s.good(ids)
        if k < .1: return r.choice([b"", b" ", b"hello", b"{}", b'{"a":["EVENT"]}', b"42", b"null", b'"[\\"EOSE\\",\\"a\\"]"', b"]", b"}", b"\xff\xfe", b"x" * 3000, b"{[", b",[", b"\xef\xbb\xbf" + g])
        if k < .3: return g[:r.randrange(len(g))]
        if k < .36: return b"[" * r.choice([1, 10, 999, 1200, 60000]) + r.choice([b"", b"]" * 1200])
        if k < .44: return jtext(r, r.choice([[], ["EOSE"], [1, 2], [None, "EVENT"], [["EVENT", i, {}], 1], [{}, {}], [True, i], ["EVENT", 5, {}], ["EVENT", None, {}], ["EVENT", [i], {}], ["EVENT", i, None], ["EVENT", i, "x"], ["EVENT", i, []], ["EVENT", i, {}]])).encode()
        if k < .56: return jtext(r, ["EVENT", i, c03.wrong(r, c03.obj(r, s.event()))]).encode()
        if k < .64: return jtext(r, ["EVENT", r.choice([i + "\0", "\0" + i, i + "\0x", "\0"]), c03.obj(r, s.event())]).encode()
        if k < .68: return jtext(r, [r.choice(["EVENT\0", "OK\0x", "CLOSED\0", "\0"]), i, c03.obj(r, s.event())]).encode()
        if k < .72: return g.replace(b",", b"", 1)
        if k < .76: return g + r.choice([b"]", b"x", b",", b"\0"]) if judge(g)[1:2] != ("CLOSED",) else b"["
        if k < .8: return b'["NOTICE","unterminated'
        if k < .84: return b'["NOTICE","a\\'
        if k < .92:
            m = gen.mutate(r, g); return m
        return r.randbytes(r.randrange(200))
class World:
    """one connected relay and the reference dispatcher"""
    def __init__(s, ctx, d, r, slot=0): s.ctx, s.d, s.r, s.g, s.slot = ctx, d, r, Gen(r), slot; s.subs = {}; s.cb = None; s.pending = 0
    def open(s, url=b"ws://r.example"):
        d, c = s.d, s.ctx
        d.cmd("rl.new", s.slot, hx(url)); s.cb = 1 if s.r.random() < .9 else None
        if s.cb is not None and s.r.random() < .5: d.cmd("rl.cb", s.slot, s.cb)
        d.cmd("rl.connect", s.slot, 0)
        if s.cb is not None: d.cmd("rl.cb", s.slot, s.cb)
        d.cmd("rl.inj", s.slot, EST, "-"); d.cmd("rl.log", s.slot); d.cmd("rl.wire")
    def log(s): o = s.d.cmd("rl.log", s.slot); s.ctx.check(o["late"] == 0, "late-callback", "callback after destroy", s.d); return o["log"]
    def wire(s): return [(x["k"] if len(x["k"]) == 1 else ub(x["k"]).decode(), x["c"], ub(x["s"])) for x in s.d.cmd("rl.wire")["log"]]
    def chunks(s, b):
        r = s.r; k = r.random()
        if k < .4 or not b: cs = [b]
        elif k < .5: cs = [b[i:i + 1] for i in range(len(b))] if len(b) < 80 else [b[:1], b[1:]]
        else:
            cuts = sorted(r.randrange(len(b) + 1) for _ in range(r.choice([1, 1, 2, 3, 8]))); cs = [b[x:y] for x, y in zip([0] + cuts, cuts + [len(b)])]
        if r.random() < .08: cs.append(b"")
        rest = r.randrange(len(cs)) if len(cs) > 1 and r.random() < .5 else len(cs) - 1
        return [(RECV if i == len(cs) - 1 else REST if i >= rest else PART, c) for i, c in enumerate(cs)]
    def expect(s, b, log):
        ctx, d = s.ctx, s.d; j = judge(b); show = b[:300]
        if j[0] == "free":
            ctx.count("unjudged")
            for n in log: ctx.check(n["k"] != ub_("S"), "state", lambda: "state change on data %r" % show, d)
            s.resync()
            return
        if j[0] == "none":
            ctx.count("nothing_due"); ctx.check(not log, "spurious", lambda: "delivered %s for %r" % (log, show), d); return
        if j[0] == "event":
            if s.subs.get(j[1]) is None: ctx.count("event_unsubscribed"); ctx.check(not log, "unsubscribed", lambda: "event for %r delivered: %s, open %s" % (j[1], log, s.subs), d); return
            ctx.count("event_due")
            if not ctx.check(len(log) == 1 and log[0]["k"] == ub_("E"), "event", lambda: "event %r led to %s" % (show, log), d): return
            ctx.check(log[0]["a"] == s.subs[j[1]], "wrong-subscription", lambda: "%r went to %s not %s" % (j[1], log[0]["a"], s.subs[j[1]]), d)
            w = c03.strict(ub(log[0]["s"])); ctx.check(w[0] == "ok" and w[1].key() == j[2].key(), "event-content", lambda: "sent %r delivered %r" % (show, ub(log[0]["s"])[:300]), d); return
        if j[3] is not None and j[3] in s.subs: del s.subs[j[3]]; ctx.count("closed_by_relay")
        if s.cb is None: ctx.check(not log, "spurious", lambda: "no callback set, got %s" % log, d); return
        ctx.count("message_due")
        if not ctx.check(len(log) == 1 and log[0]["k"] == ub_("M"), "message", lambda: "message %r led to %s" % (show, log), d): return
        ctx.check(log[0]["a"] == s.cb, "wrong-callback", lambda: "token %s, set %s" % (log[0]["a"], s.cb), d)
        t = ub(log[0]["t"])
        try: same = load(t) == j[2]
        except ValueError: same = False
        ctx.check(ub(log[0]["s"]).decode() == j[1] and same, "message-content", lambda: "sent %r delivered %r %r" % (show, ub(log[0]["s"]), t[:300]), d)
    def resync(s):
        """an unjudged message may have closed subscriptions: open them anew"""
        for i, t in list(s.subs.items()): s.d.cmd("rl.sub", s.slot, hx(i), hx("{}"), t if t is not None else 0, *([] if t is not None else [1]))
        s.d.cmd("rl.wire")
    def message(s, b, between=None):
        cs = s.chunks(b)
        for i, (a, c) in enumerate(cs):
            o = s.d.cmd("rl.inj", s.slot, a, hx(c)); s.ctx.check(o["r"] == 0 and o["state"] == OPEN, "stalled", lambda: "%s after %r" % (o, b[:200]), s.d)
            if i < len(cs) - 1:
                if between and s.r.random() < .2: between()
                if s.r.random() < .3 or between: l = s.log(); s.ctx.check(not l, "early", lambda: "delivered before the message ended: %s" % l, s.d)
        s.expect(b, s.log()); s.ctx.seen((b, tuple(a for a, _ in cs), tuple(len(c) for _, c in cs)), b[:120])
    # requests
    def sent(s, ok, want, what):
        w = s.wire(); fs = [x for x in w if x[0] in "WF"]
        if not ok: s.ctx.check(not fs, "sent-on-error", lambda: "%s failed but sent %s" % (what, fs), s.d); return
        if not s.ctx.check(len(fs) == 1 and fs[0][0] == "W" and fs[0][2][:1] == b"0", "request", lambda: "%s sent %s" % (what, fs), s.d): return
        try: o = load(fs[0][2][1:])
        except ValueError: s.ctx.check(False, "request-malformed", "%s sent %r" % (what, fs[0][2][:300]), s.d); return
        s.ctx.check(want(o, fs[0][2][1:]), "request-content", lambda: "%s sent %r" % (what, fs[0][2][:400]), s.d)
    def sub(s, ids):
        r, d, ctx = s.r, s.d, s.ctx; i = r.choice(ids) if r.random() < .85 else r.choice(["", "a\"b", "a\\", "a\nb", "x" * 256, "x" * 257, "\x01", "é€😀", " ", "[]{}", "\x7f", "'", "x" * 64, "x" * 65])
        k = r.random(); many = [filt(r, s.g) for _ in range(r.choice([1, 1, 1, 2, 3, r.randrange(4, 40)]))]
        f = ",".join(jtext(r, x) for x in many)
        if k > .7: f = r.choice(["", " ", "[]", "[%s]" % f, "{", "}", "null", "1", '"x"', f + "]", f + '],["CLOSE","a"', f + ",", "," + f, f + " x", f + '}', "{},[]", "{},null", f + "{}", f[:-1], '{"a":1}{"b":2}', "{} {}", f[:r.randrange(len(f))]])
        try: o = load(b"[" + f.encode() + b"]"); okf = len(o) >= 1 and all(isinstance(x, Pairs) for x in o)
        except ValueError: okf = None if lenient(b"[" + f.encode() + b"]") else False
        if okf and "\\u0000" in f: okf = None
        valid = 1 <= len(i.encode()) <= 256 and not any(c in '"\\' or ord(c) < 32 for c in i)
        t = r.randrange(3, 60); nocb = r.random() < .05; fail = r.random() < .06
        if fail: d.cmd("rl.fail", 0, 0, 1, 0)
        x = d.cmd("rl.sub", s.slot, hx(i), hx(f), t, *([1] if nocb else [])); d.cmd("rl.fail", 0, 0, 0, 0)
        what = "subscribe(%r, %r) = %s" % (i, f[:200], x["r"]); s.ctx.seen(("sub", i, f))
        if fail and valid and okf: ctx.check(x["r"] != 0, "write-failure", what, d); s.wire(); ctx.count("failed_writes"); return
        if okf is None: 
            s.wire()
            if x["r"] == 0: s.subs[i] = None if nocb else t
            return
        ctx.check((x["r"] == 0) == (valid and okf), "subscribe", what, d); ctx.count("subscribed" if x["r"] == 0 else "subscribe_refused")
        if x["r"] == 0: s.subs[i] = None if nocb else t
        s.sent(x["r"] == 0, lambda q, b: q == ["REQ", i] + o, what)
    def unsub(s, ids):
        i = s.r.choice(ids) if s.r.random() < .9 else s.r.choice(["", "a\"b", "nosuch", "x" * 256, "x" * 257])
        valid = 1 <= len(i.encode()) <= 256 and not any(c in '"\\' or ord(c) < 32 for c in i)
        x = s.d.cmd("rl.unsub", s.slot, hx(i)); what = "unsubscribe(%r) = %s" % (i, x["r"]); s.ctx.seen(("unsub", i, i in s.subs))
        s.ctx.check((x["r"] == 0) == valid, "unsubscribe", what, s.d)
        if x["r"] == 0: s.subs.pop(i, None)
        s.sent(x["r"] == 0, lambda q, b: q == ["CLOSE", i], what)
    def send(s):
        e = s.g.event(); e.load(s.d, 0); x = s.d.cmd("rl.send", s.slot, 0, s.r.randrange(2)); s.ctx.check(x["r"] == 0, "send", "send = %s" % x, s.d)
        def want(q, b):
            if len(q) != 2 or q[0] != "EVENT": return False
            w = c22.ev_of(q[1]); return w[0] == "ok" and w[1].key() == e.key()
        s.sent(True, want, "send_event"); s.ctx.seen(("send", e.key())); s.ctx.count("events_sent")
    def setcb(s):
        s.cb = s.r.choice([None, 1, 2]); x = s.d.cmd("rl.cb", s.slot, "-" if s.cb is None else s.cb); s.ctx.check(x["r"] == 0, "set-callback", str(x), s.d)
def ub_(k): return k.encode().hex()
def filt(r, g):
    f = {}
    if r.random() < .5: f["kinds"] = [gen.kind(r) for _ in range(r.randrange(3))]
    if r.random() < .4: f["authors"] = [gen.hexid(r).decode() for _ in range(r.randrange(3))]
    if r.random() < .4: f["#" + r.choice("etpdX")] = [g.word() for _ in range(r.randrange(3))]
    if r.random() < .3: f["since"] = r.choice([0, 1700000000, 2**53 + 1, 2**63])
    if r.random() < .3: f["search"] = g.word()
    if r.random() < .3: f["limit"] = r.randrange(1000)
    return f
def run(ctx):
    r = ctx.rng
    ctx.rule = "a message or request within a random history of one relay connection (any fragmentation, hostile data between, subscriptions opened, replaced and closed); deliveries compared with a reference dispatcher, requests with the arguments; distinct by message and cuts or by request"
    ctx.assumptions = ["the transport is scripted: libwebsockets' own framing is trusted"]
    def hist(d, n):
        w = World(ctx, d, r); w.open(); ids = [w.g.word(10).translate({34: 39, 92: 47}) or "q" for _ in range(2)] + ["a", "sub"]; r.shuffle(ids)
        ids = ["".join(c for c in i if ord(c) >= 32) or "q" for i in ids]
        for i in ids[:r.randrange(len(ids))]: d.cmd("rl.sub", 0, hx(i), hx("{}"), 3); w.subs[i] = 3
        d.cmd("rl.wire")
        for _ in range(n):
            k = r.random()
            if k < .45: w.message(w.g.good(ids), lambda: r.choice([w.sub, w.unsub])(ids))
            elif k < .65: w.message(w.g.bad(ids))
            elif k < .82: w.sub(ids)
            elif k < .89: w.unsub(ids)
            elif k < .95: w.send()
            else: w.setcb()
        d.cmd("rl.destroy", 0); l = w.log(); w.wire(); ctx.check(all(x["k"] == ub_("S") for x in l), "late", lambda: "after destroy: %s" % l, d)
        d.reset()
    def crowd(d):
        """many subscriptions at once, with ids that begin alike, opened, replaced and closed in any order"""
        w = World(ctx, d, r); w.open(); n = r.choice([5, 17, 33, 64, 70, 150]); stem = r.choice(["", "s", "y" * 62, "y" * 63, "y" * 64, "z" * 127, "z" * 128, "w" * 250]); ids = ["%s%x" % (stem, i) for i in range(n)] + ([stem] if stem else []) + ([stem[:-1]] if len(stem) > 1 else []); r.shuffle(ids)
        def probe(i):
            e = w.g.event(); w.message(jtext(r, ["EVENT", i, c03.obj(r, e)]).encode())
        for i in ids:
            t = r.randrange(3, 60); x = d.cmd("rl.sub", 0, hx(i), hx("{}"), t); ctx.check(x["r"] == 0, "subscribe", lambda: "subscription %d of %d: %s" % (len(w.subs) + 1, len(ids), x), d); w.subs[i] = t
        d.cmd("rl.wire"); ctx.seen(("crowd", n, stem, tuple(ids[:5])), "%d subscriptions" % len(ids)); ctx.count("subscriptions_at_once", len(ids))
        for i in r.sample(ids, min(6, len(ids))) + ids[:2] + ids[-2:]: probe(i)
        for _ in range(20):
            i = r.choice(ids + ids[:2] + ids[-2:]); k = r.random()
            if k < .45: x = d.cmd("rl.unsub", 0, hx(i)); ctx.check(x["r"] == 0, "unsubscribe", str(x), d); w.subs.pop(i, None); d.cmd("rl.wire")
            elif k < .6: w.message(jtext(r, ["CLOSED", i, "bye"]).encode())
            elif k < .8: t = r.randrange(3, 60); d.cmd("rl.sub", 0, hx(i), hx("{}"), t); w.subs[i] = t; d.cmd("rl.wire")
            probe(i); probe(r.choice(ids))
        d.reset()
    def cut(d):
        """a connection lost in the middle of a message, even one too large: after the reconnection every message arrives whole"""
        now = 1700000000 + r.randrange(10**6); d.cmd("vf.time", now, 0); w = World(ctx, d, r); w.open(); w.cb = 1; d.cmd("rl.cb", 0, 1)
        for _ in range(r.choice([1, 2, 3])):
            for _ in range(r.randrange(3)): w.message(w.g.good(["a"]))
            k = r.random(); m = w.g.good(["a"]); p = m[:r.randrange(1, len(m))] if len(m) > 1 else b"["
            if k < .2: p = r.choice([b'["NOTICE","', b'["EOSE","a"],', b"[", b'["NOTICE","a"]', b"\0", b'"'])
            parts = [p]
            if k > .93: parts = [b'["NOTICE","' + b"q" * (1 << 20)] + [b"q" * (1 << 20)] * 11
            for x in parts: d.cmd("rl.inj", 0, PART, hx(x))
            l = w.log(); ctx.check(not l, "early", lambda: "delivered before the message ended: %s" % l, d)
            now += r.choice([5, 6, 1000]); d.cmd("vf.time", now, 0); o = d.cmd("rl.inj", 0, CLOSED, "-"); o = d.cmd("rl.inj", 0, EST, "-"); ctx.check(o["state"] == OPEN, "reconnect", str(o), d)
            l = w.log(); ctx.check(all(x["k"] == ub_("S") for x in l), "spurious", lambda: "a half message was delivered over a lost connection: %s" % l, d); d.cmd("rl.wire"); ctx.seen(("cut", p)); ctx.count("connections_lost_in_a_message")
            for m in (b'["EOSE","a"]', b'["NOTICE","after"]'): w.message(m)
        d.reset(); d.cmd("vf.time", 0, 0)
    def several(d):
        """several JSON texts in one WebSocket message: each good one is delivered in order"""
        w = World(ctx, d, r); w.open(); w.setcb(); w.cb = 1; d.cmd("rl.cb", 0, 1); d.cmd("rl.sub", 0, hx("a"), hx("{}"), 5); w.subs["a"] = 5; d.cmd("rl.wire")
        ms = [m for m in (w.g.good(["a"]) for _ in range(r.randrange(2, 6))) if judge(m)[0] in ("msg", "event") and judge(m)[1] != "CLOSED"]
        for a, c in w.chunks(r.choice([b"", b" ", b"\n", b"\r\n", b"\t", b"\r", b" \t\r\n\r "]).join(ms)): d.cmd("rl.inj", 0, a, hx(c))
        l = w.log(); want = [("E", None) if judge(m)[0] == "event" else ("M", judge(m)[1]) for m in ms if judge(m)[0] == "msg" or judge(m)[1] == "a"]
        got = [(ub(x["k"]).decode(), ub(x["s"]).decode() if ub(x["k"]) == b"M" else None) for x in l]
        ctx.check(got == want, "several", lambda: "%r -> %s, want %s" % (ms, got, want), d); ctx.seen(("several", tuple(ms))); d.reset()
    def big(d, size):
        """oversized messages are dropped whole; what follows is delivered"""
        w = World(ctx, d, r); w.open(); w.cb = 1; d.cmd("rl.cb", 0, 1); d.cmd("rl.sub", 0, hx("a"), hx("{}"), 5); w.subs["a"] = 5; d.cmd("rl.wire")
        inner = jtext(r, r.choice([["NOTICE", "inside"], ["EVENT", "a", c03.obj(r, w.g.event())]])).encode()
        body = b'["NOTICE","' + b"y" * (size - 13) + b'"]'; cs = 1 << 20
        if size > 10 << 20 and (size == 11 << 20 or r.random() < .5): body = b'["X","%s",' % (b"y" * (cs - 8)) + b"".join(inner + b"," + b" " * (cs - len(inner) - 1) for _ in range(size // cs)) + inner + b"]"
        elif r.random() < .5: body = body[:-200] + inner + body[-200 + len(inner):] if size < 9 << 20 else body[:(10 << 20) - 500] + b'"]' + inner * 40 + body[(10 << 20) - 498 + 40 * len(inner):]
        for i in range(0, len(body), cs): d.cmd("rl.inj", 0, RECV if i + cs >= len(body) else PART, hx(body[i:i + cs]))
        l = w.log()
        if size > 10 << 20: ctx.check(not l, "oversized", lambda: "delivered %s" % [x["s"] for x in l], d); ctx.count("oversized")
        elif judge(body)[0] == "msg": ctx.check(len(l) == 1 and ub(l[0]["t"]) == body or len(l) == 1 and load(ub(l[0]["t"])) == load(body), "large", "a message of %d bytes led to %d deliveries" % (size, len(l)), d); ctx.count("large")
        w.message(w.g.good(["a"])); w.message(b'["EOSE","a"]'); ctx.seen(("big", size)); d.reset()
    def large(d, sizes):
        """messages of every size class below the limit arrive whole and in order"""
        w = World(ctx, d, r); w.open(); w.cb = 1; d.cmd("rl.cb", 0, 1)
        for n in sizes:
            seed = gen.hexid(r); pay = (seed * (n // 64 + 1))[:max(0, n - 13)]; body = b'["NOTICE","' + pay + b'"]'; cs = r.choice([1 << 20, 1 << 18, 65536, n // 2 + 1, n]) if n > 1 << 18 else r.choice([n, 4096, 4095, n // 3 + 1])
            for i in range(0, len(body), cs): d.cmd("rl.inj", 0, RECV if i + cs >= len(body) else r.choice([PART, REST]) if i + 2 * cs >= len(body) else PART, hx(body[i:i + cs]))
            l = w.log(); ctx.seen(("large", n, cs), "%d byte message in pieces of %d" % (n, cs)); ctx.count("large")
            ctx.check(len(l) == 1 and load(ub(l[0]["t"])) == ["NOTICE", pay.decode()], "large", lambda: "a message of %d bytes in pieces of %d led to %d deliveries" % (n, cs, len(l)), d)
            w.message(b'["EOSE","a"]')
        d.reset()
    def callbacks(d):
        """requests made from inside callbacks"""
        w = World(ctx, d, r); w.open(); w.cb = 1; d.cmd("rl.cb", 0, 1); d.cmd("rl.sub", 0, hx("a"), hx("{}"), 5); w.subs["a"] = 5; d.cmd("rl.wire"); e = w.g.event(); e.load(d, 0)
        for _ in range(r.randrange(1, 5)):
            on = r.choice("EM"); act = r.choice("uUmsu"); i = r.choice(["a", "b"]); t = r.randrange(10, 60)
            d.cmd("rl.script", 0, 0, hx(on), hx(act), 1, hx(i), hx('{"kinds":[1]}'), t)
            b = jtext(r, ["EVENT", "a", c03.obj(r, w.g.event())] if on == "E" else ["NOTICE", "n"]).encode(); want_e = w.subs.get("a")
            d.cmd("rl.inj", 0, RECV, hx(b)); l = w.log(); ks = [ub(x["k"]).decode() for x in l]
            if on == "E" and want_e is None: ctx.check(not l, "unsubscribed", lambda: str(l), d); d.cmd("rl.wire"); continue
            if not ctx.check(ks == [on, "A"] and l[1]["r"] == 0, "in-callback", lambda: "%s from a callback: %s" % (act, l), d): return
            ctx.check(l[0]["a"] == (want_e if on == "E" else w.cb), "wrong-subscription", lambda: str(l), d)
            if act == "u": w.subs[i] = t; w.sent(True, lambda q, b: q == ["REQ", i, load(b'{"kinds":[1]}')], "subscribe in callback")
            elif act == "U": w.subs.pop(i, None); w.sent(True, lambda q, b: q == ["CLOSE", i], "unsubscribe in callback")
            elif act == "m": w.cb = t; d.cmd("rl.wire")
            else: w.sent(True, lambda q, b: len(q) == 2 and q[0] == "EVENT" and c22.ev_of(q[1])[1].key() == e.key(), "send in callback")
            ctx.seen(("cb", on, act, i)); ctx.count("requests_from_callbacks")
            for i in ("a", "b"): w.message(jtext(r, ["EVENT", i, c03.obj(r, w.g.event())]).encode())
            w.message(b'["NOTICE","after"]')
        d.reset()
    d = ctx.driver("asan")
    for k in range(ctx.n(100, 1500)):
        if not ctx.guard(d, hist, r.choice([10, 40, 80])): d.cmd("reset")
        for f in (several, callbacks) + ((crowd,) if k % 2 else (cut,)): ctx.guard(d, f)
        if k % 10 == 9: ctx.leaks(d, "histories")
    for size in ([11 << 20, 12 << 20, 3 << 20] if ctx.quick else [1 << 20, 8 << 20, (10 << 20) + 5, 11 << 20, 20 << 20, 31 << 20]): ctx.guard(d, big, size)
    ks = [2 ** k + j for k in range(5, 24) for j in (-1, 0, 1)] + [(10 << 20) - 4096, 9 << 20, 10 ** 7]
    ctx.guard(d, large, [n for n in ks if n < 1 << 18] + (r.sample([n for n in ks if n >= 1 << 18], 5) + [10 ** 7] if ctx.quick else [n for n in ks if n >= 1 << 18]))
    ctx.leaks(d, "end")
    t = ctx.driver("tsan")
    for _ in range(ctx.n(4, 60)): ctx.guard(t, hist, 40)
