"""C22: client messages."""
import json, re
from lib import gen
from lib.drv import hx
from checks import c03, c21
from checks.c03 import jtext, lenient
from checks.c18 import Pairs
TYPES = {"EVENT": 0, "REQ": 1, "CLOSE": 2, "AUTH": 3, "COUNT": 4}
def ev_of(o):
    """event JSON value -> strict reading"""
    def plain(x): return {k: plain(v) for k, v in x} if isinstance(x, Pairs) else [plain(v) for v in x] if isinstance(x, list) else x
    def dup(x): return (isinstance(x, Pairs) and len({k for k, _ in x}) != len(x)) or (isinstance(x, Pairs) and any(dup(v) for _, v in x)) or (isinstance(x, list) and not isinstance(x, Pairs) and any(dup(v) for v in x))
    if dup(o): return ("skip", "duplicate")
    return c03.strict(json.dumps(plain(o)).encode())
def read(b):
    """(verdict, content): verdict ok / bad / either / None"""
    if b"\0" in b: return ("bad", None)
    try: s = b.decode("utf-8")
    except UnicodeDecodeError: return (None, None)
    try: o = json.loads(s, object_pairs_hook=Pairs, parse_constant=lambda x: 1 / 0, strict=True)
    except RecursionError: return (None, None)
    except (ValueError, ZeroDivisionError): return (None if lenient(b) else "bad", None)
    if any(0xd800 <= ord(c) < 0xe000 for c in json.dumps(o, ensure_ascii=False)): return (None, None)
    if not isinstance(o, list) or isinstance(o, Pairs) or not o or not isinstance(o[0], str) or o[0] not in TYPES: return ("bad", None)
    t = o[0]
    if len(o) < 2: return ("bad", None)
    either = False
    if t in ("EVENT", "AUTH"):
        w = ev_of(o[1])
        if w[0] == "skip": return (None, None)
        if w[0] == "bad": return ("bad", None)
        if len(o) > 2: either = True
        c = dict(type=TYPES[t], event=w[1].view())
    else:
        if not isinstance(o[1], str) or not re.fullmatch(r"[\x20-\x7e]{1,64}", o[1]): return ("bad", None)
        c = dict(type=TYPES[t], sub=o[1].encode().hex())
        if t == "CLOSE": either = len(o) > 2
        else:
            if len(o) - 2 > 10: return ("bad", None)
            if len(o) == 2: either = True
            c["filters"] = []
            for x in o[2:]:
                w, f = c21.interpret(x)
                if w is None: return (None, None)
                if w == "bad" or c21.valid(f): return ("bad", None)
                either |= w == "either"; c["filters"].append(f)
    either |= bool(c21.LONGNUM.search(b))
    if either and b"\\u0000" in b: return (None, None)
    return ("either" if either else "ok", c)
def differs(o, c):
    if o["type"] != c["type"]: return "type"
    if ("event" in c) != ("event" in o) or "event" in c and o["event"] != c["event"]: return "event"
    if ("sub" in c) != ("sub" in o) or "sub" in c and o["sub"] != c["sub"]: return "id"
    if "filters" in c:
        if o["nf"] != len(c["filters"]) or len(o.get("filters", [])) != o["nf"]: return "filter count"
        for g, f in zip(o.get("filters", []), c["filters"]):
            x = c21.differs(g, f)
            if x: return "filter " + x
    elif o["nf"]: return "filter count"
    return None
def run(ctx):
    r = ctx.rng
    ctx.rule = "client message text (valid in any JSON spelling, near-valid, truncated, mutated) offered to the parser; outcome and content predicted by Python's json with independent event and filter readings; distinct by text"
    def subid():
        k = r.random()
        if k < .75: return "".join(chr(r.randrange(32, 127)) for _ in range(r.choice([1, 1, 5, 20, 63, 64])))
        return r.choice(["", "x" * 65, "x" * 66, "x" * 128, "é", "a\nb", "a\x7f", "a\0b", "\0", "a" * 64 + "\0", "a" * 63 + "é", 1, None, ["x"], {}, True])
    def event():
        while True:
            e = gen.event(r, 5, 40)
            if gen.utf8(e.content) and all(gen.utf8(v) for t in e.tags for v in t): break
        o = c03.obj(r, e, extra=r.random() < .1)
        if r.random() < .2: o = c03.wrong(r, o)
        return o
    def message():
        t = r.choice(["EVENT", "REQ", "REQ", "CLOSE", "AUTH", "COUNT"])
        if t in ("EVENT", "AUTH"): m = [t, event()]
        else:
            m = [t, subid()]
            if t != "CLOSE":
                for _ in range(r.choice([0, 1, 1, 2, 3, 9, 10, 11])):
                    f = c21.members(r, True)
                    if r.random() < .03: f = c21.members(r)
                    for k in list(f):
                        if isinstance(f[k], list) and len(f[k]) > 20 and r.random() < .9: f[k] = f[k][:3]
                        if k == "search" and len(f[k]) > 1000 and r.random() < .8: f[k] = "q"
                    m.append(c21.spoil(r, f) if r.random() < .04 else f)
                if len(m) > 7 and r.random() < .3: m[r.choice([len(m) - 1, r.randrange(2, len(m))])] = {r.choice(["ids", "authors", "#e", "#p"]): [r.choice(["", "g", "A" * 64, "0" * 65, "0" * 64 + "g"])], "kinds": [1]}
        k = r.random()
        if k < .03: m[0] = r.choice(["event", "Req", "REQ ", "", "EVENTX", "OK", "EOSE", "NOTICE", "EVEN", "REQ\0", 1, None, ["REQ"]])
        elif k < .06: m = m[:r.randrange(len(m))]
        elif k < .09: m.append(r.choice([1, "x", None, {}, []]))
        elif k < .11: m.insert(r.choice([0, 1, 2]), r.choice(["x", 1, None, {}]))
        elif k < .12: return {"0": m}
        return m
    def body(d):
        for i in range(ctx.n(450, 8000)):
            texts = []
            for _ in range(8):
                t = jtext(r, message()).encode("utf-8", "surrogatepass"); k = r.random()
                if k < .12: t = gen.mutate(r, t, b'{}[]",:#e0123456789.- \\u00')
                elif k < .18: t = r.choice([t + b"x", t + b"]", t + b" " + t, t + b",", t + b"\0", b" \n" + t + b"\r\n ", t[:-1], t[1:], b"[" + t + b"]", t + b"[]", b"x" + t])
                elif k < .24: t = t[:r.randrange(1, len(t) + 1)]
                if t: texts.append(t)
            out = d.many([["cm.parse", hx(t), r.randrange(4) if b"\0" not in t else 2 * r.randrange(2)] for t in texts])
            for t, o in zip(texts, out):
                want, c = read(t)
                if want is None: ctx.count("not_judged"); continue
                ctx.seen(("parse", t), t); ctx.count("parse_" + want)
                if o["r"]:
                    ctx.check(want != "ok", "refused", lambda: "%r refused: %s" % (t[:1500], o), d)
                    ctx.check("event" not in o and "sub" not in o and not o["nf"] and "filters" not in o and o["type"] == 5, "content-after-error", lambda: "%r: %s" % (t[:1500], o), d)
                elif ctx.check(want != "bad", "accepted", lambda: "%r read as %s" % (t[:1500], o), d):
                    x = differs(o, c); ctx.check(x is None, "reads:%s" % x, lambda: "%r: %s wrong in %s" % (t[:1500], x, o), d)
                    ctx.count("read_%d" % c["type"])
        # every truncation of one message of each type: nothing past the given length is read
        for m in (["EVENT", event()], ["REQ", "s", {"kinds": [1], "#t": ["\u00e9"]}], ["CLOSE", "abc"], ["COUNT", "q", {"search": "x"}]):
            t = jtext(r, m).encode("utf-8", "surrogatepass")
            for k, o in enumerate(d.many([["cm.parse", hx(t[:k]), 0] for k in range(1, len(t))]), 1):
                w, _ = read(t[:k]); ctx.seen(("cut", t[:k]))
                ctx.check(w != "bad" or o["r"] != 0, "truncation-accepted", lambda: "%r: %s" % (t[:k], o), d)
        ctx.check(d.cmd("rm.null")["r"] == 0, "null-arguments", "rm.null", d)
        ctx.leaks(d, "messages")
    d = ctx.driver("asan"); ctx.guard(d, body)
