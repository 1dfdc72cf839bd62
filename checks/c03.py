"""C03: event JSON in both directions, strict oracle = Python's json."""
import json
from lib import gen
from lib.drv import hx
def strict(b):
    """('ok', Event) | ('bad',) | ('skip', why): what the text means under NIP-01 / RFC 8259"""
    try: s = b.decode("utf-8")
    except UnicodeDecodeError: return ("skip", "invalid utf-8")
    dup = []
    def pairs(ps):
        if len({k for k, _ in ps}) != len(ps): dup.append(1)
        return dict(ps)
    def const(x): raise ValueError("constant")
    try: o = json.loads(s, object_pairs_hook=pairs, parse_constant=const, strict=True)
    except RecursionError: return ("skip", "deep")
    except ValueError:
        return ("skip", "lexical") if lenient(b) else ("bad",)
    if dup: return ("skip", "duplicate member")
    if any(0xd800 <= ord(c) < 0xe000 for c in json.dumps(o, ensure_ascii=False)): return ("skip", "lone surrogate")
    if not isinstance(o, dict): return ("bad",)
    def hexf(k, n, req):
        if k not in o: return None if not req else False
        v = o[k]
        if not isinstance(v, str) or len(v) != 2 * n or any(c not in "0123456789abcdefABCDEF" for c in v): return False
        return bytes.fromhex(v)
    pk = hexf("pubkey", 32, True); i = hexf("id", 32, False); g = hexf("sig", 64, False)
    if pk is False or i is False or g is False: return ("bad",)
    for k in ("created_at", "kind", "tags", "content"):
        if k not in o: return ("bad",)
    c, k, t, x = o["created_at"], o["kind"], o["tags"], o["content"]
    for v in (c, k):
        if isinstance(v, float):
            if v == int(v) if v == v and abs(v) < 1e300 else False: return ("skip", "integral float")
            return ("bad",)
        if isinstance(v, bool) or not isinstance(v, int): return ("bad",)
    if abs(c) > 2**53 - 1: return ("bad",) if abs(c) > 2**53 else ("skip", "2^53")
    if not 0 <= k <= 65535: return ("bad",)
    if not isinstance(t, list) or not isinstance(x, str): return ("bad",)
    for e in t:
        if not isinstance(e, list) or not e or not all(isinstance(v, str) for v in e): return ("bad",)
    if "\0" in x or any("\0" in v for e in t for v in e): return ("bad",)
    if has_nul(o): return ("skip", "NUL in an unknown member")
    en = lambda z: z.encode("utf-8")
    return ("ok", gen.Event(pk, c, k, [[en(v) for v in e] for e in t], en(x), i or b"\0" * 32, g or b"\0" * 64))
def has_nul(v): return "\0" in v if isinstance(v, str) else any(map(has_nul, v)) if isinstance(v, list) else any(has_nul(k) or has_nul(x) for k, x in v.items()) if isinstance(v, dict) else False
def lenient(b):
    """the strict parser refuses it, but only for lexical reasons this library is not judged on"""
    import re
    s = b.decode("utf-8", "replace")
    # raw control characters or DEL inside strings, unusual whitespace, number spelling, leading BOM
    t = "".join(" " if ord(c) < 32 else c for c in s)
    if t.startswith("\ufeff"): t = t[1:]
    t = re.sub(r'(?<![\w"\\])([-+]?)(\d[\d.eE+-]*)', "1", t)
    try: json.loads(t); return True
    except ValueError: return False
def jtext(r, v):
    """the same value with free choice of whitespace and escapes"""
    ws = lambda: "".join(r.choice(" \t\n\r") for _ in range(r.choice([0, 0, 0, 1, 3])))
    if isinstance(v, str):
        o = '"'; pe = r.choice((.12,) * 17 + (0, 0, 1))
        for ch in v:
            c = ord(ch); k = r.random()
            esc = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t", "\b": "\\b", "\f": "\\f"}
            def u(c): h = "%04x" % c; return "\\u" + (h.upper() if r.random() < .4 else h)
            if ch in esc: o += esc[ch] if k < .7 else u(c)
            elif c < 32: o += u(c)
            elif ch == "/" and k < .4: o += "\\/"
            elif k < pe:
                if c > 0xffff: c -= 0x10000; o += u(0xd800 + (c >> 10)) + u(0xdc00 + (c & 1023))
                else: o += u(c)
            else: o += ch
        return o + '"'
    if isinstance(v, bool) or v is None: return json.dumps(v)
    if isinstance(v, (int, float)): return repr(v)
    if isinstance(v, list) and not hasattr(v, "items"): return "[" + ws() + (ws() + "," + ws()).join(jtext(r, x) for x in v) + ws() + "]"
    return "{" + ws() + (ws() + "," + ws()).join(jtext(r, k) + ws() + ":" + ws() + jtext(r, x) for k, x in v.items()) + ws() + "}"
def obj(r, e, shuffle=True, extra=False):
    d = lambda b: b.decode("utf-8")
    o = dict(id=e.id.hex(), pubkey=e.pk.hex(), created_at=e.created, kind=e.kind, tags=[[d(v) for v in t] for t in e.tags], content=d(e.content), sig=e.sig.hex())
    for k in ("id", "pubkey", "sig"):
        if r.random() < .15: o[k] = o[k].upper()
    if extra: o[r.choice(["x", "relay", "ids", "Kind2", "seen_on", ""])] = r.choice([1, None, "a", ["id"], {"id": "x"}, {"kind": 5}, [["e", "x"]]])
    ks = list(o); r.shuffle(ks) if shuffle else None
    return {k: o[k] for k in ks}
BADHEX = ["", "0", "g" * 64, "0" * 63, "0" * 65, " " + "0" * 63, "0x" + "0" * 62, "+1" * 32, "0" * 62 + "\n0", "0" * 128, "0" * 127, "z" + "0" * 127, "ab" * 31 + "a ", "ab" * 63 + "é"]
def wrong(r, o):
    """objects near the NIP-01 shape"""
    o = dict(o); k = r.choice(list(o)); m = r.randrange(9)
    BAD = [None, True, False, 1, -1, 65536, 70000, 2**53 + 2, 2**63, 2**64, 1e300, 0.5, 1.5, -0.5, "", "1", [], {}, [[]], [["e"], []], [["e", 1]], [["e", None]], ["e"], "e", [["e", ["x"]]], [{"e": 1}], {"0": ["e"]}]
    if m < 3: o[k] = r.choice(BAD)
    elif m == 3: del o[k]
    elif m == 4:
        h = r.choice(["id", "pubkey", "sig"]); v = list(o.get(h) or "00")
        if isinstance(o.get(h), str):
            c = r.randrange(4)
            if c == 0: v[r.randrange(len(v))] = r.choice("gGxX -+.:/@`\u00e9\t")
            elif c == 1: v.pop()
            elif c == 2: v.append("0")
            else: v = list(r.choice(BADHEX))
            o[h] = "".join(v)
    elif m == 5: o[r.choice(["created_at", "kind"])] = r.choice([-1, 65535, 65536, 65537, 131071, 2**31, 2**32, 2**32 + 1, -2**31, 2**53 - 1, -2**53 + 1, 2**53 + 2, 2**63, -2**63, 1.25, 3.5, 10**30])
    elif m == 6: v = o.pop(k); o[k.upper() if r.random() < .5 else k.capitalize()] = v
    elif m == 7: o["tags"] = [["e", "x"], r.choice([[], ["a", 1], None, "p", [None], [["n"]], {}])]
    else: o["content" if r.random() < .5 else "tags"] = r.choice(["a\0b", [["e\0", "x"]]])
    return o
def run(ctx):
    r = ctx.rng
    ctx.rule = "JSON text offered to the event parsers, or event serialized, with the verdict and all fields predicted by an independent strict parser; distinct by text"
    def reads(d, texts):
        cmds = []
        for t in texts: cmds += [["ev.fromjson", 1, hx(t)], ["ev.parse", 2, hx(t)]]
        out = d.many(cmds)
        for i, t in enumerate(texts):
            w = strict(t)
            for nm, o in (("from_json", out[2*i]), ("parse", out[2*i+1])):
                ctx.seen((nm, t), t[:120]); ctx.count(nm + ":" + w[0])
                if o["r"]: ctx.check(not o["dangling"], "error-leaves-event:" + nm, lambda: "error %s but an event pointer was returned for %r" % (o, t[:1500]), d)
                if w[0] == "bad": ctx.check(o["r"] != 0, "accepts-malformed:" + nm, lambda: "accepted %r as %s" % (t[:3000], o), d)
                if w[0] == "ok":
                    if ctx.check(o["r"] == 0, "rejects-wellformed:" + nm, lambda: "rejected %r with %s" % (t[:3000], o["r"]), d):
                        ctx.check(o["e"] == w[1].view(), "fields-differ:" + nm, lambda: "parsed %r as %s, expected %s" % (t[:3000], o["e"], w[1].view()), d)
    def writes(d, e):
        out = d.many([e.build(0), e.setall(0), ["ev.tojson", 0], ["ev.get", 0]])
        ctx.seen(("w", e.key())); ctx.count("to_json")
        if not ctx.check(out[2]["r"] == 0, "to_json-fails", "%s" % e.view(), d): return
        t = bytes.fromhex(out[2]["json"])
        try: o = json.loads(t.decode("utf-8"))
        except ValueError as x: return ctx.violation("to_json-malformed", "%r: %s" % (t[:3000], x), None, d)
        want = json.loads(json.dumps(obj(gen_fixed, e, False)))
        for k in ("id", "pubkey", "sig"): want[k] = want[k].lower()
        ctx.check(o == want and all(type(o[k]) is type(want[k]) for k in want), "to_json-fields", lambda: "json %r expected %r" % (t[:3000], want), d)
        ctx.check(out[3]["e"] == e.view(), "to_json-alters-event", "", d)
        n = len(t)
        s = d.many([["ev.serialize", 0, n + 1, 1], ["ev.serialize", 0, n, 1], ["ev.serialize", 0, 1, 0], ["ev.serialize", 0, n + 7, 0]])
        ctx.check(s[0]["r"] == 0 and bytes.fromhex(s[0]["s"]) == t and s[0]["len"] == n, "serialize", lambda: "%s vs %r" % (s[0], t), d)
        ctx.check(s[1]["r"] != 0 and s[2]["r"] != 0 and s[3]["r"] == 0, "serialize-size", lambda: "%s" % s, d)
        if abs(e.created) <= 2**53 - 1:
            reads(d, [t])
    class F:
        random = staticmethod(lambda: .99); shuffle = staticmethod(lambda x: None); choice = staticmethod(lambda x: x[0])
    gen_fixed = F()
    def ok8(e): return gen.utf8(e.content) and all(gen.utf8(v) for t in e.tags for v in t)
    def body(d):
        for b in list(range(1, 128)):
            writes(d, gen.Event(content=bytes([b]) * 2, tags=[[b"t", bytes([b])]]))
        for c in gen.TIMES + [2**53 - 1, -(2**53) + 1, 2**53 + 1, 2**63 - 1, -2**63]: writes(d, gen.Event(created=c))
        for c in gen.UNI + ["\ud7ff", "\ue000", "\uffff", "\U00010000", "\x7f", "\x80", "\u07ff", "\u0800"]: writes(d, gen.Event(content=c.encode()))
        d.reset()
        for i in range(ctx.n(400, 6000)):
            e = gen.event(r, clen=r.choice([10, 60, 60, 600]))
            if not ok8(e): continue
            writes(d, e)
            texts = [jtext(r, obj(r, e, True, r.random() < .3)).encode("utf-8") for _ in range(2)]
            o = obj(r, e)
            for k in ("id", "sig"):
                if r.random() < .3: o.pop(k, None)
            texts.append(jtext(r, o).encode())
            for _ in range(4): texts.append(jtext(r, wrong(r, obj(r, e))).encode("utf-8", "surrogatepass"))
            base = json.dumps(obj(r, e), ensure_ascii=r.random() < .5).encode()
            for _ in range(4): texts.append(gen.mutate(r, base, b'{}[]",:\\0123456789truefalsn '))
            texts += [base[:r.randrange(len(base))], base + r.choice([b"x", b",", b"}", b" {}", b"\"", b"[]", b"null"]), base + r.choice([b" ", b"\n\t", b"\r\n"]), b"[" + base + b"]", b" \n" + base]
            reads(d, texts)
            if i % 50 == 0: d.reset()
        d.reset(); ctx.leaks(d, "json")
    d = ctx.driver(); ctx.guard(d, body)
    def misc(d):
        T = [b"", b" ", b"null", b"true", b"1", b'""', b"[]", b"{}", b"{", b"}", b"[{}]", b'{"id":"' + b"0" * 64 + b'"}', b"{" * 2000, b"[" * 5000, b'{"a":' * 3000 + b"1" + b"}" * 3000]
        reads(d, T)
        base = gen.event(r); base.content = b"c"; base.tags = [[b"e", b"x"]]
        for k in ("id", "pubkey", "sig"):
            for h in BADHEX:
                o = obj(gen_fixed, base); o[k] = h; reads(d, [json.dumps(o, ensure_ascii=False).encode()])
            for i in range(0, 64 if k != "sig" else 128):
                for ch in "g`G/:@ -+x":
                    o = obj(gen_fixed, base); v = list(o[k]); v[i] = ch; o[k] = "".join(v); reads(d, [json.dumps(o).encode()])
                if ctx.quick and i % 8: continue
        for kv in range(0, 65536 + 3, ctx.n(1213, 41)):
            o = obj(gen_fixed, base); o["kind"] = kv; reads(d, [json.dumps(o).encode()])
        # tags with many values, and values of many lengths
        for n in (15, 16, 17, 31, 32, 33, 34, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 5000):
            o = obj(gen_fixed, base); o["tags"] = [["a"], ["t"] + ["v%d" % i for i in range(n - 1)], ["z", "last"]]; reads(d, [json.dumps(o).encode()]); ctx.count("many_values")
            o = obj(gen_fixed, base); o["tags"] = [["t", "v" * n, "w" * (n - 1)], ["u" * n, ""]]; reads(d, [json.dumps(o).encode()])
        # an escape that means NUL, or none at all, wherever it stands
        for at in (0, 1, 100, 1000, 2047, 2048, 4090, 5000, 9000, 40000, 70000):
            for esc in ["\\u0000", "\\u000", "\\u00g0", "\\x00"] + ["\\u0041"[:2 + i] + c + "0041"[i+1:] for i in range(4) for c in r.sample("gGhzZ/:@`xX _-+\u00e9", 4)] + ["\\\\u0000", "\\\\\\\\u0000", "\\u0001", "\\u00010", "\\u1000", "\\\\\\u0000"]:
                for where in ("content", "tag", "other"):
                    if where == "other" and at > 100: continue
                    t = json.dumps(dict(obj(gen_fixed, base), **{"content": "@@", "tags": [["t", "##"]], "x": "%%"})).replace("@@" if where == "content" else "##" if where == "tag" else "%%", "y" * at + esc + "end"); reads(d, [t.encode()]); ctx.count("escapes")
        for i in range(4):
            for c in "gGhzZ/:@`xX _-+":
                t = json.dumps(dict(obj(gen_fixed, base), content="@@")).replace("@@", "\\u" + "0041"[:i] + c + "0041"[i+1:]); reads(d, [t.encode()])
                t = json.dumps(dict(obj(gen_fixed, base), content="@@")).replace("@@", "\\u" + "0000"[:i] + c + "0000"[i+1:]); reads(d, [t.encode()])
        for n in (300, 3000):
            o = obj(gen_fixed, base); o["tags"] = [["t", str(i)] + ["v"] * (i % 7) for i in range(n)]; reads(d, [json.dumps(o).encode()])
        o = obj(gen_fixed, base); o["content"] = "é\n" * ctx.n(20000, 200000); reads(d, [json.dumps(o, ensure_ascii=False).encode()])
        # the length argument alone delimits the text
        t = json.dumps(obj(gen_fixed, base)).encode()
        for cut in range(1, len(t), ctx.n(7, 1)):
            o = d.cmd("ev.parse", 2, hx(t[:cut])); ctx.seen(("cut", cut)); ctx.check(o["r"] != 0 and not o["dangling"], "prefix-accepted", "prefix of %d bytes accepted" % cut, d)
        for at in (0, 5, len(t) // 2, len(t)):
            o = d.cmd("ev.parse", 2, hx(t[:at] + b"\0" + t[at:])); ctx.seen(("nul", at)); ctx.check(o["r"] != 0, "embedded-nul-accepted", "NUL at %d" % at, d)
        d.reset(); ctx.leaks(d, "json")
    ctx.guard(d, misc)
