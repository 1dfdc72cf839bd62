"""C18: NIP-05 identifiers, URLs and response documents."""
import json, re
from lib import gen
from lib.drv import hx
from checks.c03 import jtext
class Pairs(list):
    """object with possibly repeated members"""
    def items(self): return list(self)
def parse_id(s):
    """('ok',name,domain) | ('bad',) | ('any',)"""
    m = re.fullmatch(rb"([a-zA-Z0-9._-]+)@([^@]*)", s, re.S)
    if not m: return ("bad",)
    n, d = m[1], m[2]
    if len(n) > 64: return ("bad",)
    if not re.fullmatch(rb"[a-zA-Z0-9.-]+", d): return ("bad",)
    lab = d.split(b".")
    if len(lab) < 2 or b"" in lab or len(d) > 256: return ("bad",)
    if len(d) > 253 or any(len(l) > 63 or l[:1] == b"-" or l[-1:] == b"-" for l in lab): return ("any", n.lower(), d.lower())
    return ("ok", n.lower(), d.lower())
def read(text, name):
    """set of admissible outcomes: list of ('ok', pk, relays|None) / ('err',); None if the text is not judged"""
    try: s = text.decode("utf-8")
    except UnicodeDecodeError: return None
    try: o = json.loads(s, object_pairs_hook=Pairs, parse_constant=lambda x: 1 / 0, strict=True)
    except (ValueError, ZeroDivisionError): return [("err",)]
    except RecursionError: return None
    if any(0xd800 <= ord(c) < 0xe000 for c in str(o)): return None
    if not isinstance(o, Pairs): return [("err",)]
    out = []
    for nm in [v for k, v in o if k == "names"] or [None]:
        if not isinstance(nm, Pairs): out.append(("err",)); continue
        for pk in [v for k, v in nm if k == name] or [None]:
            if not isinstance(pk, str) or not re.fullmatch(r"[0-9a-fA-F]{64}", pk): out.append(("err",)); continue
            for rl in [v for k, v in o if k == "relays"] or [None]:
                L = [v for k, v in rl if k == pk] if isinstance(rl, Pairs) else []
                F = [v for k, v in rl if k != pk and k.lower() == pk.lower()] if isinstance(rl, Pairs) else []
                for l in (L or [None]) + F:
                    if not isinstance(l, list) or isinstance(l, Pairs): out.append(("ok", pk.lower(), [])); continue
                    urls = [u for u in l if isinstance(u, str) and re.match(r"wss?://", u) and len(u) >= 6 and "\0" not in u]
                    if sum(isinstance(u, str) for u in l) > 100: out.append(("err",))
                    out.append(("ok", pk.lower(), urls))
                if F and not L: out.append(("ok", pk.lower(), []))
    return out
def run(ctx):
    r = ctx.rng
    ctx.rule = "identifier, URL or response document offered to the NIP-05 functions; outcome predicted by an independent identifier grammar and Python's json; distinct by (operation, text, name)"
    NC = "abcdefghijklmnopqrstuvwxyz0123456789-_."
    def name(n=None): return "".join(r.choice(NC) for _ in range(n or r.choice([1, 1, 3, 5, 10, 20, 63, 64])))
    def dom(): return ".".join("".join(r.choice("abcxyz019-") if 0 < i < 4 else r.choice("abcxyz019") for i in range(r.choice([1, 2, 5, 5]))) for _ in range(r.choice([2, 2, 3, 4])))
    def ident():
        n, d = name(), dom(); k = r.random()
        if k < .15: n = "".join(c.upper() if r.random() < .5 else c for c in n)
        if k < .1: d = d.upper()
        if .2 < k < .25: n = name(r.choice([64, 65, 66, 100]))
        if .25 < k < .33: d = ".".join("a" * r.choice([20, 40, 62, 63]) for _ in range(r.choice([4, 5, 6])))[:r.choice([250, 252, 253, 254, 255, 256, 257, 258, 300])]
        s = (n + "@" + d).encode()
        if .33 < k < .4:
            L = [c for c in (name(r.choice([2, 20, 63])) + "@" + ".".join("a" * r.choice([3, 20, 60]) for _ in range(r.choice([2, 4, 6, 9])))[:250])]; at = L.index("@"); j = r.randrange(len(L)) if r.random() < .5 else r.randrange(max(0, len(L) - 60), len(L))
            if r.random() < .8: L[j] = r.choice(["..", "..", "..", "_", "@", "/", "\x80", " ", ".", "", "%", ":", "\x7f"])
            s = "".join(L).encode("latin-1")
        if .4 < k < .7: s = gen.mutate(r, s, b"@@..-_ /:%#?A\n\xe9")
        if .7 < k < .75: s = r.choice([d.encode(), b"@" + d.encode(), n.encode() + b"@", b"", b"@", s + b"@x.y", b" " + s, s + b"\n", s + b":8080", s + b"/", s + b".", n.encode() + b"@." + d.encode(), n.encode() + b"@" + d.encode().replace(b".", b"..", 1), n.encode() + b"@localhost", b"a+b@" + d.encode()])
        return s
    def url():
        return r.choice(["wss://", "ws://", "wss://", "wss://", "https://", "WSS://", "ws:", "", "x wss://"]) + r.choice(["r.example", "a", "", "r.example/[x]", "r.example/,", "r.example/\"q\"", "é.example", "h/\\", "h:80/p?q=1", "x" * 300, "h/ ", "]", "{\"names\":{}}", "h/\b\f\r\t\n/", "h/\x01\x1f\x7f", "h/" + "".join(r.choice(gen.UNI) for _ in range(4))])
    def key(bad=.15):
        k = gen.hexid(r).decode(); b = r.random()
        if b < bad: return r.choice([k[:-1], k + "0", k[:63] + "g", "", "0x" + k[2:], " " + k[1:], k + "\n", k[:32] + "\u00e9" + k[34:], k[:62] + "\u00e9", None, 1, [k], Pairs([("x", k)]), k[:63] + "\"", True])
        if b < bad + .1: return k.upper()
        return k
    def doc(nm):
        """a document with the interesting tokens in and out of place"""
        pk = key(); real = pk if isinstance(pk, str) else gen.hexid(r).decode(); other = gen.hexid(r).decode()
        names = Pairs([(name(), key()) for _ in range(r.choice([0, 1, 2, 4]))])
        def lst():
            if r.random() < .08: return ["wss://r%d.example" % j for j in range(r.choice([98, 99, 100, 101, 102]))]
            if r.random() < .06: return ["wss://" + "l" * r.choice([10, 58, 100, 250, 1000]) + r.choice(["", "", "\0", "\0x", "x" * 70, "\u00e9", "\x1f"]) + "m" * r.choice([0, 3, 90]) for _ in range(3)]
            return [r.choice([url(), url(), url(), url(), 1, None, [url()], Pairs([("u", url())])]) if r.random() < .15 else url() for _ in range(r.choice([0, 1, 2, 3, 5, 99, 100] if r.random() < .9 else [101, 150]))] 
        def decoy():
            return r.choice([Pairs([(nm, other)]), nm, "names", [nm, other], Pairs([("names", Pairs([(nm, other)]))]), [Pairs([("names", Pairs([(nm, other)])), ("relays", Pairs([(real, ["wss://decoy.example"])]))])], Pairs([("relays", Pairs([(real, ["wss://decoy.example"])]))]),
                "\"names\":{\"%s\":\"%s\"}" % (nm, other), "\\\"names\\\"", "\\", Pairs([(real, ["wss://decoy.example"])]), "relays", real, other, 1, None, -1.5e3, 0, -0.0, 12.25, 12.25, 12.25, 1.5e-300, 1e+22, 100000000000000000000, True, False, {}, [], "", "\b\f\r\n\t/", "".join(gen.UNI)])
        if r.random() < .75: names.append((nm, pk))
        near = r.randrange(len(nm)) if r.random() < .5 else len(nm) - 1; near = nm[:near] + r.choice(NC) + nm[near + 1:]
        if r.random() < .15: names.append((r.choice([nm.upper(), nm + " ", nm[:-1], nm + "x", near, near, near, "names", "relays", "", "\"" + nm, nm + "\\"]), other))
        if r.random() < .2: names.append((name(), Pairs([(nm, other)])))
        if r.random() < .06: names.append((nm, other))
        r.shuffle(names)
        rel = Pairs([(key(0), lst()) for _ in range(r.choice([0, 0, 1, 2]))])
        if r.random() < .7: rel.append((real, lst()))
        if r.random() < .2: rel.append((r.choice([real[:-1], real + "0", "x", "relays", other]), r.choice([[real], Pairs([(real, ["wss://decoy.example"])]), ["wss://decoy.example"]])))
        if r.random() < .05: rel.append((real.swapcase(), ["wss://case.example"]))
        if r.random() < .05: rel.append((real, r.choice([None, "wss://x.y", Pairs([("a", "wss://x.y")]), ["wss://dup.example"]])))
        r.shuffle(rel)
        o = Pairs()
        if r.random() < .93: o.append(("names", names if r.random() < .95 else r.choice([None, [nm, pk], "x", 1, [names], nm])))
        if r.random() < .8: o.append(("relays", rel if r.random() < .95 else r.choice([None, [], "wss://x.y", [rel]])))
        for _ in range(r.choice([0, 0, 1, 2])): o.append((r.choice(["names ", "Names", "name", "relay", "Relays", "x", nm, real, "nip46", "", "\"names\"", "a\\"]), decoy()))
        if r.random() < .04: o.append(("names", Pairs([(nm, other)])))
        r.shuffle(o)
        return o
    def ev_resp(d, op, t, nm, want, o, m):
        if want is None: return
        ok = False
        for w in want:
            if w[0] == "err": ok = ok or (o["r"] != 0 and not o.get("dangling"))
            elif o["r"] == 0 and o.get("pk", w[1].encode().hex()) == w[1].encode().hex() and (m != 3 or o["relays"] == [u.encode().hex() for u in w[2]]): ok = True
        if "lone" in o: ok = ok and not o["lone"]
        ctx.check(ok, op, lambda: "%s for name %r in %r; admissible %s" % (o, nm, t[:3000], [x[:2] for x in want]), d)
    def body(d):
        for i in range(ctx.n(2500, 40000)):
            s = ident(); w = parse_id(s); a, b = r.choice([(65, 257)] * 6 + [(r.choice([0, 1, 2, 5, 64]), 257), (65, r.choice([0, 1, 3, 4, 8, 256]))])
            if r.random() < .3 and w[0] != "bad": a, b = len(w[1]) + r.choice([0, 1]), len(w[2]) + r.choice([0, 1, 1])
            o = d.cmd("n5.parse", hx(s), a, b); ctx.seen(("id", s, a, b), s); ctx.count("id:" + w[0])
            if w[0] == "bad": ctx.check(o["r"] != 0, "identifier-accepted", lambda: "%r: %s" % (s, o), d)
            else:
                fits = len(w[1]) < a and len(w[2]) < b
                if not fits: ctx.check(o["r"] != 0, "identifier-truncated", lambda: "%r into %d,%d: %s" % (s, a, b, o), d)
                elif w[0] == "ok": ctx.check(o["r"] == 0, "identifier-rejected", lambda: "%r into %d,%d: %s" % (s, a, b, o), d)
                if o["r"] == 0: ctx.check((o["name"], o["domain"]) == (w[1].hex(), w[2].hex()), "identifier-parts", lambda: "%r: %s" % (s, o), d)
            if w[0] == "ok":
                u = b"https://" + w[2] + b"/.well-known/nostr.json?name=" + w[1]
                x, y = d.many([["n5.url", hx(w[1]), hx(w[2]), len(u) + 1], ["n5.url", hx(w[1]), hx(w[2]), len(u)]])
                ctx.seen(("url", u)); ctx.check(x["r"] == 0 and x["url"] == u.hex() and y["r"] != 0, "url", lambda: "%r: %s %s" % (u, x, y), d)
            nm = name(); o = doc(nm); t = jtext(r, o)
            if r.random() < .3: t = t.replace("12.25", r.choice(["01", "-", "1.", ".5", "1e", "+1", "0x1", "1e+", "-01", "00", "1.e5", "1e5.5", "--1", "Infinity", "-0", "0.0e-0", "9" * 400, "tru", "nul", "True", "nulll"]))
            if r.random() < .05: n = r.randrange(1, 40); t = t.replace("12.25", '[{"x":' * (n // 2) + "[" * (n & 1) + "1" + "]" * (n & 1) + "}]" * (n // 2)); ctx.count("nested")
            t = t.encode("utf-8", "surrogatepass")
            if r.random() < .12: t = gen.mutate(r, t, b'{}[]",:\\ \n')
            if r.random() < .05: t += r.choice([b"x", b"{}", b",", b"}", b" \n", b"null"])
            if b"\0" in t: continue
            want = read(t, nm); ctx.count("doc:" + ("unjudged" if want is None else "/".join(sorted({w[0] for w in want}))))
            m = r.choice([3, 3, 3, 0, 1, 2]); ctx.seen(("doc", t, nm, m), "%s in %r" % (nm, t[:150]))
            ev_resp(d, "response", t, nm, want, d.cmd("n5.resp", hx(t), hx(nm), r.choice([65, 65, 66, 100]), m), m)
            if i % 9 == 0:
                o = d.cmd("n5.resp", hx(t), hx(nm), r.choice([0, 1, 64]), 3); ctx.check(o["r"] != 0, "small-key-buffer", "%s" % o, d)
            # verification
            dm = dom(); mode = r.choice([0] * 12 + [1, 2, 3]); ks = [w[1] for w in want or [] if w[0] == "ok"]
            exp = r.choice(ks) if ks and r.random() < .6 else r.choice([gen.hexid(r).decode(), "", "zz", (ks or ["0" * 64])[0][:63], (ks or ["0" * 64])[0] + "0", nm] + re.findall("[0-9a-f]{64}", t.decode("utf-8", "replace"))[:4])
            if r.random() < .1: exp = exp.upper()
            nid = "".join(c.upper() if r.random() < .1 else c for c in nm) + "@" + dm
            v = d.cmd("n5.verify", hx(nid), hx(exp), hx(t), mode, m); ctx.seen(("verify", t, nm, exp, mode)); ctx.count("verify:%d" % (v["r"] == 0))
            ctx.check(v["calls"] == 1 and v["url"] == ("https://%s/.well-known/nostr.json?name=%s" % (dm, nm)).encode().hex() and v["ud"], "fetches-one-url", lambda: "%s -> %s" % (nid, v), d)
            if mode or not t: ctx.check(v["r"] != 0, "verify-without-document", "%s" % v, d)
            elif want is not None: ev_resp(d, "verify", t, nm + " expecting " + exp, [w if w[0] == "ok" and w[1] == exp.lower() else ("err",) for w in want], v, m)
            # a document cut short is never an answer
            if i % 10 == 0 and want and any(x[0] == "ok" for x in want) and t.strip()[-1:] == b"}" and want != [("err",)]:
                c = t.rstrip()[:-1]; c = c[:r.randrange(len(c) + 1)]
                if c.strip():
                    v = d.cmd("n5.verify", hx(nm + "@" + dm), hx(exp), hx(c), 0, 3); ctx.seen(("cut", c)); ctx.check(v["r"] != 0, "truncated-document", lambda: "%r: %s" % (c, v), d)
            if i % 100 == 0:
                v = d.cmd("n5.verify", hx(s), hx("0" * 64), hx(t), 0, 3); ctx.check(w[0] != "bad" or (v["r"] != 0 and v["calls"] == 0), "verify-bad-identifier", lambda: "%r: %s" % (s, v), d)
                d.reset()
        nm = "bob"; pk = gen.hexid(r).decode(); base = '{"names":{"bob":"%s"},"x":"' % pk
        for n in (2**20 - len(base) - 2, 2**20 - len(base) - 1, 2**20):
            t = (base + "y" * n + '"}').encode(); o = d.cmd("n5.resp", hx(t), hx(nm), 65, 3); ctx.seen(("big", n)); ctx.check((o["r"] == 0) == (len(t) <= 2**20), "size-limit", "%d bytes: %s" % (len(t), o["r"]), d)
        d.reset(); ctx.leaks(d, "nip05")
    for cfg in ("asan",) if ctx.quick else ("asan", "nojson"):
        d = ctx.driver(cfg); ctx.guard(d, body)
