"""C15: NIP-18 reposts and quotes, NIP-25 reactions."""
import re
from lib import gen
from lib.drv import hx, hl
from oracle import b32
from checks import c07
HEX = re.compile(rb"[0-9a-fA-F]{64}")
def quotes(content):
    """q tags NIP-18 asks for, from an independent reading of the text"""
    out = []; pos = 0; pat = re.compile(rb"nostr:((note|nevent|naddr)1[a-z0-9]*)")
    while True:
        m = pat.search(content, pos)
        if not m: return out
        pos = m.start() + 1
        dec = b32.decode(m[1])
        if dec is None or dec[0] != m[2].decode(): continue
        t, pay = dec
        if t == "note":
            if len(pay) == 32: out.append([b"q", pay.hex().encode(), b"", b""])
            continue
        w = c07.interpret(t, pay)
        if w[0] == "err": continue
        if w[0] == "any": return None
        o = w[1]; rl = bytes.fromhex(o["relays"][0]) if o["relays"] else b""
        if t == "nevent": out.append([b"q", o["id"].encode(), rl, o["author"].encode() if o["ha"] else b""])
        else: out.append([b"q", b"%d:%s:%s" % (o["kind"], o["pk"].encode(), bytes.fromhex(o["ident"])), rl, b""])
def run(ctx):
    r = ctx.rng
    ctx.rule = "repost/reaction built or parsed, or quote scan of a text; expected tags and references computed independently; distinct by (operation, arguments or event)"
    def hid(bad=.12):
        b = gen.hexid(r)
        return b if r.random() >= bad else r.choice([b[:-1], b + b"0", b.upper(), b[:63] + b"g", b"", b" " + b[1:], b + b"\n", b"0x" + b[2:]])
    def relay(): return r.choice([b"", b"wss://r.example/x", b"wss://" + b"b" * 120, gen.text(r, 20)])
    def refs(e, reaction):
        """(id, pk, relay of the same e tag, kind or None if not judged)"""
        E = [(t[1], t[2] if len(t) > 2 else b"") for t in e.tags if len(t) > 1 and t[0] == b"e" and HEX.fullmatch(t[1])]
        P = [t[1] for t in e.tags if len(t) > 1 and t[0] == b"p" and HEX.fullmatch(t[1])]
        K = [t[1] for t in e.tags if len(t) > 1 and t[0] == b"k"]
        good = [int(k) for k in K if re.fullmatch(rb"[0-9]{1,18}", k) and int(k) <= 65535]
        kind = good[-1] if good else 0
        if len(good) > 1 or len(K) > 1: kind = None
        if any(re.fullmatch(rb"[0-9]{19,}", k) for k in K) and good: kind = None
        return (E[-1] if E else None), (P[-1] if P else b""), kind
    def reftags():
        L = []
        for _ in range(r.choice([0, 1, 1, 1, 2, 3] if r.random() < .97 else [10, 40, 120])): L.append(([b"e", hid(.25)] + r.choice([[], [relay()], [relay(), gen.hexid(r)], [relay(), gen.hexid(r)] + [b"y"] * r.randrange(1, 8)]))[:r.choice([1, 2, 3, 4, 4, 4, 20])])
        for _ in range(r.choice([0, 1, 1, 1, 2] if r.random() < .97 else [9, 33, 70])): L.append([b"p", hid(.25)] + r.choice([[], [relay()], [relay()], [b"", gen.text(r, 5)] + [b"x"] * r.randrange(1, 8)]))
        for _ in range(r.choice([0, 1, 1])): L.append([b"k", r.choice([b"1", b"0", b"30023", b"65535", b"65536", b"70000", b"131073", b"-1", b"+7", b" 7", b"7x", b"", b"0x10", b"99999999999999999999", b"18446744073709551617"])])
        r.shuffle(L); return L
    def parsed(d, slot, e):
        rep = e.kind in (6, 16); rea = e.kind == 7
        a, b = d.many([["n18.parse", slot, 65, 65, 256, 0], ["n25.parse", slot, len(e.content) + 1, 65, 65, 0]])
        id_, pk, kind = refs(e, rea)
        ctx.seen(("parse", e.key())); ctx.count("kind%s" % (e.kind if e.kind in (6, 7, 16) else "other"))
        for ok, o, nm in ((rep, a, "repost"), (rea, b, "reaction")):
            if not ok or not id_:
                ctx.check(o["r"] != 0, nm + "-accepts", lambda: "%s from %s" % (o, e.view()), d); continue
            good = o["r"] == 0 and o["id"] == id_[0].hex() and o["pk"] == pk.hex() and "unterminated" not in o
            if nm == "repost":
                good = good and o["relay"] == id_[1].hex()
                if e.kind == 16 and kind is not None: good = good and o["kind"] == kind
                if e.kind == 6 and not any(t[0] == b"k" for t in e.tags): good = good and o["kind"] == 1
            else: good = good and o["content"] == e.content.hex() and (kind is None or o["kind"] == kind)
            ctx.check(good, nm + "-parse", lambda: "%s expected %s from %s" % (o, (id_, pk, kind), e.view()), d)
        # small buffers are never overrun (sanitizer) and null outputs are allowed
        s = [r.choice([0, 1, 2, 64, 65]) for _ in range(3)]
        o = d.many([["n18.parse", slot] + s + [0], ["n25.parse", slot] + s + [0], ["n18.parse", slot, 1, 1, 1, 1], ["n25.parse", slot, 1, 1, 1, 1]])
        ctx.check(all("unterminated" not in x for x in o), "unterminated", "%s" % o, d)
        ctx.check((o[2]["r"] == 0) == (rep and bool(id_)) and (o[3]["r"] == 0) == (rea and bool(id_)), "null-output-verdict", "%s" % o, d)
        l = d.cmd("n25.like", slot)
        if rea: ctx.check(l["ra"] == l["rb"] == 0 and l["like"] == int(e.content in (b"", b"+")) and l["dislike"] == int(e.content == b"-"), "like", "%s %r" % (l, e.content), d)
        else: ctx.check(l["ra"] and l["rb"], "like-kind", "%s" % l, d)
    def body(d):
        for i in range(ctx.n(1500, 25000)):
            # reposts
            a = [hid(), hid(), relay(), r.choice([1, 1, 0, 6, 7, 30023, 65535, 2**r.randrange(16), 2**r.randrange(1, 17) - 1, r.randrange(65536)]), gen.text(r, 40) if r.random() < .4 else None, r.choice([None, b"", gen.text(r, 80), b'{"id":"x"}'])]
            if a[4] is not None and r.random() < .1: a[4] = b"d" * r.choice([100, 400, 2000])
            if r.random() < .03: a[r.randrange(3)] = None
            o = d.cmd("n18.create", 0, hx(a[0]), hx(a[1]), hx(a[2]), a[3], hx(a[4]), hx(a[5])); ctx.seen(("repost", tuple(a)), "repost %s" % a)
            ok = all(x is not None and HEX.fullmatch(x) for x in a[:2]) and a[2] is not None
            if not ok: ctx.check(o["r"] != 0 and not o["dangling"], "repost-accepts", lambda: "%s: %s" % (a, o), d)
            else:
                k = 6 if a[3] == 1 else 16
                want = [[b"e", a[0], a[2]], [b"p", a[1]]] + ([[b"k", b"%d" % a[3]]] if k == 16 else []) + ([[b"a", b"%d:%s:%s" % (a[3], a[1], a[4])]] if a[4] is not None else [])
                if ctx.check(o["r"] == 0 and o["e"]["kind"] == k and sorted(o["e"]["tags"]) == sorted([[v.hex() for v in t] for t in want]) and o["e"]["content"] in ((a[5] or b"").hex(),) , "repost", lambda: "%s: %s" % (a, o), d):
                    p = d.cmd("n18.parse", 0, 65, 65, len(a[2]) + 1, 0)
                    ctx.check(p["r"] == 0 and p["id"] == a[0].hex() and p["pk"] == a[1].hex() and p["relay"] == a[2].hex() and p["kind"] == a[3], "repost-roundtrip", lambda: "%s: %s" % (a, p), d)
            # reactions
            a = [r.choice([None, b"+", b"-", b"", "🤙".encode(), b":soapbox:", gen.text(r, 30)] if r.random() < .96 else [gen.text(r, 3000), b"-" * r.randrange(2, 30), b"x" * r.choice([255, 256, 1023, 1024, 1500, 4096, 20000])]), hid(), hid(), relay() if r.random() < .5 else None, r.choice([0, 1, 30023, 65535, 2**r.randrange(16), 2**r.randrange(1, 17) - 1, r.randrange(65536)])]
            if r.random() < .03: a[r.choice([1, 2])] = None
            o = d.cmd("n25.create", 1, hx(a[0]), hx(a[1]), hx(a[2]), hx(a[3]), a[4]); ctx.seen(("reaction", tuple(a)))
            ok = all(x is not None and HEX.fullmatch(x) for x in a[1:3])
            if not ok: ctx.check(o["r"] != 0 and not o["dangling"], "reaction-accepts", lambda: "%s: %s" % (a, o), d)
            else:
                want = [[b"e", a[1], a[3] or b"", a[2]], [b"p", a[2]] + ([a[3]] if a[3] is not None else [])] + ([[b"k", b"%d" % a[4]]] if a[4] else [])
                c = a[0] if a[0] is not None else b"+"
                if ctx.check(o["r"] == 0 and o["e"]["kind"] == 7 and sorted(o["e"]["tags"]) == sorted([[v.hex() for v in t] for t in want]) and o["e"]["content"] == c.hex(), "reaction", lambda: "%s: %s" % (a, o), d):
                    p = d.cmd("n25.parse", 1, len(c) + 1, 65, 65, 0)
                    ctx.check(p["r"] == 0 and p["id"] == a[1].hex() and p["pk"] == a[2].hex() and p["kind"] == a[4] and p["content"] == c.hex(), "reaction-roundtrip", lambda: "%s: %s" % (a, p), d)
            # arbitrary events
            e = gen.event(r, 2); e.tags = [t for t in e.tags if t[0] not in (b"e", b"p", b"k")]; L = reftags()
            for t in L: e.tags.insert(r.randrange(len(e.tags) + 1), t)
            e.kind = r.choice([6, 16, 7, 6, 16, 7, 1, 0, 8, 17, 262, 65535]); 
            if e.kind == 7: e.content = r.choice([b"", b"+", b"-", b"++", b"+ ", b"--", b"\xe2\x9e\x95", gen.text(r, 50), r.choice([b"+", b"-"]) + gen.text(r, 50), r.choice([b"+", b"-"]) * r.randrange(2, 300)])
            d.many([e.build(2), e.setall(2)]); parsed(d, 2, e)
            # quotes
            if i % 2 == 0:
                parts = []
                for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
                    t = r.choice(["note", "nevent", "naddr", "npub", "nprofile"])
                    if t in ("note", "npub"): b = gen.rb(r, 32 if r.random() < .9 else r.choice([0, 31, 33]))
                    else:
                        rel = [c07.url(r) for _ in range(r.choice([0, 0, 1, 3]))]; k, kb = gen.rb(r, 32), r.choice([1, 30023, 65535, 2**32 - 1]).to_bytes(4, "big")
                        if t == "naddr": it = [(0, r.choice([b"", b"i" * 255, gen.text(r, 30)]))] + [(1, u) for u in rel] + [(2, k), (3, kb)]
                        else: it = [(0, k)] + [(1, u) for u in rel] + ([(2, gen.rb(r, 32))] if r.random() < .5 else []) + ([(3, kb)] if r.random() < .5 else [])
                        if r.random() < .1: it.pop(r.randrange(len(it)))
                        b = b32.tlv(it)
                    s = b32.encode(t, b).encode()
                    if r.random() < .1: s = gen.mutate(r, s, b32.CH.encode())
                    pre = b"nostr:" if r.random() < .9 else r.choice([b"", b"nostr", b"Nostr:", b"nostr::", b"nostr:nostr:"])
                    parts.append(pre + s); parts.append(r.choice([b" ", b"", b"\n", b",", b".", b"x", b"1", b"-", b"/", gen.text(r, 15)]))
                c = gen.text(r, 10) + b"".join(parts); w = quotes(c); e = gen.event(r, 3); e.content = c
                d.many([e.build(3), e.setall(3)]); o, g = d.many([["n18.quote", 3], ["ev.get", 3]])
                if w is not None:
                    ctx.seen(("quote", c), "%d quotes" % len(w)); ctx.count("quotes", len(w)); e.tags += w
                    ctx.check(o["r"] == 0 and g["e"] == e.view(), "quote-tags", lambda: "%r: %s expected %s" % (c, g["e"]["tags"], e.view()["tags"]), d)
            if i % 50 == 0: d.reset()
        d.reset(); ctx.leaks(d, "nip18/25")
    for cfg in ("asan",) if ctx.quick else ("asan", "asan-mbed"):
        d = ctx.driver(cfg); ctx.guard(d, body)
