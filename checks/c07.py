"""C07: NIP-19 TLV pointers and nostr: URIs."""
from lib import gen
from lib.drv import hx, hl
from oracle import b32
def url_ok(u): return 6 <= len(u) < 256 and (u.startswith(b"wss://") or u.startswith(b"ws://")) and all(0x21 <= c <= 0x7e for c in u)
def url(r, n=None):
    p = r.choice([b"wss://", b"ws://"]); n = n or r.choice([6, 7, 10, 20, 20, 40, 60, 254, 255])
    return p + bytes(r.choice(b"abcdefghij.klm/-:0123?=&%~") for _ in range(max(1, n - len(p))))
TYPES = ("nprofile", "nevent", "naddr", "nrelay")
def interpret(t, payload):
    """('err',) | ('ok', fields) | ('any',) from an independent TLV reading. 'any': repeated or wrong-size optional records, unspecified by NIP-19."""
    recs = b32.untlv(payload)
    if recs is None or not recs: return ("err",)
    sp = [v for k, v in recs if k == 0]; rel = [v for k, v in recs if k == 1]; au = [v for k, v in recs if k == 2]; ki = [v for k, v in recs if k == 3]
    relays = [u.hex() for u in rel if url_ok(u)][:16]
    if t in ("nprofile", "nevent"):
        if not sp or any(len(v) > 32 for v in sp) or all(len(v) != 32 for v in sp): return ("err",)
        if len(set(sp)) > 1: return ("any", recs)
        o = dict(t=t.encode().hex(), relays=relays); o["pk" if t == "nprofile" else "id"] = sp[0].hex()
        if t == "nevent":
            if len(set(au)) > 1 or len(set(ki)) > 1 or any(len(v) != 32 for v in au) or any(len(v) != 4 for v in ki): return ("any", recs)
            o["ha"] = len(au[:1]); o["hk"] = len(ki[:1])
            if au: o["author"] = au[0].hex()
            if ki: o["kind"] = int.from_bytes(ki[0], "big")
        return ("ok", o)
    if t == "naddr":
        if not any(len(v) == 32 for v in au) or not any(len(v) == 4 for v in ki): return ("err",)
        if len(sp) != 1 or len(set(au)) > 1 or len(set(ki)) > 1: return ("any", recs)
        if b"\0" in sp[0]: return ("err",)
        return ("ok", dict(t=t.encode().hex(), ident=sp[0].hex(), pk=au[0].hex(), kind=int.from_bytes(ki[0], "big"), relays=relays))
    if not sp or all(len(v) == 0 for v in sp): return ("err",)
    if len(set(sp)) > 1: return ("any", recs)
    if b"\0" in sp[0]: return ("err",)
    return ("ok", dict(t=t.encode().hex(), url=sp[0].hex()))
def strip(o): return {k: v for k, v in o.items() if k not in ("r", "nul")}
def run(ctx):
    r = ctx.rng
    ctx.rule = "pointer value encoded, or bech32/URI text parsed, compared field by field with an independent TLV codec; distinct by (type, payload or text)"
    def enc_args(t):
        nr = r.choice([0, 0, 1, 2, 5, 15, 16]); rel = [url(r) for _ in range(nr)]
        if r.random() < .12: rel = [url(r, r.randrange(180, 256)) for _ in range(r.randrange(11, 17))]
        k = gen.rb(r, 32); kind = r.choice(gen.KINDS + [2**32 - 1, 2**31, 65536]); kb = kind.to_bytes(4, "big")
        if t == "nprofile": return [hx(k), hl(rel)], [(0, k)] + [(1, u) for u in rel]
        if t == "nevent":
            a = gen.rb(r, 32) if r.random() < .5 else None; hk = r.random() < .5
            return [hx(k), hl(rel), hx(a), kind if hk else "-"], [(0, k)] + [(1, u) for u in rel] + ([(2, a)] if a else []) + ([(3, kb)] if hk else [])
        if t == "naddr":
            ident = r.choice([b"", gen.text(r, 40), gen.text(r, 250)[:255], b"i" * 254, b"j" * 255, gen.rb(r, 255).replace(b"\0", b"z"), b"a" + b"q" * 200])
            return [hx(ident), hx(k), kind, hl(rel)], [(0, ident)] + [(1, u) for u in rel] + [(2, k), (3, kb)]
        u = url(r) if r.random() < .8 else gen.text(r, 60) or b"x"
        return [hx(u)], [(0, u)]
    def parse(d, t, text, payload, label):
        """payload None: the text itself must be refused"""
        out = d.many([["n19.dec", t, hx(text)], ["uri.parse", hx(b"nostr:" + text)]])
        w = interpret(t, payload) if payload is not None else ("err",)
        ctx.count("parse_" + w[0])
        for nm, o in zip(("decode", "uri"), out):
            ctx.seen((nm, t, text), "%s %s %r" % (t, label, text[:80]))
            if w[0] == "err": ctx.check(o["r"] != 0, "accepts-invalid:%s:%s" % (t, label), lambda: "%s of %r (payload %s) gave %s" % (nm, text, payload and payload.hex(), o), d)
            elif w[0] == "ok":
                ctx.check(o["r"] == 0 and strip(o) == w[1], "parse:%s:%s" % (t, label), lambda: "%s of payload %s gave %s expected %s" % (nm, payload.hex(), o, w[1]), d)
            elif o["r"] == 0:
                R = w[1]; sp = [v.hex() for k, v in R if k == 0] + ([""] if t == "naddr" else []); v = o.get("pk") if t == "nprofile" else o.get("id") if t == "nevent" else o.get("ident") if t == "naddr" else o.get("url")
                ok = v in sp and o.get("relays", []) == [u.hex() for k, u in R if k == 1 and url_ok(u)][:16 if t != "nrelay" else 0]
                if o.get("ha") or t == "naddr": ok = ok and (o.get("author") or o.get("pk")) in [x.hex() for k, x in R if k == 2]
                if o.get("hk") or t == "naddr": ok = ok and o["kind"] in [int.from_bytes(x, "big") for k, x in R if k == 3 and len(x) == 4]
                ctx.check(ok, "mixed-records:" + t, lambda: "%s of payload %s gave %s" % (nm, payload.hex(), o), d)
    def body(d):
        for i in range(ctx.n(300, 5000)):
            t = TYPES[i % 4]; a, recs = enc_args(t); pay = b32.tlv(recs); w = b32.encode(t, pay).encode()
            small = [len(w), len(w) - 1, 1, 0, 7]
            out = d.many([["n19.enc", t, len(w) + 1] + a, ["uri.enc", t, len(w) + 7] + a] + [["n19.enc", t, m] + a for m in small] + [["uri.enc", t, m] + a for m in (len(w) + 6, len(w), 6, 0)])
            ctx.seen((t, pay), "%s %s" % (t, recs)); ctx.count("encode_" + t); ctx.count("relays", sum(k == 1 for k, _ in recs))
            for o, pre in ((out[0], b""), (out[1], b"nostr:")):
                if len(pay) > 4000 and o["r"] != 0: ctx.count("refused_over_4000"); continue
                if not ctx.check(o["r"] == 0 and o["nul"], "encode:" + t, lambda: "%s of %s gave %s" % (t, recs, o), d): continue
                s = bytes.fromhex(o["o"]); ctx.check(s.startswith(pre + t.encode() + b"1"), "encode-prefix:" + t, "%r" % s, d)
                # record order is free; the multiset of records and the relay order are not
                x = b32.decode(s[len(pre):]); got = b32.untlv(x[1]) if x else None
                ctx.check(x is not None and x[0] == t and got is not None and sorted(got) == sorted(recs) and [v for k, v in got if k == 1] == [v for k, v in recs if k == 1], "encode-records:" + t, lambda: "%r has records %s expected %s" % (s, got, recs), d)
                parse(d, t, s[len(pre):], x[1] if x else None, "own")
            if len(bytes.fromhex(out[0].get("o", ""))) == len(w):
                for o in out[2:]: ctx.check(o["r"] != 0, "small-buffer:" + t, "%s" % out, d)
            parse(d, t, w, pay, "valid")
            # payload-level mutations with a correct checksum
            for _ in range(6):
                R = [list(x) for x in recs]; m = r.randrange(9)
                if m == 0: R.insert(r.randrange(len(R) + 1), [r.choice([4, 5, 100, 255]), gen.rb(r, r.choice([0, 1, 32, 255]))])
                elif m == 1: R.insert(r.randrange(len(R) + 1), list(r.choice(R)))
                elif m == 2: del R[r.randrange(len(R))]
                elif m == 3: x = r.choice(R); x[1] = x[1][:-1] if r.random() < .5 and x[1] else (x[1] + b"\1")[:255]
                elif m == 4: R.insert(r.randrange(len(R) + 1), [r.choice([0, 2, 3]), gen.rb(r, r.choice([0, 4, 31, 32, 33]))])
                elif m == 5: r.shuffle(R)
                elif m == 6: R.insert(r.randrange(len(R) + 1), [1, r.choice([b"", b"x", b"http://a.b", b"wss:/", b"wss://a b", b"wss://\0a", b"wss://", b"ws://", b"ws://a", b"WSS://a.b", url(r, 255), b"wss://" + b"\xe9", b"wss://a\x7f"])])
                elif m == 7:
                    x = r.choice(R if r.random() < .5 else [y for y in R if y[0] == (0 if t != "nprofile" else 1)] or R); j = r.choice([len(x[1]) // 2, len(x[1]) - 1, 0, r.randrange(len(x[1]) + 1)]) if x[1] else 0
                    c = r.choice([b"\0", b"\0", b"\xe9", b"\x7f", b" ", b"\x1f", b"\x80"]); x[1] = x[1][:j] + c + x[1][j + 1:]
                    x[1] = x[1][:255]
                else: R += [[1, url(r)] for _ in range(r.choice([1, 14, 17, 20]))]
                if r.random() < .15:
                    u = bytearray(url(r, r.randrange(129, 256))); u[r.randrange(6, len(u))] = r.choice([0xe9, 0x80, 0x7f, 0x20, 0x1f, 0xff, 0]); R.insert(r.randrange(len(R) + 1), [1, bytes(u)])
                p2 = b32.tlv(R)
                if len(p2) <= (4096 if t != "nrelay" else 512): parse(d, t, b32.encode(t, p2).encode(), p2, "records%d" % m)
            for _ in range(4):
                m = r.randrange(5)
                p2 = pay[:r.randrange(len(pay))] if m == 0 else pay + gen.rb(r, r.choice([1, 2, 3])) if m == 1 else gen.rb(r, r.choice([0, 1, 2, 34, 36, 100])) if m == 2 else bytes([0, 32]) + pay[2:20] if m == 3 else pay[:1] + bytes([r.randrange(256)]) + pay[2:]
                if p2 and (t != "nrelay" or len(p2) <= 512): parse(d, t, b32.encode(t, p2).encode(), p2, "bytes%d" % m)
            # whole extra five-bit groups, left-over bits, shortened payloads: the checksum verifies but the bytes are not whole
            for q2 in (pay, pay + b32.tlv([(9, bytes(-(len(pay) + 2) % 5))])):
                d5 = b32.to5(q2)
                for e in (d5 + [0], d5 + [0, 0], d5 + [r.randrange(32)], d5[:-1] + [d5[-1] | 1], d5[:-1]):
                    s = b32.enc5(t, e).encode(); x = b32.decode(s); p3 = x[1] if x else None
                    if p3 is None or t != "nrelay" or len(p3) <= 512: parse(d, t, s, p3, "groups")
            # text-level mutations
            for _ in range(4):
                s = gen.mutate(r, w, b32.CH.encode()); x = b32.decode(s)
                if s != s.lower(): continue
                parse(d, t, s, x[1] if x and x[0] == t else None, "text")
            if i % 10 == 0:
                for t2 in TYPES:
                    if t2 != t:
                        ctx.check(d.cmd("n19.dec", t2, hx(w))["r"] != 0, "wrong-type", "%s decoded as %s: %r" % (t, t2, w), d)
                        if t2 != "nrelay" or len(pay) <= 512: parse(d, t2, b32.encode(t2, pay).encode(), pay, "other-type")
                for s in (w, b"Nostr:" + w, b"nostr:" + w[1:], b"nostr:nostr:" + w, b"nostr:" + w + b"?x=1", b"nostr:" + w + b"\n", b"nostr: " + w, b"", b"nostr:", b"web+nostr:" + w, b"nostr:" + w.upper(), b"nostr:n" + w, b"nostr:" + w.replace(b"1", b"2", 1)):
                    o = d.cmd("uri.parse", hx(s)); ctx.seen(("uri", s))
                    if s != b"nostr:" + w.upper(): ctx.check(o["r"] != 0, "uri-accepts", "%r gave %s" % (s, o), d)
                d.reset()
        ctx.leaks(d, "n19")
    d = ctx.driver(); ctx.guard(d, body)
    def simple(d):
        for i in range(ctx.n(60, 800)):
            k = gen.rb(r, 32)
            for t in ("npub", "nsec", "note"):
                w = b"nostr:" + b32.encode(t, k).encode()
                out = d.many([["uri.enc", t, len(w) + 1, hx(k)], ["uri.parse", hx(w)], ["uri.enc", t, len(w), hx(k)], ["uri.enc", t, 6, hx(k)]])
                ctx.seen((t, k)); ctx.count("uri_" + t)
                ctx.check(out[0]["r"] == 0 and bytes.fromhex(out[0]["o"]) == w, "uri-encode:" + t, "%s" % out[0], d)
                ctx.check(out[1]["r"] == 0 and strip(out[1]) == dict(t=t.encode().hex(), k=k.hex()), "uri-parse:" + t, "%s" % out[1], d)
                ctx.check(out[2]["r"] != 0 and out[3]["r"] != 0, "uri-small:" + t, "%s" % out, d)
                for _ in range(4):
                    s = gen.mutate(r, w, b32.CH.encode()); o = d.cmd("uri.parse", hx(s)); x = b32.decode(s[6:], 90) if s[:6] == b"nostr:" else None
                    ctx.seen(("m", s))
                    if s[6:] != s[6:].lower(): continue
                    if not x or x[0] not in ("npub", "nsec", "note") or len(x[1]) != 32:
                        if not x or x[0] not in TYPES: ctx.check(o["r"] != 0, "uri-accepts:" + t, "%r gave %s" % (s, o), d)
                    else: ctx.check(o["r"] == 0 and strip(o) == dict(t=x[0].encode().hex(), k=x[1].hex()), "uri-parse:" + t, "%r %s" % (s, o), d)
        for i in range(ctx.n(60, 800)):        # a NUL anywhere in an identifier of any length
            k = gen.rb(r, 32); n = r.randrange(1, 256); v = bytearray(gen.rb(r, n).replace(b"\0", b"z")); at = r.choice([0, n - 1, r.randrange(n), r.randrange(n // 2, n)])
            for b in (None, 0):
                if b is not None: v[at] = b
                parse(d, "naddr", b32.encode("naddr", b32.tlv([(0, bytes(v)), (2, k), (3, b"\0\0\x75\x30")])).encode(), b32.tlv([(0, bytes(v)), (2, k), (3, b"\0\0\x75\x30")]), "nul-identifier")
                parse(d, "nrelay", b32.encode("nrelay", b32.tlv([(0, bytes(v))])).encode(), b32.tlv([(0, bytes(v))]), "nul-identifier")
        # oversize values are errors, never silently shortened
        k = gen.rb(r, 32)
        for u in (b"wss://" + b"a" * 250, b"wss://" + b"a" * 251, b"wss://" + b"a" * 400):
            for t, a in (("nprofile", [hx(k), hl([url(r), u, url(r)])]), ("nevent", [hx(k), hl([u]), "-", "-"]), ("naddr", [hx(b"d"), hx(k), 30023, hl([u])])):
                o = d.cmd("n19.enc", t, 9000, *a); ctx.seen(("over", t, len(u)))
                if o["r"] == 0:
                    x = b32.untlv(b32.decode(bytes.fromhex(o["o"]))[1]); ctx.check(u in [v for q, v in x if q == 1], "relay-dropped:" + t, "relay of %d bytes silently left out" % len(u), d)
        for n in (255, 254):
            o = d.cmd("n19.enc", "naddr", 9000, hx(b"i" * n), hx(k), 30023, "_"); x = b32.untlv(b32.decode(bytes.fromhex(o["o"]))[1]) if o["r"] == 0 else None
            ctx.seen(("ident", n)); ctx.check(o["r"] == 0 and (0, b"i" * n) in x, "identifier", "%d: %s" % (n, o), d)
        o = d.cmd("n19.enc", "naddr", 9000, hx(b"i" * 256), hx(k), 30023, "_"); ctx.check(o["r"] != 0, "identifier-too-long", "%s" % o, d)
        for t in TYPES: ctx.check(d.cmd("n19.dec", t, "-")["r"] != 0, "null", t, d)
        ctx.check(d.cmd("uri.parse", "-")["r"] != 0, "null", "uri", d)
        big = b32.encode("nprofile", b32.tlv([(0, k)] + [(1, url(r, 255)) for _ in range(15)])).encode()
        d.cmd("n19.dec", "nprofile", hx(big)); d.cmd("n19.dec", "nrelay", hx(b32.encode("nrelay", b32.tlv([(0, b"u" * 255), (9, b"z" * 255)])).encode()))
        for n in (4090, 4096, 4097, 5000, 20000):
            p = (b32.tlv([(0, k)]) + b32.tlv([(9, b"z" * 255)]) * 90)[:n]; d.cmd("n19.dec", "nprofile", hx(b32.encode("nprofile", p).encode())); ctx.seen(("size", n))
        d.reset(); ctx.leaks(d, "n19")
    ctx.guard(d, simple)
