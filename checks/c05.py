"""C05: hex codecs."""
from lib import gen
from lib.drv import hx
HX = b"0123456789abcdefABCDEF"
def ishex(s, n): return len(s) == 2 * n and all(c in HX for c in s)
def run(ctx):
    r = ctx.rng
    ctx.rule = "hex string or byte buffer passed to one codec, result compared with an independent codec; output buffers exactly sized and bounds-checked by ASan; distinct by (codec, input, size)"
    def hexes(n):
        """strings around the required length with one questionable character anywhere"""
        b = gen.rb(r, n).hex().encode()
        yield b; yield b.upper(); yield bytes(c if r.random() < .5 else bytes([c]).upper()[0] for c in b)
        for i in range(2 * n):
            for c in (r.choice(b"gGzZ`@/:"), r.choice(b" +-x_.\t\n%"), r.randrange(1, 256)):
                yield b[:i] + bytes([c]) + b[i+1:]
            if r.random() < .3: yield b[:i] + b"\xc3\xa1" + b[i+2:]
        for x in (b"", b"0", b[:-1], b[:-2], b + b"0", b + b"00", b" " + b, b + b" ", b"0x" + b, b"0x" + b[2:], b[:2*n-1] + b"\n", b * 2, b + b"\n"): yield x
        for i in range(0, 2 * n, 2):
            for p in (b"+1", b"-1", b" 1", b"0x", b"1 ", b"1g", b"g1", b"\t1"): yield b[:i] + p + b[i+2:]
    def keys(d):
        for _ in range(ctx.n(2, 20)):
            L = list(hexes(32)); cmds = []
            for s in L: cmds += [["key.fromhex", hx(s)], ["priv.fromhex", hx(s)], ["hex.decode", hx(s), 32], ["hex.to_bytes", hx(s), 32]]
            out = d.many(cmds)
            for i, s in enumerate(L):
                ok = ishex(s, 32); ctx.count("hex64_valid" if ok else "hex64_invalid")
                for nm, o in (("key_from_hex", out[4*i]), ("privkey_from_hex", out[4*i+1])):
                    ctx.seen((nm, s), (nm, s, ok))
                    ctx.check((o["r"] == 0) == ok, nm + "-verdict", "%s(%r)=%s" % (nm, s, o["r"]), d)
                    if ok: ctx.check(o["o"] == s.decode().lower(), nm + "-value", "%r -> %s" % (s, o["o"]), d)
                    if ok and nm == "key_from_hex":
                        t = d.many([["key.tohex", hx(bytes.fromhex(o["o"])), m] for m in (0, 1, 64, 65, 66)] + [["priv.tohex", hx(bytes.fromhex(o["o"])), m] for m in (0, 1, 64, 65, 66)])
                        for j, x in enumerate(t):
                            m = (0, 1, 64, 65, 66)[j % 5]
                            if m < 65: ctx.check(x["r"] != 0 and x["o"] == "a5" * m, "small-buffer-written", "%d %s" % (m, x), d)
                            else: ctx.check(x["r"] == 0 and x["o"][:130] == (s.lower() + b"\0").hex(), "to_hex", "%d %s" % (m, x), d)
                any_ok = len(s) % 2 == 0 and all(c in HX for c in s) and len(s) <= 64
                for nm, o, good in (("hex_decode", out[4*i+2], o_ok(s)), ("hex_to_bytes", out[4*i+3], any_ok)):
                    n = len(s) // 2
                    ctx.seen((nm, s))
                    res = o["r"] == (n if nm == "hex_decode" else 0)
                    if good and not (nm == "hex_decode" and n == 0): ctx.check(res and o["o"][:2*n] == s.decode().lower() and o["o"][2*n:] == "a5" * (32 - n), nm + "-value", "%s(%r)=%s" % (nm, s, o), d)
                    if not good: ctx.check(o["r"] < 0 if nm == "hex_decode" else o["r"] != 0, nm + "-verdict", "%s(%r)=%s" % (nm, s, o["r"]), d)
    def o_ok(s): return len(s) % 2 == 0 and all(c in HX for c in s) and len(s) <= 64
    d = ctx.driver(); ctx.guard(d, keys)
    def raw(d):
        for n in list(range(0, 70)) + [255, 256, 1000]:
            for _ in range(ctx.n(2, 12)):
                b = gen.rb(r, n); h = b.hex().encode()
                o = d.many([["hex.encode", hx(b)], ["hex.from_bytes", hx(b)]])
                for x in o: ctx.seen(("enc", b)); ctx.check(x["o"] == (h + b"\0").hex(), "encode", "%r -> %s" % (b, x), d)
                for m in {n, n + 1, max(0, n - 1), 0}:
                    for src in (h, h.upper(), h + b"0", h[:-1] if h else b"1"):
                        o = d.many([["hex.decode", hx(src), m], ["hex.to_bytes", hx(src), m]])
                        even = len(src) % 2 == 0; k = len(src) // 2; fits = k <= m
                        for nm, x in (("hex_decode", o[0]), ("hex_to_bytes", o[1])):
                            ctx.seen((nm, src, m)); ctx.count(nm)
                            if even and fits:
                                if k: ctx.check((x["r"] == k if nm == "hex_decode" else x["r"] == 0) and x["o"] == src.decode().lower() + "a5" * (m - k), nm + "-raw", "%s(%r,%d)=%s" % (nm, src, m, x), d)
                            elif even: ctx.check((x["r"] < 0 if nm == "hex_decode" else x["r"] != 0) and x["o"] == "a5" * m, nm + "-small-buffer", "%s(%r,%d)=%s" % (nm, src, m, x), d)
                            else: ctx.check(x["r"] < 0 if nm == "hex_decode" else x["r"] != 0, nm + "-odd", "%s(%r,%d)=%s" % (nm, src, m, x), d)
        # one questionable character anywhere in a long string
        for _ in range(ctx.n(150, 3000)):
            n = r.choice([33, 64, 65, 100, 128, 129, 255, 256, 300, 512, 1000, 2000, 5000]); b = gen.rb(r, n); src = bytearray(b.hex().encode()); i = r.choice([r.randrange(2 * n), 2 * n - 1, 2 * n - 2]); src[i] = r.choice(b"gG@`/:Z z+-\n\x80\xff"); src = bytes(src)
            for nm, x in zip(("hex_decode", "hex_to_bytes"), d.many([["hex.decode", hx(src), n], ["hex.to_bytes", hx(src), n]])): ctx.seen((nm, src)); ctx.count("long_invalid"); ctx.check(x["r"] < 0 if nm == "hex_decode" else x["r"] != 0, nm + "-long", lambda: "%s accepted %d characters with %r at %d" % (nm, 2 * n, src[i:i+1], i), d)
        # all two-character strings through every decoder
        for a in range(1, 256):
            L = [bytes([a, b]) for b in (range(1, 256) if not ctx.quick else r.sample(range(1, 256), 40) + [48, 57, 65, 70, 71, 97, 102, 103, 64, 96, 47, 58])]
            out = d.many([["hex.decode", hx(s), 1] for s in L] + [["hex.to_bytes", hx(s), 1] for s in L])
            for s, x, y in zip(L, out, out[len(L):]):
                ok = all(c in HX for c in s); ctx.seen(("pair", s))
                ctx.check((x["r"] == 1) == ok and (not ok or x["o"] == s.decode().lower()), "hex_decode-pair", "%r %s" % (s, x), d)
                ctx.check((y["r"] == 0) == ok and (not ok or y["o"] == s.decode().lower()), "hex_to_bytes-pair", "%r %s" % (s, y), d)
        # relay-side validators: lowercase only, as NIP-01 requires
        for _ in range(ctx.n(2, 20)):
            for s in hexes(32):
                o = d.cmd("valid.hex", hx(s)); lo = all(c in b"0123456789abcdef" for c in s); ctx.seen(("v", s))
                ctx.check(o["hex64"] == (lo and len(s) == 64) and o["prefix"] == (lo and 1 <= len(s) <= 64), "validate_hex", "%r %s" % (s, o), d)
                ctx.check(o["subid"] == (1 <= len(s) <= 64 and all(32 <= c <= 126 for c in s)), "validate_subscription_id", "%r %s" % (s, o), d)
        for nm in ("key.fromhex", "priv.fromhex"): ctx.check(d.cmd(nm, "-")["r"] != 0, "null", nm, d)
        d.reset(); ctx.leaks(d, "hex")
    ctx.guard(d, raw)
    def kp(d):
        from oracle import ec
        for _ in range(ctx.n(1, 6)):
            L = [s for s in hexes(32)]
            out = d.many([["kp.fromhex", hx(s)] for s in L])
            for s, o in zip(L, out):
                ok = ishex(s, 32) and ec.valid_priv(bytes.fromhex(s.decode())); ctx.seen(("kp", s))
                ctx.check((o["r"] == 0) == ok, "keypair_from_private_hex", "%r %s" % (s, o["r"]), d)
                if ok: ctx.check(o["priv"] == s.decode().lower(), "keypair-value", "%r %s" % (s, o), d)
        p = gen.priv(r); q = ec.pub(p)
        for m in (0, 1, 64, 65, 100):
            o = d.cmd("kp.export", hx(p), hx(q), 1, m); ctx.seen(("export", m))
            if m < 65: ctx.check(o["r"] != 0 and o["r2"] != 0 and o["priv"] == "a5" * m == o["pub"], "export-small", "%s" % o, d)
            else: ctx.check(o["r"] == 0 and o["r2"] == 0 and o["priv"][:130] == (p.hex().encode() + b"\0").hex() and o["pub"][:130] == (q.hex().encode() + b"\0").hex(), "export", "%s" % o, d)
    ctx.guard(d, kp)
