"""C11: NIP-49 encrypted private keys."""
import concurrent.futures as cf, random
from lib import gen, core, drv
from lib.drv import hx
from oracle import b32, n49
def run(ctx):
    ctx.rule = "ncryptsec string and password presented to decrypt/validate, or encrypt output opened by an independent scrypt+XChaCha20-Poly1305 implementation; distinct by (operation, string, password)"
    PW = [b"p", b"nostr", b"correct horse", "\u212b\u03a9\u1e9b\u0323".encode(), "\u00c5\u03a9\u1e69".encode(), b"x" * 300, b"\xff\xfe", b" lead", b"a" * 64, b"a" * 65]
    def work(d, r, n, costs):
        for i in range(n):
            priv = gen.priv(r); pw = r.choice(PW + [gen.text(r, 40) or b"z"]); ln = r.choice(costs)
            o = d.cmd("n49.enc", hx(priv), hx(pw), ln, r.choice([163, 164, 300])); ctx.seen(("enc", priv, pw, ln), "cost %d password %r" % (ln, pw[:30])); ctx.count("cost_%d" % ln)
            if not ctx.check(o["r"] == 0 and o["nul"], "encrypt-fails", lambda: "cost %d: %s" % (ln, o), d): continue
            s = bytes.fromhex(o["o"]); x = b32.decode(s); p = x[1] if x else b""
            ctx.check(len(s) == 162 and x is not None and x[0] == "ncryptsec" and len(p) == 91 and p[0] == 2 and p[1] == ln and p[42] in (0, 1, 2), "encrypt-format", "%r %s" % (s, p.hex()), d)
            key = n49.kdf(pw, p[2:18], ln); ctx.check(n49.xopen(key, p[18:42], p[42:43], p[43:]) == priv, "encrypt-not-interoperable", lambda: "key %s password %r: %r" % (priv.hex(), pw, s), d)
            o = d.cmd("n49.dec", hx(s), hx(pw)); ctx.check(o["r"] == 0 and o["o"] == priv.hex(), "roundtrip", "%s" % o, d)
            # independently made strings, including the other security bytes and every malformed variant (same derived key, so only the library pays the KDF)
            salt = gen.rb(r, 16); nonce = gen.rb(r, 24); key = n49.kdf(pw, salt, ln); p2 = gen.priv(r)
            def mk(ks=2, ver=2, log=ln, aad=None, pt=p2): return bytes([ver, log]) + salt + nonce + bytes([ks]) + n49.xseal(key, nonce, bytes([ks]) if aad is None else aad, pt)
            good = [mk(0), mk(1), mk(2)]
            for g in good[:2] if i % 2 else good[2:]:
                w = n49.encode(g); o = d.cmd("n49.dec", hx(w), hx(pw)); ctx.seen(("dec", w, pw)); ctx.count("independent_strings")
                ctx.check(o["r"] == 0 and o["o"] == p2.hex(), "decrypt-independent", lambda: "%r with %r: %s expected %s" % (w, pw, o, p2.hex()), d)
                ctx.check(d.cmd("n49.val", hx(w))["r"] == 0, "validate-rejects", "%r" % w, d)
            bad = []
            for j in r.sample(range(91), 3) + r.sample(list(range(43, 91)), 2): b = bytearray(good[2]); b[j] ^= 1 << r.randrange(8); bad.append(("byte%d" % j, bytes(b), pw))
            bad += [("aad", mk(2, aad=b""), pw), ("swap-ks", good[2][:42] + b"\1" + good[2][43:], pw)]
            for q in (gen.mutate(r, pw), pw + b"\0"[:0] + b" ", pw[:-1] or b"q", pw.swapcase()):
                if q and q != pw: bad.append(("password", good[2], q))
            # well encrypted, but with a security byte or a cost outside the ranges the format allows
            k15 = n49.kdf(pw, salt, 15)
            bad += [("security", mk(r.choice([3, 3, 4, 127, 255])), pw), ("cost15", bytes([2, 15]) + salt + nonce + b"\2" + n49.xseal(k15, nonce, b"\2", p2), pw), ("version", mk(2, ver=r.choice([1, 3])), pw)]
            # a tag that is wrong only towards its end, under each security byte
            for g in good: b = bytearray(g); b[r.randrange(87, 91)] ^= 1 << r.randrange(8); bad.append(("tag-end", bytes(b), pw))
            for lab, b, q in r.sample(bad[:-6], 4) + bad[-6:]:
                if b[1] > 17: continue
                w = n49.encode(b); o = d.cmd("n49.dec", hx(w), hx(q)); ctx.seen(("bad", w, q), "%s" % lab); ctx.count("tampered")
                ctx.check(o["r"] != 0, "accepts-tampered:" + lab, lambda: "%r with %r: %s" % (w, q, o), d)
                ctx.check(p2.hex() not in o["o"] and priv.hex() not in o["o"], "key-leaked-on-error", "%s" % o, d)
    def cheap(d, r):
        """rejections that never reach the KDF"""
        for i in range(ctx.n(60, 1500)):
            p = bytes([2, 16]) + gen.rb(r, 40) + bytes([r.choice([0, 1, 2])]) + gen.rb(r, 48); w = n49.encode(p)
            ctx.check(d.cmd("n49.val", hx(w))["r"] == 0, "validate-rejects", "%r" % w, d); ctx.seen(("val", w))
            L = []
            for v in (0, 1, 3, 255): L.append(("version", bytes([v]) + p[1:]))
            for c in (0, 1, 15, 23, 24, 31, 63, 64, 255): L.append(("cost", p[:1] + bytes([c]) + p[2:]))
            for k in (3, 4, 128, 255): L.append(("security", p[:42] + bytes([k]) + p[43:]))
            for n in (0, 1, 90, 92, 93, 96, 50): L.append(("length", (p + gen.rb(r, 9))[:n]))
            S = [(a, n49.encode(b)) for a, b in L]
            S += [("hrp", b32.encode(h, p).encode()) for h in ("nsec", "npub", "ncryptse", "ncryptsecx", "Ncryptsec", "ncryptsec1")]
            S += [("trunc", w[:r.randrange(len(w))]), ("append", w + b"q"), ("append", w + bytes([r.randrange(1, 256)])), ("prefix", b" " + w), ("prefix", b"nostr:" + w), ("empty", b""), ("hrponly", b"ncryptsec1"), ("long", b"ncryptsec1" + b"q" * 400), ("mixed", w[:50].upper() + w[50:]), ("dup", w + w)]
            d5 = b32.to5(p); t = d5[:-1] + [d5[-1] | r.choice([1, 2, 4])] if True else None
            pad = len(d5) * 5 - 91 * 8
            if pad: S.append(("padding", b32.enc5("ncryptsec", d5[:-1] + [d5[-1] | 1]).encode()))
            for _ in range(6): m = gen.mutate(r, w, b32.CH.encode()); S.append(("mutated", m))
            for a, s in S:
                x = b32.decode(s)
                if s != s.lower() and s == s.upper(): continue
                if x and x[0] == "ncryptsec" and len(x[1]) == 91 and x[1][0] == 2 and 16 <= x[1][1] <= 22 and x[1][42] <= 2 and s == s.lower(): continue
                o = d.many([["n49.val", hx(s)], ["n49.dec", hx(s), hx(b"pw")]]); ctx.seen(("cheap", s), "%s %r" % (a, s[:60])); ctx.count("malformed_" + a)
                ctx.check(o[0]["r"] != 0, "validate-accepts:" + a, "%r" % s, d); ctx.check(o[1]["r"] != 0, "decrypt-accepts:" + a, "%r" % s, d)
            k = gen.priv(r)
            for cmd in (["n49.enc", hx(k), hx(b"pw"), c, 200] for c in (0, 1, 15, 23, 64, 255)): o = d.cmd(*cmd); ctx.seen(tuple(cmd)); ctx.check(o["r"] != 0, "encrypt-cost", "%s" % cmd, d)
            for sz in (0, 1, 100, 161, 162): o = d.cmd("n49.enc", hx(k), hx(b"pw"), 16, sz); ctx.seen(("sz", sz)); ctx.check(o["r"] != 0, "encrypt-small-buffer", "%d" % sz, d)
            for q in (b"", None): o = d.many([["n49.enc", hx(k), hx(q), 16, 200], ["n49.dec", hx(w), hx(q)]]); ctx.seen(("pw", q)); ctx.check(o[0]["r"] != 0 and o[1]["r"] != 0, "empty-password", "%s" % o, d)
            if i % 20 == 0: d.reset()
        d.reset(); ctx.leaks(d, "nip49")
    d = ctx.driver(); ctx.guard(d, cheap, ctx.sub("cheap"))
    env = {"ASAN_OPTIONS": drv.SAN_ENV["ASAN_OPTIONS"].replace("max_allocation_size_mb=2048", "max_allocation_size_mb=12000")}
    N = 6; ds = [ctx.driver("asan" if j % 2 == 0 else "asan-mbed", env=env, timeout=300) for j in range(N)]
    ctx.max_viol = 3
    def one(j): ctx.guard(ds[j], work, ctx.sub("w%d" % j), ctx.n(4, 60), [16, 16, 17] if ctx.quick else [16, 16, 17, 18, 19])
    with cf.ThreadPoolExecutor(N) as ex: 
        for f in [ex.submit(one, j) for j in range(N)]: f.result()
    if not ctx.quick: ctx.guard(ds[0], work, ctx.sub("big"), 2, [20, 21]); ctx.guard(ds[0], work, ctx.sub("max"), 1, [22])
