"""C36: NIP-44 and NIP-04 against an independent implementation (noscrypt's place is taken by harness/noscrypt_shim)."""
import base64
from lib import gen
from lib.drv import hx, ub
from oracle import ec, n44
SMALL = [1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 255, 256, 257, 258, 287, 288, 289, 319, 320, 321, 383, 384, 385, 447, 448, 449, 511, 512, 513, 640, 641, 767, 768, 769, 896, 1023, 1024, 1025, 1152, 1153]
BIG = [2047, 2048, 2049, 2305, 4096, 4097, 8192, 8193, 9217, 16384, 16385, 32768, 32769, 36864, 36865, 40961, 57344, 57345, 65472, 65534, 65535]
def run(ctx):
    r = ctx.rng
    ctx.rule = "text encrypted, payload decrypted, or payload altered (at every layer: base64, version, nonce, ciphertext, MAC, padding under a valid MAC), judged by an independent NIP-44/NIP-04; distinct by (operation, keys, input)"
    ctx.assumptions = ["noscrypt is not installed: its functions are provided by a stand-in over libsecp256k1 and OpenSSL; the library's own code (padding, framing, base64, key handling, NIP-04) is the real one"]
    def pair():
        a, b = gen.priv(r), gen.priv(r); return a, b, ec.pub(a), ec.pub(b)
    def text(n):
        k = r.randrange(4)
        if k == 0: return gen.rb(r, n)
        if k == 1: return bytes(n)
        if k == 2: return (b"\xff" * n)
        return (gen.text(r, n + 8).replace(b"\0", b"x") + b"a" * n)[:n]
    def nip44(d, sizes):
        a, b, A, B = pair(); ck = n44.conv(a, B)
        for n in sizes:
            t = text(n); seen = set()
            for rep in range(2 if n < 400 else 1):
                d.cmd("vf.rng", 1, r.randrange(2**60), 0, 0, 1) if rep == 0 else None
                o = d.cmd("nip44.enc", hx(a), hx(B), hx(t)); log = bytes.fromhex(d.cmd("vf.rnglog")["log"]); ctx.seen(("enc", n, t[:64]), "text of %d bytes" % n); ctx.count("encrypted")
                if not ctx.check(o["r"] == 0, "encrypt", "text of %d bytes: %s" % (n, o), d): continue
                s = ub(o["c"]); 
                try: p = base64.b64decode(s, validate=True)
                except Exception: p = b""
                want = n44.encrypt(ck, p[1:33], t) if len(p) > 33 else b""
                ctx.check(s == want, "payload", lambda: "text of %d bytes: payload of %d bytes, the specification's has %d" % (n, len(s), len(want)), d)
                ctx.check(p[1:33] in log, "nonce", "nonce %s was not drawn from the generator" % p[1:33].hex(), d)
                ctx.check(s not in seen, "repeated-payload", "the same payload twice", d); seen.add(s)
                for k, P, who in ((b, A, "recipient"), (a, B, "sender")):
                    o = d.cmd("nip44.dec", hx(k), hx(P), hx(s)); ctx.check(o["r"] == 0 and ub(o["t"]) == t and o["nul"] == 1, "round-trip", lambda: "text of %d bytes, %s: %s" % (n, who, str(o)[:200]), d)
            d.cmd("vf.rng", 0, 0, 0, 0, 0)
            # what others wrote
            t = text(n); s = n44.encrypt(ck, gen.rb(r, 32), t); o = d.cmd("nip44.dec", hx(b), hx(A), hx(s)); ctx.seen(("dec", n, t[:64])); ctx.count("decrypted")
            ctx.check(o["r"] == 0 and ub(o["t"]) == t, "interop", lambda: "payload of a %d byte text: %s" % (n, str(o)[:200]), d)
    def judge(d, k, P, ck, s, label):
        w = n44.decrypt(ck, s); o = d.cmd("nip44.dec", hx(k), hx(P), hx(s)); ctx.seen((label, s, k), label); ctx.count("altered_" + label if w is None else "unaltered")
        if w is None: ctx.check(o["r"] != 0 and o["left"] == 0, "accepted:" + label, lambda: "payload %s: %s" % (s[:300], o), d)
        else: ctx.check(o["r"] == 0 and ub(o["t"]) == w, "interop", lambda: "%s: payload %s: %s" % (label, s[:300], str(o)[:300]), d)
    def forge(d, m):
        for turn in range(m):
            a, b, A, B = pair(); ck = n44.conv(a, B); n = r.choice(SMALL[:30]) if turn > 2 else (1, 33, 65)[turn]; t = text(n); nonce = gen.rb(r, 32); raw = n44.seal(ck, nonce, n44.pad(t)); s = n44.b64(raw)
            J = lambda s, label: judge(d, b, A, ck, s, label)
            J(s, "none")
            for i in r.sample(range(len(raw)), 8) + [0, 1, 32, 33, len(raw) - 33, len(raw) - 32, len(raw) - 1]:
                x = bytearray(raw); x[i] ^= 1 << r.randrange(8); J(n44.b64(bytes(x)), "bit")
            for cut in (1, 2, 3, 32, len(raw) - 98, len(raw) - 97, len(raw) - 1, r.randrange(len(raw))): J(n44.b64(raw[:-cut] if cut > 0 else raw), "cut")
            J(n44.b64(raw + bytes(r.randrange(1, 40))), "extended")
            for v in (0, 1, 3, 255): J(n44.b64(n44.seal(ck, nonce, n44.pad(t), v)), "version")
            # valid MAC, wrong padding
            L = n44.padlen(n); h = lambda l: bytes([l >> 8 & 255, l & 255])
            for p in (h(0) + t + bytes(L - n), h(n) + t + bytes(L - n + 32), h(n) + t + bytes(L - n + 1), h(n) + t, h(L + 1) + t + bytes(L - n), h(65535) + t + bytes(L - n), h(n ^ 32) + t + bytes(L - n), h(n + 1) + t + bytes(L - n), h(max(1, n - 1)) + t + bytes(L - n),
                      h(n) + t + b"\1" * (L - n), h(n), h(0), h(1) + b"x", h(1) + b"x" * 31, h(1) + b"x" * 32, h(33) + bytes(32), h(32) + bytes(32), h(L) + t + bytes(L - n), t[:2] + t): 
                if len(p) >= 2: J(n44.b64(n44.seal(ck, nonce, p)), "padding")
            J(n44.b64(n44.seal(ck, nonce, b"\5")), "padding"); J(n44.b64(n44.seal(ck, nonce, b"")), "padding")
            # MAC or text under other keys
            k2 = gen.priv(r); J(n44.b64(n44.seal(n44.conv(k2, B), nonce, n44.pad(t))), "other-sender"); judge(d, k2, A, n44.conv(k2, A), s, "other-recipient"); judge(d, b, ec.pub(k2), n44.conv(b, ec.pub(k2)), s, "other-author")
            mk = n44.keys(ck, nonce); c = n44.chacha(mk[0], 0, mk[1], n44.pad(t))
            for m_ in (n44.hm(mk[2], c), n44.hm(mk[2], b"\2" + nonce + c), n44.hm(mk[0], nonce + c), n44.hm(ck, nonce + c), bytes(32), n44.hm(b"", nonce + c)): J(n44.b64(b"\2" + nonce + c + m_), "mac")
            # the same bytes in other spellings
            j = r.randrange(len(s)); e = len(s.rstrip(b"=")) 
            for x in (s + b"\n", b"\n" + s, b" " + s, s + b" ", s[:j] + b"\n" + s[j:], s[:j] + b" " + s[j:], s.rstrip(b"=") if b"=" in s else s + b"=", s + b"=", s + b"==", s + b"====", s + b"A", s + b"AAAA", s + s, s.replace(b"+", b"-").replace(b"/", b"_") if b"+" in s or b"/" in s else s[:-1] + b"-",
                      s[:j] + r.choice([b"-", b"_", b"!", b"=", b".", b"\x7f", b"\xff", b"#"]) + s[j + 1:], s[:j], b"#" + s, b"#", b"", b"=", b"A", b"====", b"A===", s[:-4], s[:4], b"A" * 132, b"A" * 10000):
                if b"\0" not in x: J(x, "spelling")
            al = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
            for x in (al if turn < 3 else r.sample(al, 6)): J(s[:e - 1] + bytes([x]) + s[e:], "last-character")
            for _ in range(4): J(gen.mutate(r, s, al).replace(b"\0", b"A"), "mutated")
    def keys(d):
        for _ in range(ctx.n(6, 60)):
            a, b, A, B = pair(); t = text(r.randrange(1, 40)); s = n44.encrypt(n44.conv(a, B), gen.rb(r, 32), t)
            for k in (0, ec.N, 2**256 - 1): 
                o = d.many([["nip44.enc", hx(ec.i2b(k)), hx(B), hx(t)], ["nip44.dec", hx(ec.i2b(k)), hx(A), hx(s)], ["nip04.enc", hx(ec.i2b(k)), hx(B), hx(b"x")]]); ctx.seen(("badpriv", k)); ctx.count("bad_keys")
                ctx.check(all(x["r"] != 0 for x in o) and o[1]["left"] == 0, "bad-key", "private key %x: %s" % (k, o), d)
            x = r.choice([0, 5, ec.P, 2**256 - 1]); o = d.many([["nip44.enc", hx(a), hx(ec.i2b(x)), hx(t)], ["nip44.dec", hx(a), hx(ec.i2b(x)), hx(s)], ["nip04.enc", hx(a), hx(ec.i2b(x)), hx(b"x")]]); ctx.seen(("badpub", x)); ctx.count("bad_keys")
            ctx.check(all(q["r"] != 0 for q in o) and o[1]["left"] == 0, "bad-key", "public key %x: %s" % (x, o), d)
        for n in (0, 65536, 65537, 70000, 131072): o = d.cmd("nip44.enc", hx(a), hx(B), hx(bytes(n))); ctx.seen(("size", n)); ctx.check(o["r"] != 0, "size", "a text of %d bytes was encrypted" % n, d)
        # a failing generator
        for cmd in (["nip44.enc", hx(a), hx(B), hx(b"text")], ["nip04.enc", hx(a), hx(B), hx(b"text")]):
            o = d.cmd("!r0", *cmd); ctx.check(o["r"] == 0, "encrypt", str(o), d)
            for k in range(1, o["_d"] + 1): x = d.cmd("!r%d" % k, *cmd); ctx.seen((cmd[0], "rng", k)); ctx.count("failed_draws"); ctx.check(x["r"] != 0, "generator-failure-ignored", "%s" % x, d)
    def nip04(d, sizes):
        al = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=?iv "
        for n in sizes:
            a, b, A, B = pair(); t = text(n).replace(b"\0", b"z"); key = n44.shared(a, B); o = d.cmd("nip04.enc", hx(a), hx(B), hx(t)); ctx.seen(("04enc", n, t[:64]), "NIP-04 text of %d bytes" % n); ctx.count("nip04_encrypted")
            if ctx.check(o["r"] == 0, "encrypt04", "text of %d bytes: %s" % (n, o), d):
                s = ub(o["c"]); c, _, iv = s.partition(b"?iv="); 
                try: got = n44.cbc_dec(key, base64.b64decode(iv, validate=True), base64.b64decode(c, validate=True)); canon = n44.b64(base64.b64decode(c)) == c and n44.b64(base64.b64decode(iv)) == iv
                except Exception as e: got, canon = repr(e), False
                ctx.check(got == t and canon, "payload04", lambda: "text %r gave %r" % (t[:100], s[:300]), d)
                o = d.many([["nip04.dec", hx(b), hx(A), hx(s)], ["nip04.dec", hx(a), hx(B), hx(s)], ["nip04.enc", hx(a), hx(B), hx(t)]])
                ctx.check(all(x["r"] == 0 and ub(x["t"]) == t for x in o[:2]), "round-trip04", lambda: "text %r: %s" % (t[:100], o[:2]), d); ctx.check(ub(o[2]["c"]) != s, "repeated-payload", "the same NIP-04 payload twice", d)
            t = text(n).replace(b"\0", b"z"); iv = gen.rb(r, 16); s = n44.b64(n44.cbc_enc(key, iv, t)) + b"?iv=" + n44.b64(iv); o = d.cmd("nip04.dec", hx(b), hx(A), hx(s)); ctx.seen(("04dec", n, t[:64]))
            ctx.check(o["r"] == 0 and ub(o["t"]) == t, "interop04", lambda: "text %r: %s" % (t[:100], str(o)[:200]), d)
            for x in ([s.replace(b"?iv=", b""), s[:s.index(b"?")], b"?iv=", b"", s.replace(b"?iv=", b"?IV="), b"?iv=" + n44.b64(iv), n44.b64(iv[:15]).join([s[:s.index(b"=", s.index(b"?")) + 1], b""]), s[:s.index(b"?")] + b"?iv=" + n44.b64(iv + b"x"), n44.b64(n44.cbc_enc(key, iv, t)[:-1]) + b"?iv=" + n44.b64(iv), n44.b64(n44.cbc_enc(key, iv, t) + b"x") + b"?iv=" + n44.b64(iv), b"!!!!?iv=" + n44.b64(iv), b"AAA?iv=" + n44.b64(iv)] if n < 300 else []):
                o = d.cmd("nip04.dec", hx(b), hx(A), hx(x)); ctx.seen(("04bad", x)); ctx.count("nip04_malformed"); ctx.check(o["r"] != 0 and o["left"] == 0, "accepted04", lambda: "malformed %r: %s" % (x[:200], o), d)
            for _ in range(2): d.cmd("nip04.dec", hx(b), hx(A), hx(gen.mutate(r, s, al).replace(b"\0", b"A")))
    def sweep(d, how, first, last, step):
        a, b, A, B = pair(); o = d.cmd("nip.sweep", how, hx(a), hx(B), first, last, step); w = [int(x) for x in ub(o["w"]).split()]
        for n, x in zip(range(first, last + 1, step), w):
            q = lambda m: (m + 2) // 3 * 4
            e = q(n // 16 * 16 + 16) + 4 + 24 if how == 4 else q(1 + 32 + 2 + n44.padlen(n) + 32); ctx.seen(("sweep", how, n)); ctx.count("swept_lengths")
            ctx.check(x == e, "payload" if how == 44 else "payload04", lambda: "NIP-%02d, text of %d bytes: %s; expected a payload of %d characters" % (how, n, {-1: "not encrypted", -2: "does not read back"}.get(x, "%d characters" % x), e), d)
    d = ctx.driver("shim")
    if ctx.quick: ctx.guard(d, nip44, SMALL + r.sample(BIG, 4) + [65535] + r.sample(range(1, 3000), 40))
    else: ctx.guard(d, nip44, list(range(1, 1300)) + BIG + [r.randrange(1, 65536) for _ in range(150)])
    for _ in range(ctx.n(1, 12)): ctx.guard(d, forge, ctx.n(8, 60)); d.cmd("reset")
    for lo in range(1, 65536, 8192): ctx.guard(d, sweep, 44, lo + r.randrange(200), min(65535, lo + 8191), ctx.n(211, 7))
    for lo in range(1, 1 + ctx.n(2048, 16384), 512): ctx.guard(d, sweep, 4, lo, lo + 511, 1)
    ctx.guard(d, sweep, 4, 16 * r.randrange(1, 300), 70000, 16 * ctx.n(40, 5))
    ctx.guard(d, keys)
    ctx.guard(d, nip04, [0] + [n for n in SMALL if n < 300] + r.sample(range(300, 3000), ctx.n(5, 60)) + ([] if ctx.quick else [r.randrange(1, 200) for _ in range(400)] + [20000]))
    d.reset(); ctx.leaks(d, "encryption")
