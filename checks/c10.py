"""C10: BIP-32 / BIP-39 / NIP-06."""
from lib import gen
from lib.drv import hx
from oracle import ec, hd as H
PW = ["", "TREZOR", "é", "e\u0301", "ﬁ", "日本語", "😀 x", "p" * 129 + "é", "p" * 230 + "é\u0301" + "q" * 40, "p" * 600, "Å", "\u212b", " a ", "p" * 200, "\u1e9b\u0323", "가"]
def run(ctx):
    r = ctx.rng
    ctx.rule = "seed, path, index, mnemonic or passphrase presented to the HD/BIP-39 functions; expected value from an independent implementation; distinct by (operation, inputs)"
    def exp(k): return dict(priv=k[0].hex(), pub=ec.pub(k[0]).hex(), cc=k[1].hex())
    def fields(o): return {x: o[x] for x in ("priv", "pub", "cc")}
    def kargs(k): return [hx(k[0]), hx(ec.pub(k[0])), hx(k[1])]
    def idx(): return r.choice([0, 1, 2, 44, 1237, 2**31 - 1, 2**31 - 2, 255, 256, 65535, 65536, r.randrange(2**31)]) | r.choice([0, 2**31])
    def body(d):
        for i in range(ctx.n(60, 1500)):
            n = r.choice([16, 32, 64, 17, 63, 20, 33, r.randrange(16, 65)]) if r.random() < .8 else r.choice([0, 1, 8, 15, 65, 66, 100, 128])
            s = gen.rb(r, n)
            if r.random() < .1: s = bytes([r.choice([0, 255])]) * n
            o = d.cmd("hd.seed", hx(s)); ctx.seen(("seed", s), "seed of %d bytes" % n); ctx.count("seeds")
            if not 16 <= n <= 64: ctx.check(o["r"] != 0, "accepts-seed-length", "%d bytes" % n, d); continue
            k = H.master(s); ctx.check(o["r"] == 0 and fields(o) == exp(k), "master", lambda: "seed %s gave %s expected %s" % (s.hex(), o, exp(k)), d)
            for _ in range(4):
                x = idx(); w = H.child(k, x); a = kargs(k)
                out = d.many([["hd.derive"] + a + [x], ["hd.derive_inplace"] + a + [x], ["hd.kp"] + a]); ctx.seen(("child", k, x), "child %x" % x); ctx.count("hardened" if x >> 31 else "normal")
                for nm, o in (("derive", out[0]), ("derive-in-place", out[1])):
                    ctx.check(o["r"] == 0 and fields(o) == exp(w), nm, lambda: "parent %s index %x gave %s expected %s" % (exp(k), x, o, exp(w)), d)
                ctx.check(out[2]["r"] == 0 and out[2]["priv"] == k[0].hex() and out[2]["pub"] == ec.pub(k[0]).hex() and out[2]["init"] == 1, "to-keypair", "%s" % out[2], d)
                k = w
            # edge parents: leading zeros, sums wrapping past the group order
            for pv in (1, 2, ec.N - 1, ec.N - r.randrange(1, 2**64), r.randrange(1, 2**r.randrange(1, 255))):
                kk = (ec.i2b(pv), gen.rb(r, 32)); x = idx(); w = H.child(kk, x); o = d.cmd("hd.derive", *kargs(kk), x); ctx.seen(("edge", kk, x))
                ctx.check(o["r"] == 0 and fields(o) == exp(w), "derive", lambda: "parent %s index %x gave %s expected %s" % (exp(kk), x, o, exp(w)), d)
            for pv in (0, ec.N, 2**256 - 1):
                for x in (0, 2**31): o = d.cmd("hd.derive", hx(ec.i2b(pv)), hx(ec.pub(ec.i2b(1))), hx(gen.rb(r, 32)), x); ctx.seen(("bad", pv, x)); ctx.check(o["r"] != 0, "derives-from-invalid-key", "%x" % pv, d)
            # paths
            for _ in range(6):
                c = [str(idx() & (2**31 - 1)) + r.choice(["", "'", "h"]) for _ in range(r.choice([0, 1, 2, 3, 5, 8, r.randrange(9, 30)]))]
                p = "/".join(["m"] + c)
                if r.random() < .55:
                    q = r.randrange(10)
                    if q == 0: p += r.choice(["/", "//0", "/0/", "/'", "/h", " ", "/ 0", "/0 "])
                    elif q == 1: p = r.choice(["", "M", "n", "x/0", "/0", "0/0", "mm/0", "m0", "m0/1", "m.", " m", "m\n"]) if r.random() < .6 else p[1:]
                    elif q == 2: p += "/" + r.choice(["2147483648", "2147483648'", "4294967295", "4294967296", "4294967297", "99999999999999999999", "18446744073709551616", "-1", "+1", "0x1", "1e3", "a", "1a", "1''", "1'h", "1H", "44H", "0H", "1'0", "h1", "'", "", " 1", "1 ", "\t1", "1.", "٣"])
                    elif q == 3: p = gen.mutate(r, p.encode(), b"m/0123456789'h").decode("latin1").encode("latin1").decode("utf8", "surrogateescape")
                    elif q == 4: p += "/" + "0" * r.randrange(1, 30) + str(r.randrange(2**31)) + r.choice(["", "'"])
                pb = p.encode("utf8", "surrogateescape"); L = H.parse_path(pb.decode("latin1")); o = d.cmd("hd.path", *kargs(k), hx(pb)); ctx.seen(("path", k, pb), "%r %s" % (pb, L)); ctx.count("path_valid" if L is not None else "path_invalid")
                if L is None: ctx.check(o["r"] != 0, "accepts-path", lambda: "%r gave %s" % (pb, o), d)
                else:
                    w = H.derive(k, L); ctx.check(o["r"] == 0 and fields(o) == exp(w), "path", lambda: "%r from %s gave %s expected %s" % (pb, exp(k), o, exp(w)), d)
            if i % 20 == 0: d.cmd("cleanup"); d.reset()
        ctx.leaks(d, "hd")
    def words(d):
        for i in range(ctx.n(50, 1200)):
            n = r.choice([16, 32]); ent = r.choice([gen.rb(r, n), gen.rb(r, n), bytes(n), b"\xff" * n, b"\x7f" * n, b"\x80" * n]); m = H.mnemonic(ent); wc = 12 if n == 16 else 24
            assert H.mnemonic_entropy(m) == ent
            T = [m]
            w = m.split(" ")
            for _ in range(8):
                x = list(w); q = r.randrange(11); j = r.randrange(wc)
                if q == 0: x[j] = r.choice(H.WORDS)
                elif q == 1: x[j], x[j-1] = x[j-1], x[j]
                elif q == 2: del x[j]
                elif q == 3: x.insert(j, r.choice(H.WORDS))
                elif q == 4: x[j] = gen.mutate(r, x[j].encode(), b"abcdefghijklmnopqrstuvwxyz").decode("latin1").replace("\xa0", "x")
                elif q == 5: x[j] = x[j][:4]
                elif q == 6: x[j] = x[j].upper() if r.random() < .5 else x[j].capitalize()
                elif q == 7: x[-1] = r.choice(H.WORDS)
                elif q == 8: x = x + w
                elif q == 9: x = x[:r.choice([1, 3, 11, 15, 18, 21, 23])]
                else: x = [r.choice(H.WORDS) for _ in range(r.choice([12, 24, 15, 13, 25, 36]))]
                T.append(" ".join(x))
            T += [m.replace(" ", "\t", 1), m + "\n", m.replace(" ", ",", 1), "", "abandon " * 11 + "about", "abandon " * 12, "zoo " * 11 + "wrong", m.replace(" ", "\u3000")]
            for t in T:
                t = t.strip(" ") if t.count("  ") == 0 else t
                if "  " in t: continue
                tb = t.encode("utf8"); ok = H.mnemonic_entropy(t) is not None; o = d.cmd("mn.validate", hx(tb)); ctx.seen(("validate", tb), "%r %s" % (tb[:60], ok)); ctx.count("mnemonic_valid" if ok else "mnemonic_invalid")
                ctx.check((o["r"] == 0) == ok, "validate", lambda: "%r: %s, expected %s" % (tb, o, ok), d)
                if not ok and r.random() < .3: o = d.cmd("mn.seed", hx(tb), "-"); ctx.check(o["r"] != 0, "seed-of-invalid", "%r" % tb, d); o = d.cmd("mn.kp", hx(tb), "-", 0); ctx.check(o["r"] != 0, "keypair-of-invalid", "%r" % tb, d)
            pw = r.choice(PW) if r.random() < .7 else gen.text(r, 20).decode("utf8", "ignore")
            sd = H.seed(m, pw); o = d.cmd("mn.seed", hx(m), hx(pw)); ctx.seen(("seed", m, pw), "passphrase %r" % pw); ctx.check(o["r"] == 0 and o["o"] == sd.hex(), "to-seed", lambda: "%r / %r gave %s expected %s" % (m, pw, o, sd.hex()), d)
            if i % 3 == 0: sd = H.seed(m, ""); o = d.cmd("mn.seed", hx(m), "-"); ctx.seen(("seed0", m)); ctx.check(o["r"] == 0 and o["o"] == sd.hex(), "to-seed-null", "%s" % o, d)
            acc = r.choice([0, 1, 2, 2**31 - 1, 2**31, 2**32 - 1, r.randrange(2**31)])
            o = d.cmd("mn.kp", hx(m), hx(pw), acc); ctx.seen(("kp", m, pw, acc)); ctx.count("nip06_keypairs")
            if acc >= 2**31: ctx.check(o["r"] != 0, "account-range", "%d" % acc, d)
            else:
                w6 = H.derive(H.master(H.seed(m, pw)), [44 | 2**31, 1237 | 2**31, acc | 2**31, 0, 0]); ctx.check(o["r"] == 0 and o["priv"] == w6[0].hex() and o["pub"] == ec.pub(w6[0]).hex() and o["init"] == 1, "nip06", lambda: "%r %r %d gave %s expected %s" % (m, pw, acc, o, w6[0].hex()), d)
            # generation into buffers of every relevant size
            for wc in (12, 24):
                d.cmd("vf.rng", 1, r.randrange(2**40), 0, 0, 1); o = d.cmd("mn.gen", wc, 300); log = bytes.fromhex(d.cmd("vf.rnglog")["log"]); g = bytes.fromhex(o["o"]).split(b"\0")[0]; e = H.mnemonic_entropy(g.decode("latin1"))
                ctx.seen(("gen", wc, log), "%r" % g); ctx.count("generated")
                ctx.check(o["r"] == 0 and o["nul"] and e is not None and len(e) == wc * 4 // 3 and e in log, "generate", lambda: "%d words from %s: %r" % (wc, log.hex(), g), d)
                for sz in (len(g) + 1, len(g), len(g) - 1, r.randrange(len(g)), 1, 0):
                    d.cmd("vf.rng", 1, r.randrange(2**40), 0, 0, 1); o = d.cmd("mn.gen", wc, sz); ctx.seen(("gensz", wc, sz, i)); log = bytes.fromhex(d.cmd("vf.rnglog")["log"])
                    if o["r"] == 0: ctx.check(o["nul"] and H.mnemonic_entropy(bytes.fromhex(o["o"]).split(b"\0")[0].decode("latin1")) is not None, "generate-truncated", "%d words into %d bytes: %s" % (wc, sz, o), d)
                    elif sz == 0: pass
                    else:
                        need = len(H.mnemonic(log[:wc * 4 // 3])) + 1 if len(log) >= wc * 4 // 3 else 10**9
                        ctx.check(sz < need, "generate-refuses-enough", "%d words, %d bytes, needs %d" % (wc, sz, need), d)
                d.cmd("vf.rng", 0, 0, 0, 0, 0)
            for wc in (0, 1, 3, 11, 13, 15, 18, 21, 23, 25, -12, 48): o = d.cmd("mn.gen", wc, 400); ctx.seen(("wc", wc)); ctx.check(o["r"] != 0, "generate-word-count", "%d" % wc, d)
            if i % 10 == 0: d.reset()
        d.reset(); ctx.leaks(d, "mnemonic")
    for cfg in ("asan",) if ctx.quick else ("asan", "asan-mbed"):
        d = ctx.driver(cfg); ctx.guard(d, body); ctx.guard(d, words)
