"""C09: random bytes are complete and fresh, and generator failure is never ignored."""
import base64, hashlib, json
from lib import gen, wl
from lib.drv import hx
from oracle import ec, b32
from oracle import hd as H
def deleg(B, c): return hashlib.sha256(b"nostr:delegation:" + B.hex().encode() + b":" + c).digest()
def run(ctx):
    r = ctx.rng
    ctx.rule = "call that consumes randomness, run with the generator's draws recorded and the k-th draw failing (every k); output must stem from recorded draws and failure must be reported; distinct by (backend, call, length, k)"
    def entropy_from_words(words):
        return H.mnemonic_entropy(words)
    def plan(cfg):
        priv = gen.priv(r); e = gen.event(r, 3)
        yield ["key.generate"], None
        yield ["kp.generate"], None
        yield ["mn.gen", 12, 300], None
        yield ["mn.gen", 24, 300], None
        yield ["n49.enc", hx(gen.priv(r)), hx(b"pw"), 16, 200], None
        yield ["ev.sign", 1, hx(priv)], (priv, e)
        yield ["n26.create", hx(priv), hx(ec.pub(gen.priv(r))), hx(b"kind=1")], priv
        if "shim" in cfg:
            to = gen.priv(r); pk = ec.pub(to)
            yield ["nip44.enc", hx(priv), hx(pk), hx(gen.text(r, 60) or b"x")], None
            if cfg == "shim": yield ["nip04.enc", hx(priv), hx(pk), hx(gen.text(r, 60) or b"x")], None
            yield ["g.wrap", 2, 1, hx(priv), hx(pk)], (priv, e, to)
            yield ["d.send", 2, hx(b"hello"), hx(priv), hx(pk), hx(b"subject"), "-", 1700000000], (priv, e, to)
    def provenance(d, cfg, cmd, info, o, log):
        k = cmd[0]
        if k in ("key.generate", "kp.generate"): return bytes.fromhex(o["priv"]) in log
        if k == "mn.gen":
            w = bytes.fromhex(o["o"]).split(b"\0")[0].decode(); ent = entropy_from_words(w)
            return ent is not None and ent in log
        if k == "n49.enc":
            x = b32.decode(bytes.fromhex(o["o"])); p = x[1]; salt, nonce = p[2:18], p[18:42]
            i = log.find(salt); 
            return i >= 0 and (nonce in log[:i] or nonce in log[i + 16:])
        if k == "ev.sign":
            priv, e = info; g = d.cmd("ev.get", 1)["e"]; sig = bytes.fromhex(g["sig"]); mid = bytes.fromhex(g["id"])
            return any(ec.sign(priv, mid, log[i:i+32]) == sig for i in range(0, len(log) - 31))
        if k == "nip44.enc": return base64.b64decode(bytes.fromhex(o["c"]))[1:33] in log
        if k == "nip04.enc": return base64.b64decode(bytes.fromhex(o["c"]).split(b"?iv=")[1]) in log
        if k in ("g.wrap", "d.send"):       # the wrapper's key and the nonces of both layers, each from a draw of its own
            priv, e, to = info; w = o["e"]; n1 = base64.b64decode(bytes.fromhex(w["content"]))[1:33]; pk = bytes.fromhex(w["pubkey"])
            t = d.cmd("nip44.dec", hx(to), "x" + w["pubkey"], "x" + w["content"])
            if t["r"]: return False
            n2 = base64.b64decode(json.loads(bytes.fromhex(t["t"]))["content"])[1:33]
            key = [i for i in range(len(log) - 31) if ec.valid_priv(log[i:i+32]) and ec.pub(log[i:i+32]) == pk]
            a, b = log.find(n1), log.find(n2)
            return bool(key) and min(a, b) >= 0 and all(abs(x - y) >= 32 for x, y in ((a, b), (a, key[0]), (b, key[0])))
        return True
    def body(cfg):
        d = ctx.driver(cfg)
        def lens(d):
            L = list(range(0, 70)) + [255, 256, 257, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4096, 5000] + [r.randrange(6000) for _ in range(ctx.n(20, 300))]
            # generator set-up failing on the very first request
            for how in ("!r1", "dead"):
                d.restart()
                if how == "dead": d.cmd("vf.rng", 0, 0, 1, 0, 0)
                x = d.cmd(*([how] if how != "dead" else []), "rng", 16); d.cmd("vf.rng", 0, 0, 0, 0, 0); y = d.cmd("rng", 16); ctx.seen((cfg, "first", how))
                ctx.check(x["r"] == 0 and y["r"] == 1 and y["o"] != "a5" * 16, "failure-ignored:rng", "%s first request %s: %s, then %s" % (cfg, how, x, y), d)
            for m in L:
                d.cmd("vf.rng", 1, r.randrange(2**60), 0, 0, 1)
                o = d.cmd("!r0", "rng", m); log = d.cmd("vf.rnglog")["log"]; ctx.seen((cfg, "len", m), "%s nostr_random_bytes(%d)" % (cfg, m)); ctx.count("lengths"); ctx.count("draws", o["_d"])
                ctx.check(o["r"] == 1 and o["o"] == log, "incomplete", lambda: "%s: request of %d bytes returned %s; buffer does not equal the generator's output (%d bytes drawn)" % (cfg, m, o["r"], len(log) // 2), d)
                for k in range(1, o["_d"] + 1):
                    x = d.cmd("!r%d" % k, "rng", m); ctx.seen((cfg, "fail", m, k)); ctx.count("injected_failures")
                    ctx.check(x["_dh"] == 1 and x["r"] == 0, "failure-ignored:rng", lambda: "%s: request of %d bytes with draw %d failing returned %s" % (cfg, m, k, x["r"]), d)
                d.cmd("vf.rng", 0, 0, 1, 0, 0)
                if m: x = d.cmd("rng", m); ctx.check(x["r"] == 0, "failure-ignored:rng", "%s: dead generator, request of %d bytes returned %s" % (cfg, m, x["r"]), d)
            d.cmd("vf.rng", 0, 0, 0, 0, 0)
            o = d.many([["rng", 16]] * ctx.n(400, 4000)); vals = [x["o"] for x in o]; ctx.seen((cfg, "fresh"))
            ctx.check(len(set(vals)) == len(vals), "repeated-output", "two requests received the same 16 bytes", d)
            for m in [2**31 - 1, 2**31, 2**31 + 5, 2**32 - 1, 2**32, 2**32 + 7] if cfg == "asan" or not ctx.quick else [2**22 + 7]:
                o = d.cmd("rng.big", m); ctx.seen((cfg, "big", m), "%s request of %d bytes" % (cfg, m))
                if "nomap" in o: ctx.count("big_skipped"); continue
                ctx.check(o["r"] == 1 and o["total"] == m and not o["bad"], "incomplete", "%s: request of %d bytes: %s" % (cfg, m, o), d)
        if "shim" in cfg: d.cmd("init")
        else: ctx.guard(d, lens); d.cmd("reset")
        def consumers(d):
            for it in range(ctx.n(4, 40)):
                for cmd, info in plan(cfg):
                    if cmd[0] == "n49.enc" and it >= ctx.n(2, 6): continue
                    def prep():
                        if cmd[0] in ("ev.sign", "g.wrap"):
                            e = info[1]; d.cmd(*e.build(1)); d.cmd(*e.setall(1))
                    prep(); d.cmd("vf.rng", 1, r.randrange(2**60), 0, 0, 1)
                    o = d.cmd("!r0", *cmd); log = bytes.fromhex(d.cmd("vf.rnglog")["log"]); nd = o["_d"]
                    ctx.seen((cfg, cmd, "ok"), "%s %s: %d draws" % (cfg, cmd[0], nd)); ctx.count("consumer_" + cmd[0]); ctx.count("draws", nd)
                    ctx.check(o["r"] == 0 and nd >= 1, "consumer-draws-nothing:" + cmd[0], "%s: %s with %d draws" % (cfg, o, nd), d)
                    ctx.check(provenance(d, cfg, cmd, info, o, log), "not-from-generator:" + cmd[0], lambda: "%s: output %s does not stem from the generator's output %s" % (cfg, o, log.hex()), d)
                    for k in range(1, nd + 1):
                        prep(); o = d.cmd("!r%d" % k, *cmd); ctx.seen((cfg, cmd, k)); ctx.count("injected_failures")
                        ctx.check(o["r"] != 0, "failure-ignored:" + cmd[0], lambda: "%s: %s succeeded although draw %d of %d failed: %s" % (cfg, cmd, k, nd, o), d)
                        if cmd[0] == "ev.sign": x = d.cmd("ev.verify", 1); ctx.check(x["r"] != 0, "failure-ignored:verify", "event verifies after failed signing", d)
                    prep(); d.cmd("vf.rng", 0, 0, 1, 0, 0); o = d.cmd(*cmd); ctx.seen((cfg, cmd, "dead"))
                    ctx.check(o["r"] != 0, "failure-ignored:" + cmd[0], lambda: "%s: %s succeeded with a dead generator: %s" % (cfg, cmd, o), d)
                    d.cmd("vf.rng", 0, 0, 0, 0, 0)
            # a draw that is no valid key is replaced by another draw, never used or patched
            for sp in (1, 2):
                for op in ("key.generate", "kp.generate"):
                    d.cmd("vf.rng", 1, r.randrange(2**60), 0, sp, 1); o = d.cmd("!r0", op); log = bytes.fromhex(d.cmd("vf.rnglog")["log"]); ctx.seen((cfg, op, "special", sp))
                    ctx.check(o["r"] != 0 or (ec.valid_priv(bytes.fromhex(o["priv"])) and bytes.fromhex(o["priv"]) in log and o["_d"] >= 2), "not-from-generator:" + op, "%s" % o, d)
                    d.cmd("vf.rng", 1, r.randrange(2**60), 0, sp, 1); x = d.cmd("!r2", op)
                    ctx.check(x["r"] != 0, "failure-ignored:" + op, "second draw failed: %s" % x, d)
            d.cmd("vf.rng", 0, 0, 0, 0, 0)
        ctx.guard(d, consumers); d.cmd("reset")
        def cold(d):
            """the call is the first after clean-up: if setting up fails, it fails, and the next one works"""
            for it in range(ctx.n(2, 12)):
                a, b = gen.priv(r), gen.priv(r); A, B = ec.pub(a), ec.pub(b); e = gen.event(r, 3); c = b"kind=1"
                calls = [["kp.frompriv", hx(a)], ["kp.fromhex", hx(a.hex().encode())], ["kp.validate", hx(a), hx(A), 1], ["key.ecdh", hx(a), hx(B)], ["hd.seed", hx(gen.rb(r, 64))], ["key.generate"], ["kp.generate"],
                         ["ev.sign", 1, hx(a)], ["ev.verify", 1], ["n26.create", hx(a), hx(B), hx(c)], ["n26.verify", hx(A), hx(B), hx(c), hx(ec.sign(a, deleg(B, c), gen.rb(r, 32)))]]
                h = d.cmd("hd.seed", hx(gen.rb(r, 64))); K = ["x" + h["priv"], "x" + h["pub"], "x" + h["cc"]]; calls += [["hd.derive"] + K + [1], ["hd.derive"] + K + [2**31], ["hd.path"] + K + [hx(b"m/44'/1237'/0'/0/0")]]
                if "shim" in cfg:
                    w = d.cmd("nip44.enc", hx(a), hx(B), hx(b"text")); calls += [["nip44.enc", hx(a), hx(B), hx(b"text")], ["nip44.dec", hx(b), hx(A), "x" + w["c"]], ["d.send", 2, hx(b"hello"), hx(a), hx(B), "-", "-", 1700000000], ["g.unwrap", 3, 2, hx(b)]]
                d.cmd(*e.build(1)); d.cmd(*e.setall(1)); d.cmd("ev.sign", 1, hx(a))
                if "shim" in cfg: d.cmd("d.send", 2, hx(b"hello"), hx(a), hx(B), "-", "-", 1700000000)
                for cmd in calls:
                    d.cmd("vf.rng", 1, 1, 0, 0, 0); o = d.cmd("!r0", *cmd); nd = o["_d"]; same = nd == 0
                    for k in range(1, nd + 3):
                        d.cmd("cleanup"); x = d.cmd("!r%d" % k, *cmd); ctx.seen((cfg, "cold", cmd, k), "%s %s as the first call, draw %d failing" % (cfg, cmd[0], k)); ctx.count("first_calls")
                        if x["_dh"]: ctx.count("first_calls_failed"); ctx.check(x["r"] != 0, "failure-ignored:" + cmd[0], lambda: "%s: %s, the first call, succeeded although a draw failed: %s" % (cfg, cmd, x), d)
                        elif same: ctx.check(wl.clean(x) == wl.clean(o), "first-call:" + cmd[0], lambda: "%s: %s: %s, as the first call %s" % (cfg, cmd, o, x), d)
                        y = d.cmd(*cmd); ctx.check(wl.clean(y) == wl.clean(o) if same else y["r"] == o["r"], "after-failed-set-up:" + cmd[0], lambda: "%s: %s: %s, after set-up had failed %s" % (cfg, cmd, o, y), d)
                    d.cmd("vf.rng", 0, 0, 0, 0, 0)
        ctx.guard(d, cold); d.cmd("reset")
        def threads(d):
            for how, L in ((0, 16), (0, 48), (0, 1500), (1, 32)):
                for T in (2, 4, 8):
                    if cfg == "asan-mbed": d.cmd("vf.rng", 2, 0, 0, 0, 0)
                    else: d.cmd("vf.rng", 0, 0, 0, 0, 0)
                    o = d.cmd("rng.threads", T, ctx.n(60, 1000) if how else ctx.n(300, 5000), L, how); ctx.seen((cfg, "threads", T, L, how), "%s %d threads: %s" % (cfg, T, o)); ctx.count("concurrent_draws", o["draws"])
                    ctx.check(o["fail"] == 0 and o["dup"] == 0, "concurrent-repeats", "%s: %d threads, %d-byte draws: %s" % (cfg, T, L, o), d)
        if "shim" not in cfg: ctx.guard(d, threads)
        def fresh(d):
            k, p = hx(gen.priv(r)), hx(ec.pub(gen.priv(r))); N = ctx.n(100, 1500)
            for op, cut in (("nip44.enc", lambda c: base64.b64decode(c)[1:33]), ("nip04.enc", lambda c: c.split(b"?iv=")[1])):
                if op == "nip04.enc" and cfg != "shim": continue
                o = d.many([[op, k, p, hx(b"same text")]] * N); v = [cut(bytes.fromhex(x["c"])) for x in o]; ctx.seen((cfg, "fresh", op)); ctx.count("fresh_nonces", N)
                ctx.check(len(set(v)) == N, "repeated-output:" + op, "a nonce was used twice", d)
        if "shim" in cfg: ctx.guard(d, fresh)
        d.cmd("reset")
    for cfg in ("asan", "asan-mbed", "shim", "shim-mbed"): body(cfg)
