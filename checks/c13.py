"""C13: NIP-13 proof of work."""
import re
from lib import gen
from lib.drv import hx, hl
def lz(b):
    v = int.from_bytes(b, "big"); return 256 - v.bit_length()
def run(ctx):
    r = ctx.rng
    ctx.rule = "difficulty / work check / nonce update / mining run; difficulty counted independently, verdicts from the event's tags, mined events re-read and re-hashed; distinct by (operation, event, parameters)"
    def withnonce(e):
        """0 or 1 nonce tag of any shape"""
        e.tags = [t for t in e.tags if t[0] != b"nonce"]
        k = r.randrange(9)
        if k >= 2:
            t = [b"nonce"] + [b"%d" % r.choice([0, 5, 2**64 - 1, r.randrange(2**63)]), b"%d" % r.choice([0, 1, 8, 20, 21, 256, 257, 2**31, 2**32, 2**32 + 1, 2**63 - 1, 2**64])][:r.choice([0, 1, 2, 2, 2])]
            if len(t) > 2:
                if r.random() < .2: t.append(gen.text(r, 10))
                if r.random() < .1: t[2] = r.choice([b"", b"x", b"-5", b"007", b"12x"])
            e.tags.insert(r.randrange(len(e.tags) + 1), t)
        return e
    def nonces(e): return [t for t in e.tags if t[0] == b"nonce"]
    def others(tags): return [t for t in tags if t[0] != b"nonce".hex()]
    def idwith(bits):
        v = 0 if bits >= 256 else (1 << (255 - bits)) | r.randrange(1 << (255 - bits)) if bits < 255 else 1
        return v.to_bytes(32, "big")
    def verdict(e, m):
        """expected acceptance or None if not judged"""
        ns = nonces(e)
        if m < 1: return False
        if not ns: return False
        if len(ns) > 1: return None
        t = ns[0]
        if len(t) < 2: return False
        if not re.fullmatch(rb"[0-9]+", t[1]): return None
        if lz(e.id) < m: return False
        if len(t) >= 3:
            if t[2] and not re.fullmatch(rb"-?[0-9]+", t[2]): return None
            return lz(e.id) >= int(t[2] or b"0")
        return True
    def mined(d, slot, before, target, res, must, what, t0=None):
        o = d.cmd("ev.get", slot)["e"]; ctx.count("mined" if res == 0 else "mine_error")
        same = o["pubkey"] == before.pk.hex() and o["kind"] == before.kind and o["content"] == before.content.hex() and others(o["tags"]) == [[v.hex() for v in t] for t in before.tags if t[0] != b"nonce"]
        ctx.check(same, "mining-changed-event", lambda: "%s: %s from %s" % (what, o, before.view()), d)
        ctx.check(must is None or (res == 0) == must, "mining-verdict", lambda: "%s returned %s for %s" % (what, res, before.view()), d)
        if res: return
        ns = [t for t in o["tags"] if t[0] == b"nonce".hex()]
        ctx.check(len(ns) == 1 and len(ns[0]) >= 3 and bytes.fromhex(ns[0][2]) == b"%d" % target and re.fullmatch(rb"[0-9]+", bytes.fromhex(ns[0][1])), "mining-nonce-tag", lambda: "%s: %s" % (what, ns), d)
        e2 = gen.Event(bytes.fromhex(o["pubkey"]), o["created_at"], o["kind"], [[bytes.fromhex(v) for v in t] for t in o["tags"]], bytes.fromhex(o["content"]))
        ctx.check(e2.eid().hex() == o["id"], "mining-id", lambda: "%s: id is not the hash: %s" % (what, o), d)
        ctx.check(lz(bytes.fromhex(o["id"])) >= target, "mining-target", lambda: "%s: %s misses target %d" % (what, o["id"], target), d)
        if t0 is not None: ctx.check(o["created_at"] == before.created or t0[0] <= o["created_at"] <= t0[1], "mining-time", lambda: "%s: created_at %d" % (what, o["created_at"]), d)
        ctx.check(d.cmd("n13.verify", slot, target)["r"] == 0, "mined-does-not-verify", what, d)
    def body(d):
        # difficulty of every bit pattern around each byte
        ids = [idwith(b) for b in range(257)] + [idwith(b) for b in range(257)] + [bytes([x]) + gen.rb(r, 31) for x in range(256)] + [b"\0" * k + bytes([x]) + b"\xff" * (31 - k) for k in range(32) for x in (0, 1, 2, 0x7f, 0x80, 0xff)]
        for b, o in zip(ids, d.many([["n13.diff", hx(b)] for b in ids])):
            ctx.seen(("diff", b)); ctx.check(o["r"] == lz(b), "difficulty", "%s: %s expected %d" % (b.hex(), o, lz(b)), d)
        for i in range(ctx.n(600, 20000)):
            e = withnonce(gen.event(r, 5)); e.id = idwith(r.choice([0, 1, 7, 8, 9, 16, 20, 21, 31, 32, 255, 256, r.randrange(257)]))
            if r.random() < .15: e.tags.append([r.choice([b"Nonce", b"nonc", b"nonces"]), b"1", b"1"])
            ms = [1, 8, 20, 256, 257, -1, 0, lz(e.id), lz(e.id) + 1, lz(e.id) - 1, r.randrange(1, 300)]
            out = d.many([e.build(0), e.setall(0)] + [["n13.verify", 0, m] for m in ms])[2:]
            for m, o in zip(ms, out):
                w = verdict(e, m)
                if w is None: continue
                ctx.seen(("verify", e.key(), m)); ctx.count("work_ok" if w else "work_refused")
                ctx.check((o["r"] == 0) == w, "work-verdict", lambda: "min %d, %s: %s expected %s" % (m, e.view(), o, w), d)
            # nonce update
            n, t = r.choice([0, 1, 2**64 - 1, r.randrange(2**64)]), r.choice([0, 1, 20, 255, 2**31 - 1])
            before = e.view()["tags"]; o, g = d.many([["n13.add", 0, n, t], ["ev.get", 0]]); g = g["e"]
            ctx.seen(("add", e.key(), n, t))
            ctx.check(o["r"] == 0, "add-nonce", "%s" % o, d)
            ns = [x for x in g["tags"] if x[0] == b"nonce".hex()]
            want = [b"nonce", b"%d" % n] + ([b"%d" % t] if t > 0 else []); want = [x.hex() for x in want]
            ctx.check(len(ns) == 1 and ns[0][:len(want)] == want and (t > 0 or len(ns[0]) == 2) and others(g["tags"]) == others(before), "nonce-tag", lambda: "%s from %s" % (g["tags"], before), d)
            ctx.check({k: x for k, x in g.items() if k != "tags"} == {k: x for k, x in e.view().items() if k != "tags"}, "nonce-changed-event", lambda: "%s" % g, d)
            if i % 50 == 0: d.reset()
        # nonce updates at every fill level of the tag storage
        for full in (1024, 2048):
            for nt in ([b"nonce", b"5"], [b"nonce", b"5", b"1"], [b"nonce"]):
                for n in range(full - 190, full - 20, 1 if not ctx.quick or full == 1024 else 3):
                    e = gen.event(r, 0); e.tags = [nt, [b"t", b"v" * n]]; e.id = bytes(32)
                    o = d.many([e.build(4), e.setall(4), ["n13.add", 4, 2**64 - 1 if n % 2 else 7, 20], ["ev.get", 4], ["ev.addtag", 4, hl([b"after"])], ["ev.get", 4]])
                    want = [b"nonce", b"%d" % (2**64 - 1 if n % 2 else 7), b"20"]; T = [[v.hex() for v in want], [v.hex() for v in e.tags[1]]]; ctx.seen(("fill", full, nt, n)); ctx.count("fill_levels")
                    ctx.check(o[2]["r"] == 0 and o[3]["e"]["tags"] == T and o[5]["e"]["tags"] == T + [[b"after".hex()]], "nonce-tag-fill", lambda: "%d of %d used, %s: %s" % (n, full, nt, o[2:]), d)
            d.reset()
        # sequential mining
        for i in range(ctx.n(120, 1500)):
            e = withnonce(gen.event(r, 6)); t = r.choice([1, 2, 3, 5, 8] + ([10, 12] if i % 10 == 0 else []))
            d.many([["vf.time", 1700000000, 1], e.build(1), e.setall(1)]); ctx.seen(("mine", e.key(), t))
            mx = r.choice([0, 0, 1, 3, 20, 5000]); q = d.cmd("n13.mine", 1, t, mx)["r"]
            mined(d, 1, e, t, q, True if mx == 0 or mx == 5000 and t <= 5 else None, "mine target %d max %d" % (t, mx), (1700000000, 1700000000 + 10**6))
            e = withnonce(gen.event(r, 6)); d.many([e.build(1), e.setall(1)]); T = r.choice([200, 256, 257, 1000])
            mined(d, 1, e, T, d.cmd("n13.mine", 1, T, r.choice([1, 2, 50]))["r"], False, "mine target %d" % T)
            if i % 20 == 0: d.reset()
        for t in (0, -1): ctx.check(d.cmd("n13.mine", 1, t, 5)["r"] != 0 and d.cmd("n13.minet", 1, t, 2, 5, 0)["r"] != 0, "bad-target-accepted", str(t), d)
        d.reset(); ctx.leaks(d, "pow")
    def threaded(d, runs, faults, tag):
        for i in range(runs):
            e = withnonce(gen.event(r, 8)); t = r.choice([1, 2, 4, 6, 8, 9]); th = r.choice([1, 2, 2, 3, 4, 8, 16, 0]); j = r.choice([0, 1, 20, 200])
            mx = r.choice([0, 0, 0, 1, 2, 30]); pre = []
            if faults and i % 3 == 0 and th > 0: pre = ["!t%d" % r.randrange(1, th + 1)]
            if r.random() < .15: t, mx = 250, r.choice([1, 5, 40])
            d.many([e.build(2), e.setall(2)]); ctx.seen((tag, e.key(), t, th, mx, j, tuple(pre)), "threads %d target %d max %d jitter %d" % (th, t, mx, j))
            q = d.cmd(*(pre + ["n13.minet", 2, t, th, mx, j]))["r"]; ctx.count(tag + "_runs")
            mined(d, 2, e, t, q, None if pre else False if t == 250 else True if mx == 0 else None, "threaded mine target %d threads %d max %d %s" % (t, th, mx, pre))
            if i % 20 == 0: d.reset()
        d.reset(); ctx.leaks(d, "pow")
    d = ctx.driver("asan"); ctx.guard(d, body); ctx.guard(d, threaded, ctx.n(90, 1500), True, "threaded")
    d = ctx.driver("tsan", timeout=120); ctx.guard(d, threaded, ctx.n(40, 600), False, "tsan")
    if not ctx.quick:
        d = ctx.driver("asan-mbed"); ctx.guard(d, body)
