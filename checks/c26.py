"""C26: deletion requests."""
import re
from lib import gen
from lib.drv import hx
from checks.c24 import address, addrs, hex64
from checks.c25 import first
def run(ctx):
    r = ctx.rng
    ctx.rule = "deletion request parsed and asked about targets near the named ones (ids one digit off, addresses with other kind, author or d tag, long and odd d tags); expected from its tags; distinct by request and target"
    def body(d):
        for i in range(ctx.n(2500, 50000)):
            req = gen.event(r, 4, 30); req.kind = 5 if r.random() < .95 else r.choice([4, 6, 1, 0, 65535, 5 + 256, 5000, 50]); req.tags = [t for t in req.tags if t[0] not in (b"e", b"a")] if r.random() < .5 else req.tags
            if r.random() < .3: req.content = b""
            elif r.random() < .05: req.content = gen.text(r, 10) * r.choice([100, 300, 2000])
            targets = []
            for _ in range(r.choice([1, 2, 4])):
                t = gen.event(r, 4, 10); t.kind = r.choice([30000, 30023, 39999, 30023, 40000, 29999, 1, 0, 10002, 3, gen.kind(r)])
                if r.random() < .8: t.pk = req.pk
                if r.random() < .8: t.tags.insert(r.randrange(len(t.tags) + 1), [b"d", r.choice([b"", gen.text(r, 20), b"x" * r.choice([100, 150, 170, 178, 183, 184, 185, 186, 187, 190, 200, 255, 256, 300, 5000]), b"a:b:c", b"my-article", b"%s%n%d"])] + ([b"z"] if r.random() < .2 else []))
                if r.random() < .05: t.tags = [x for x in t.tags if x[0] != b"d"] + [[b"d"]]
                targets.append(t)
            addr = lambda k, pk, dv: b"%d:%s:%s" % (k, pk.hex().encode(), dv)
            for t in targets:
                h = t.id.hex().encode(); dv = first(t.tags, b"d") or b""
                k = r.randrange(14); j = r.randrange(64)
                near = {0: h, 1: h, 2: h, 3: h[:j] + r.choice([b"0", b"f", b"a"]) + h[j + 1:], 4: h.upper(), 5: h[:63], 6: h + b"0", 7: h[:j] + b"g" + h[j + 1:], 8: b"", 9: h[:-1] + b"\n", 10: b" " + h}.get(k)
                if near is not None: req.tags.insert(r.randrange(len(req.tags) + 1), [r.choice([b"e"] * 9 + [b"E", b"ee", b""]), near] + ([b"wss://x"] if r.random() < .3 else []))
                k = r.randrange(16)
                near = {0: addr(t.kind, t.pk, dv), 1: addr(t.kind, t.pk, dv), 2: addr(t.kind, t.pk, dv), 3: addr(t.kind, t.pk, dv), 4: addr(t.kind ^ 1, t.pk, dv), 5: addr(t.kind, gen.rb(r, 32), dv), 15: addr(t.kind, t.pk[:31] + bytes([t.pk[31] ^ 1]), dv), 6: addr(t.kind, t.pk, dv + b"x"), 7: addr(t.kind, t.pk, dv[:-1]), 8: addr(t.kind + 65536, t.pk, dv),
                        9: addr(t.kind, t.pk, dv).upper(), 10: b"0" + addr(t.kind, t.pk, dv), 11: addr(t.kind, t.pk, b""), 12: addr(t.kind, t.pk, dv)[:-len(dv) - 1], 13: addrs(r)}.get(k)
                if near is not None: req.tags.insert(r.randrange(len(req.tags) + 1), [r.choice([b"a"] * 9 + [b"A", b"aa"]), near] + ([b"wss://x"] if r.random() < .3 else []))
                if r.random() < .1: req.tags.insert(0, r.choice([[b"e"], [b"a"], [b"e", b"", h], [b"a", b"x", addr(t.kind, t.pk, dv)]]))
            if r.random() < .05:       # a request naming very many things
                n = r.choice([60, 101, 130, 260, 520]); more = [[b"e", gen.hexid(r)] if r.random() < .5 else [b"a", addr(30023, req.pk, b"n%d" % j)] for j in range(n)]
                req.tags = more + req.tags if r.random() < .5 else req.tags + more; ctx.count("many_named")
            o = d.many([req.build(0), req.setall(0), ["rp.del", 0, 0]])[2]
            if req.kind != 5: ctx.check(o["r"] != 0, "not-a-deletion", lambda: "%s %s" % (o, req.view()), d); ctx.count("other_kind"); continue
            ids = [t[1] for t in req.tags if t[0] == b"e" and len(t) > 1 and hex64(t[1])]
            ads = [(t[1], address(t[1])) for t in req.tags if t[0] == b"a" and len(t) > 1 and address(t[1]) is not False]
            what = lambda: "%s of %s" % (o, req.view())
            if not ctx.check(o["r"] == 0, "parse", what, d): continue
            ctx.check(o["pk"] == req.pk.hex().encode().hex(), "author", what, d)
            ctx.check((o["reason"] or "") == req.content.hex(), "reason", what, d)
            ctx.check(o["ids"] == [x.hex() for x in ids], "ids", what, d)
            odd = {a.hex() for a, w in ads if w is None}
            ctx.check([x for x in o["addrs"] if x not in odd] == [a.hex() for a, w in ads if w], "addresses", what, d)
            # bystanders: same tags but somebody else's, unlisted events, and the request's own view
            extra = []
            for t in targets:
                b = t.copy(); b.pk = gen.rb(r, 32); extra.append(b)
                b = t.copy(); x = bytearray(b.id); x[r.randrange(32)] ^= 1 << r.randrange(8); b.id = bytes(x); extra.append(b)
                b = t.copy(); x = bytearray(b.pk); x[r.choice([0, 31, r.randrange(32)])] ^= 1 << r.randrange(8); b.pk = bytes(x); extra.append(b)
                b = t.copy(); b.pk = b.pk[:31] + bytes([b.pk[31] ^ 1]); extra.append(b)
                b = t.copy(); b.kind = r.choice([t.kind ^ 1, 30023, (t.kind + 1) % 65536]); extra.append(b)
                b = t.copy(); b.tags = [[b"d", (first(t.tags, b"d") or b"") + b"y"]] + b.tags; extra.append(b)
            for t in targets + extra:
                q = d.many([t.build(1), t.setall(1), ["rp.auth", 0, 1]])[2]; dv = first(t.tags, b"d") or b""
                wid = t.pk == req.pk and t.id.hex().encode() in ids
                wad = t.pk == req.pk and 30000 <= t.kind < 40000 and addr(t.kind, t.pk, dv) in [a for a, w in ads]
                ctx.seen(("auth", tuple(ids), tuple(ads), req.pk, t.key())); ctx.count("by_id" if wid else "no_id"); ctx.count("by_address" if wad else "no_address")
                w2 = lambda: "request %s target %s: %s expected %s %s" % (req.view(), t.view(), q, wid, wad)
                ctx.check(q["id"] == int(wid), "authorized-id" if wid else "unauthorized-id", w2, d)
                named = t.pk == req.pk and addr(t.kind, t.pk, dv) in [a for a, w in ads]
                if wad or not (named and (t.kind in (0, 3) or 10000 <= t.kind < 20000)): ctx.check(q["addr"] == int(wad), "authorized-address" if wad else "unauthorized-address", w2, d)
                ctx.check(q["isdel"] == int(t.kind == 5), "is_deletion", w2, d)
            if r.random() < .5: o = d.cmd("rp.delfree", 0); ctx.check(o["clean"] == 1, "free", "%s" % o, d)
            if i % 200 == 0: d.reset()
        d.reset(); ctx.leaks(d, "deletion requests")
        o = d.many([["rp.del", 0, "-"], ["rp.auth", 3, 1], ["rp.auth", 3, "-"]]); ctx.check(o[0]["r"] != 0 and not any(o[k][x] for k in (1, 2) for x in ("id", "addr")), "null", "%s" % o, d)
    d = ctx.driver("asan"); ctx.guard(d, body)
