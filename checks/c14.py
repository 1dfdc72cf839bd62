"""C14: NIP-10 thread structure."""
import re
from lib import gen
from lib.drv import hx, hl
HEX = re.compile(rb"[0-9a-fA-F]{64}")
def etags(e):
    """usable references: (id, relay, marker)"""
    return [(t[1], t[2] if len(t) > 2 else b"", t[3] if len(t) > 3 else b"") for t in e.tags if len(t) >= 2 and t[0] == b"e" and HEX.fullmatch(t[1])]
def expect(e):
    """(root, reply); each None = not found, 'any' = unspecified"""
    L = etags(e)
    if not L: return None, None
    R = [x for x in L if x[2] == b"root"]; P = [x for x in L if x[2] == b"reply"]; free = [x for x in L if x[2] not in (b"root", b"reply", b"mention")]
    if R or P:
        root = R[0] if R else "any"
        reply = P[0] if P else R[0]
        return root, reply
    if not free: return None, None
    return free[0], free[-1]
def run(ctx):
    r = ctx.rng
    ctx.rule = "root/reply/is-reply query on generated tag lists, and reply/mention tags built and read back; expected references from an independent NIP-10 reading of the tags; distinct by (operation, tag list)"
    def eid():
        k = r.random()
        if k < .85: return gen.hexid(r)
        b = gen.hexid(r)
        return r.choice([b[:-1], b + b"0", b + b"00", b.upper(), b[:5] + b"g" + b[6:], b"", b[:32], b" " + b[1:], b + b" "])
    def relay(): return r.choice([b"", b"wss://r.example", b"wss://" + b"a" * r.choice([20, 200, 248, 249]), gen.text(r, 30)])
    def marker(): return r.choice([b"root", b"reply", b"mention", b"", b"", b"Root", b"REPLY", b"roots", b"rootrootrootrootroot", b"replyreplyreplyreply", b" reply", gen.text(r, 8), gen.hexid(r)])
    def etag():
        t = [b"e", eid(), relay(), marker(), gen.hexid(r), gen.text(r, 5)]
        return t[:r.choice([1, 2, 2, 3, 4, 4, 4, 5, 6])]
    def event():
        e = gen.event(r, 3); e.tags = [t for t in e.tags if t[0] != b"e" or r.random() < .3]
        mode = r.randrange(4)
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 9] if r.random() < .97 else [16, 25, 33, 65, 100])):
            t = etag()
            if mode == 1: t = t[:3]
            if mode == 2 and len(t) > 3: t[3] = r.choice([b"root", b"reply", b"mention", b""])
            e.tags.insert(r.randrange(len(e.tags) + 1), t)
        if r.random() < .04: e.tags[r.randrange(len(e.tags) + 1):0] = [[b"t", b"x%d" % i] for i in range(r.randrange(10, 100))]
        if r.random() < .2: e.tags.insert(0, r.choice([[b"E", gen.hexid(r)], [b"ee", gen.hexid(r)], [b"", gen.hexid(r)], [b"q", gen.hexid(r), b"", b"root"], [b"p", gen.hexid(r), b"", b"reply"], [b"e"]]))
        return e
    def judge(d, slot, e, label):
        w = expect(e); idn, rn = r.choice([65, 65, 65, 66, 100]), r.choice([256, 256, 300, -1])
        a, b, c = d.many([["n10.root", slot, idn, rn], ["n10.reply", slot, idn, rn], ["n10.isreply", slot]])
        for nm, o, x in (("root", a, w[0]), ("reply", b, w[1])):
            if x == "any": continue
            ctx.seen((nm, label, e.key()), "%s of %d tags" % (nm, len(e.tags))); ctx.count(nm + ("_found" if x else "_none"))
            if x is None: ctx.check(o["r"] != 0, nm + "-invented", lambda: "%s from %s" % (o, e.view()["tags"]), d)
            else:
                ok = o["r"] == 0 and o["id"] == x[0].hex() and o["idnul"] == 1
                if ok and rn > 0 and len(x[1]) < 256: ok = o["relay"] == x[1].hex() and o["rnul"] == 1
                ctx.check(ok, nm, lambda: "%s expected %s from %s" % (o, x, e.tags), d)
        ctx.check(c["r"] == 0 and c["x"] == (1 if w[1] else 0), "is-reply", lambda: "%s expected %s from %s" % (c, w[1], e.tags), d)
    def body(d):
        for i in range(ctx.n(2500, 40000)):
            e = event(); d.many([e.build(0), e.setall(0)]); judge(d, 0, e, "read")
            if i % 4 == 0:
                ctx.check(d.cmd("n10.root", 0, r.choice([0, 1, 64]), 256)["r"] != 0, "short-buffer", "", d)
                o = d.many([["n10.root", 0, 65, 5], ["n10.reply", 0, 65, 1], ["ev.get", 0]]); ctx.check(o[2]["e"] == e.view(), "query-changed-event", "", d)
            # tags written and read back
            e = gen.event(r, 4)
            if r.random() < .8: e.tags = [t for t in e.tags if t[0] != b"e"]
            d.many([e.build(1), e.setall(1)])
            a = [gen.hexid(r) if r.random() < .7 else None, relay() if r.random() < .6 else None, gen.hexid(r) if r.random() < .5 else None,
                 gen.hexid(r) if r.random() < .7 else None, relay() if r.random() < .6 else None, gen.hexid(r) if r.random() < .5 else None]
            o = d.cmd("n10.add", 1, *[hx(x) for x in a]); ctx.seen(("add", e.key(), tuple(a)))
            ctx.check((o["r"] == 0) == bool(a[0] or a[3]), "add-verdict", lambda: "%s %s" % (a, o), d)
            if i % 8 == 0:      # refused part-way, nothing is left behind
                e2 = gen.event(r, 4); d.many([e2.build(4), e2.setall(4)])
                for k in range(1, 8):
                    f = d.cmd("!f%d" % k, "n10.add", 4, *[hx(x) for x in a]); g = d.cmd("ev.get", 4)["e"]; ctx.seen(("refused", e2.key(), tuple(a), k)); ctx.count("refused_adds")
                    if f["r"] == 0 or not (a[0] or a[3]): break
                    if not ctx.check(g == e2.view(), "refused-add-left-tags", lambda: "allocation %d failing: %s, expected %s" % (k, g, e2.view()), d): break
            for off, m in ((0, b"root"), (3, b"reply")):
                if a[off]: e.tags.append([b"e", a[off], a[off+1] or b"", m] + ([a[off+2]] if a[off+2] else []))
            pk, rl = gen.hexid(r), relay() if r.random() < .5 else None
            if r.random() < .5:
                o = d.cmd("n10.mention", 1, hx(pk), hx(rl)); ctx.check(o["r"] == 0, "mention-verdict", "%s" % o, d); e.tags.append([b"p", pk] + ([rl] if rl is not None else []))
            g = d.cmd("ev.get", 1)["e"]; ctx.check(g == e.view(), "added-tags", lambda: "%s expected %s" % (g, e.view()), d)
            judge(d, 1, e, "written")
            if i % 50 == 0: d.reset()
        d.reset(); ctx.leaks(d, "nip10")
    for cfg in ("asan",) if ctx.quick else ("asan", "asan-mbed"):
        d = ctx.driver(cfg); ctx.guard(d, body)
