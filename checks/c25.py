"""C25: kind classes, replacement order, d tags, addresses, expiry."""
import re
from lib import gen
from lib.drv import hx
from checks.c24 import expiry, expired
def kclass(k):
    if k == 0 or k == 3 or 10000 <= k < 20000: return "p"
    if 20000 <= k < 30000: return "e"
    if 30000 <= k < 40000: return "a"
    return "r"
def first(tags, name):
    for t in tags:
        if t[0] == name and len(t) >= 2: return t[1]
    return None
def run(ctx):
    r = ctx.rng
    ctx.rule = "kind classified, pair of versions compared, arrival order folded to a survivor, or event's d/expiration values read; expected by the NIP-01/NIP-40 definitions; distinct by input"
    def body(d):
        o = d.cmd("rp.kinds", 0, 65536); s = bytes.fromhex(o["s"]).decode()
        for k in range(65536):
            if s[k] != kclass(k): ctx.check(False, "kind-class", "kind %d classified %s expected %s" % (k, s[k], kclass(k)), d); break
        ctx.check(len(s) == 65536, "kind-class", "%d" % len(s), d); ctx.count("kinds", 65536); ctx.seen(("kinds",), "all 65536 kinds")
        # comparison matrices over colliding versions
        for i in range(ctx.n(1500, 30000)):
            n = r.choice([2, 3, 5, 8, 12]); base = gen.rb(r, 32); t0 = gen.created(r) if r.random() < .7 else r.choice([2**63 - 1, -2**63, 2**62, -2**62])
            es = []
            for _ in range(n):
                e = gen.Event(gen.rb(r, 32) if r.random() < .3 else base, 0, gen.kind(r), [], b"", b"", gen.rb(r, 64) if r.random() < .3 else b"\0" * 64)
                k = r.random(); e.created = t0 if k < .6 else min(max(t0 + r.choice([-1, 1, 2**31, -2**31, 2**32, -2**32]), -2**63), 2**63 - 1) if k < .85 else r.choice([0, 2**63 - 1, -2**63, -1, 1])
                b = bytearray(base)
                if r.random() < .9: j = r.choice([0, 31, 15, 16, 8, r.randrange(32)]); b[j] = r.choice([0, 1, 127, 128, 255, b[j] ^ 0x80, (b[j] + 1) % 256])
                e.id = bytes(b) if r.random() < .85 else gen.rb(r, 32); es.append(e)
            d.many([c for j, e in enumerate(es) for c in (e.build(j), e.setall(j))])
            m = bytes.fromhex(d.cmd("rp.matrix", n)["s"]).decode()
            key = lambda e: (e.created, [-x for x in e.id])
            want = "".join("<" if key(a) < key(b) else ">" if key(a) > key(b) else "=" for a in es for b in es)
            ctx.seen(("matrix", tuple((e.created, e.id) for e in es))); ctx.count("pairs", n * n)
            if m != want:
                j = next(j for j in range(n * n) if m[j] != want[j])
                ctx.check(False, "order", "compare(%s, %s) = %s expected %s" % (es[j // n].view(), es[j % n].view(), m[j], want[j]), d)
            # any arrival order converges
            best = max(es, key=key)
            for _ in range(3):
                order = list(range(n)); r.shuffle(order); cur = order[0]
                for j in order[1:]:
                    if m[j * n + cur] == ">": cur = j
                ctx.count("arrival_orders"); ctx.check(key(es[cur]) == key(best), "survivor", lambda: "order %s kept %s of %s" % (order, cur, [e.view() for e in es]), d)
            if i % 200 == 0: d.reset()
        o = d.many([["rp.cmp", "-", 0], ["rp.cmp", 0, "-"], ["rp.cmp", "-", "-"]]); ctx.check(all(x["a"] == 0 == x["b"] for x in o), "null", "%s" % o, d)
        # d tag and expiration values
        for i in range(ctx.n(6000, 100000)):
            e = gen.event(r, 6, 20); now = r.choice([0, 1, 1700000000, 2**31, 2**40, 2**63 - 1, -1, -2**63])
            for _ in range(r.choice([0, 1, 1, 2])): e.tags.insert(r.randrange(len(e.tags) + 1), r.choice([[b"d"], [b"d", b""], [b"d", gen.text(r, 30)], [b"d", b"x" * 300], [b"D", b"no"], [b"dd", b"no"], [b"", b"no"], [b"d", b"a", b"b"], [b"d\x01", b"no"]]))
            for _ in range(r.choice([0, 1, 1, 1, 2])): e.tags.insert(r.randrange(len(e.tags) + 1), [r.choice([b"expiration"] * 8 + [b"Expiration", b"expiration2"])] + [r.choice([b"%d" % min(max(now + r.choice([0, 1, -1, 10, -10, 2**31]), 1), 2**63 - 1), b"%d" % r.choice([1, 2**31 - 1, 2**31, 2**32, 2**53, 2**63 - 1, 2**63, 2**64 + 5, 10**40]), b"007", b"", b"abc", b"12 ", b"12.5", b"1e9", b"-1", b"0x99", b"--1", b"+", b"-", gen.text(r, 6)]) for _ in range(r.choice([0, 1, 1, 1, 2]))])
            o = d.many([e.build(0), e.setall(0), ["rp.exp", 0, now]])[2]; dv = first(e.tags, b"d"); x = expiry(e.tags)
            ctx.seen(("values", e.key(), now)); ctx.count("expires" if isinstance(x, int) else "no_expiry"); ctx.count("dtag" if dv is not None else "no_dtag")
            ctx.check(o["d"] == (None if dv is None else dv.hex()), "d-tag", lambda: "%s of %s" % (o, e.tags), d)
            if x == "?" or (x and x >= 2**63 and now == 2**63 - 1): ctx.count("not_judged"); continue
            ctx.check(o["exp"] == (x or 0) if x is None or x < 2**63 else o["exp"] > 2**40, "expiration", lambda: "%s of %s" % (o, e.tags), d)
            ctx.check(o["at"] == int(expired(x, now)), "expired", lambda: "at %d: %s of %s" % (now, o, e.tags), d)
        d.reset(); ctx.leaks(d, "events")
    d = ctx.driver("asan"); ctx.guard(d, body)
