"""C16: NIP-65 relay lists."""
import random
from lib import gen
from lib.drv import hx, hl
def valid(u):
    """True/False, None = not judged (unusual characters)"""
    if u is None: return False
    for p in (b"wss://", b"ws://"):
        if u.startswith(p):
            rest = u[len(p):]
            if not rest or len(u) > 2048: return False
            if rest[:1] in b"/:?#@ ": return False
            if not (rest[:1].isalnum()): return None
            return True if all(0x21 <= c <= 0x7e for c in rest) else None
    return False
def run(ctx):
    ctx.rule = "add / view / to-event / from-event step of a relay-list history, whole list read back and compared with an ordered map; distinct by history prefix"
    def url(r, pool):
        k = r.random()
        if k < .35 and pool: return r.choice(pool)
        if k < .75: return r.choice([b"wss://", b"ws://"]) + bytes(r.choice(b"abcxyz019") for _ in range(r.choice([1, 2, 5, 10]))) + r.choice([b"", b"/", b".com", b":8080/x?y#z", b".COM"])
        if k < .8: return b"wss://" + b"a" * r.choice([2041, 2042, 2043, 3000])
        return r.choice([b"", b"wss://", b"ws://", b"w", b"ws", b"wss:/", b"http://a.b", b"https://a.b", b"WSS://a.b", b" wss://a.b", b"wss:///x", b"wss://:80", b"ws://?q", b"ws://#", b"wss://@h", b"ws:// a", b"wss//a.b", b"a", None, b"wsss://a.b"])
    def check_list(d, slot, M, lab):
        o, q = d.many([["rl.dump", slot], ["rl.views", slot]])
        ctx.check(o["n"] == len(M) and o["past"] and o["l"] == [[u.hex(), int(a), int(b)] for u, a, b in M], "list-content", lambda: "%s: %s expected %s" % (lab, o, M), d)
        ctx.check(q["rr"] == q["rw"] == 0 and q["read"] == [u.hex() for u, a, b in M if a] and q["write"] == [u.hex() for u, a, b in M if b], "list-views", lambda: "%s: %s expected %s" % (lab, q, M), d)
    def hist(d, seed, steps):
        r = random.Random(seed); M = None; pool = []; big = steps > 100; perms = r.choice([[(1, 1), (1, 0), (0, 1), (0, 0)]] * 2 + [[(1, 0)] * 30 + [(0, 1), (1, 1)], [(0, 1)] * 30 + [(1, 0), (1, 1)]])
        for st in range(steps):
            k = r.random(); lab = ""
            if M is None or k < .01: d.cmd("rl.create", 0); M = []; lab = "create"
            elif k < .7:
                u = b"wss://r%d.example" % r.randrange(10**6) if big and r.random() < .7 else pool[r.randrange(len(pool))] if big and pool and r.random() < .6 else url(r, pool); a, b = r.choice(perms if not big else perms[:3] if len(perms) < 9 else perms)
                o = d.cmd("rl.add", 0, hx(u), a, b); v = valid(u)
                if v is None: v = o["r"] == 0
                want = v and (a or b) and len(M) < 256 and all(x[0] != u for x in M)
                ctx.check((o["r"] == 0) == bool(want), "add-verdict", lambda: "add %r %d%d = %s, expected %s with %d entries" % (u, a, b, o, want, len(M)), d)
                if o["r"] == 0: M.append((u, a, b)); pool.append(u)
                lab = "add"
            elif k < .8:
                o = d.cmd("rl.toev", 0, 1); lab = "to_event"
                want = [[b"r", u] + ([] if a and b else [b"read"] if a else [b"write"]) for u, a, b in M]
                ctx.check(o["r"] == 0 and o["e"]["kind"] == 10002 and o["e"]["content"] in ("", None) and o["e"]["tags"] == [[x.hex() for x in t] for t in want], "to_event", lambda: "%s expected %s" % (o, want), d)
                o = d.cmd("rl.fromev", 1, 1); ctx.check(o["r"] == 0, "from_event", "%s" % o, d); check_list(d, 1, M, "round trip")
            else:
                e = gen.event(r, 2); e.kind = r.choice([10002] * 6 + [10001, 10003, 0, 30002, 2]); W = []; e.tags = [t for t in e.tags if t[0] != b"r"]; soft = False
                for _ in range(r.choice([0, 1, 2, 5, 20] + ([300] if big else []))):
                    u = url(r, pool) or b""; t = [r.choice([b"r"] * 8 + [b"R", b"rr", b"relay", b""]), u, r.choice([b"read", b"write", b"", b"read", b"write", b"READ", b"readwrite", b"x", b"wss://z"]), b"extra", r.choice([b"read", b"write", b"x"]), b"y"][:r.choice([1, 2, 2, 3, 3, 3, 4, 5, 6])]
                    e.tags.append(t)
                d.many([e.build(2), e.setall(2)]); o = d.cmd("rl.fromev", 2, 2); lab = "from_event"
                if e.kind != 10002: ctx.check(o["r"] != 0 and not o["dangling"], "wrong-kind", "%s" % o, d)
                elif ctx.check(o["r"] == 0, "from_event", lambda: "%s %s" % (o, e.view()), d):
                    g = d.cmd("rl.dump", 2)["l"]; i = 0; W = []
                    for t in e.tags:
                        if len(t) < 2 or t[0] != b"r" or any(x[0] == t[1].hex() for x in W): continue
                        v = valid(t[1])
                        if v is False or len(W) >= 256: continue
                        m = t[2] if len(t) > 2 else b""
                        w = [t[1].hex(), int(m != b"write"), int(m != b"read")]
                        if i < len(g) and g[i][0] == w[0]:
                            if m in (b"", b"read", b"write"): ctx.check(g[i] == w, "entry-permission", lambda: "%s expected %s" % (g[i], w), d)
                            W.append(g[i]); i += 1
                        elif v is None or m not in (b"", b"read", b"write"): continue
                        else: ctx.check(False, "entry-missing", lambda: "%s not at %d of %s, tags %s" % (w, i, g, e.tags), d); break
                    ctx.check(i == len(g), "entry-invented", lambda: "%s from %s" % (g[i:], e.tags), d)
            check_list(d, 0, M, lab); ctx.seen((seed, st), "%s -> %d entries" % (lab, len(M))); ctx.count(lab)
        d.reset()
    for cfg in ("asan",) if ctx.quick else ("asan", "asan-mbed"):
        d = ctx.driver(cfg); r = ctx.sub(cfg)
        for i in range(ctx.n(40, 900)): ctx.guard(d, hist, r.random(), r.choice([10, 30, 60]))
        for i in range(ctx.n(6, 40)): ctx.guard(d, hist, r.random(), 600)
        ctx.leaks(d, "nip65")
