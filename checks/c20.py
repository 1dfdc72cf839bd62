"""C20: NIP-01 filter matching."""
import json
from lib import gen
from lib.drv import hx, hl
LET = "eptdrEPTaqZ"
def hexes(r, b):
    """hex prefix of b of any admissible length"""
    h = b.hex().encode(); return h[:r.choice([64, 64, 64, 63, 33, 32, 8, 2, 1])]
def build(slot, f):
    c = ["fl.build", slot, hl(f["ids"]), hl(f["authors"]), ",".join(map(str, f["kinds"])) if f["kinds"] else "-", hl(f["tags"].get("e", [])), hl(f["tags"].get("p", [])), f["since"], f["until"], f["limit"], hx(f["search"])]
    for l, v in f["tags"].items():
        if l not in "ep": c += [ord(l), hl(v)]
    return c
def one(f, e):
    i, a = e.id.hex().encode(), e.pk.hex().encode()
    if f["ids"] and not any(i.startswith(x) for x in f["ids"]): return False
    if f["authors"] and not any(a.startswith(x) for x in f["authors"]): return False
    if f["kinds"] and e.kind not in f["kinds"]: return False
    if f["since"] and e.created < f["since"]: return False
    if f["until"] and e.created > f["until"]: return False
    for l, v in f["tags"].items():
        if not any(len(t) >= 2 and t[0] == l.encode() and t[1] in v for t in e.tags): return False
    return True
def text(f):
    d = lambda b: b.decode("utf-8")
    o = {}
    for k in ("ids", "authors"):
        if f[k]: o[k] = [d(x) for x in f[k]]
    if f["kinds"]: o["kinds"] = list(f["kinds"])
    for k in ("since", "until", "limit"):
        if f[k]: o[k] = f[k]
    for l, v in f["tags"].items(): o["#" + l] = [d(x) for x in v]
    if f["search"] is not None: o["search"] = d(f["search"])
    return o
def run(ctx):
    r = ctx.rng
    ctx.rule = "filter (or list of filters) applied to an event, built as a structure and parsed from JSON; verdict predicted by an independent evaluation of NIP-01; distinct by (filters, event, search mode)"
    def word(): return r.choice([b"alice", b"bob", b"Bob", b"", b"x" * 300, "é".encode(), b"30023:aa:x", b"a", b"ab", b'"q"', b"wss://r.example", hexpool[r.randrange(6)], hexpool[r.randrange(6)]])
    hexpool = []
    def event():
        hexpool[:] = [gen.hexid(r) for _ in range(6)]
        big = r.random() < .06
        n = r.choice([255, 256, 257, 300, 600]) if big else r.choice([0, 1, 2, 4, 8, 8, 20])
        e = gen.Event(gen.rb(r, 32), gen.created(r), gen.kind(r), [], b"some content about alice", gen.rb(r, 32), gen.rb(r, 64))
        for _ in range(n):
            l = r.choice(LET if not big else "ee" + LET).encode() if r.random() < .85 else r.choice([b"ee", b"client", b"", b"#e", b"exp"])
            t = [l] + [word() if not big or r.random() < .05 else b"v%d" % r.randrange(10**6) for _ in range(r.choice([0, 1, 1, 1, 1, 2, 3]))]
            e.tags.append(t)
        return e
    def val(e, l):
        """a filter value, often one the event carries (in the right or the wrong place)"""
        have = [t[1] for t in e.tags if len(t) > 1 and t[0] == l.encode()]; k = r.random()
        if have and k > .8 and max(map(len, have)) > 100: v = max(have, key=len); j = r.randrange(len(v)); return v[:j] + b"!" + v[j + 1:]
        if have and k < .45: return r.choice(have) if r.random() < .6 else have[-1]
        if have and k < .55: v = r.choice(have); return r.choice([v[:-1], v + b"x", v.upper(), v.swapcase()])
        if k < .65: xs = [v for t in e.tags for v in t[2:]] or [b"zz"]; return r.choice(xs)
        if k < .75: xs = [t[1] for t in e.tags if len(t) > 1] or [b"zz"]; return r.choice(xs)
        return word()
    def near(e, b):
        if r.random() < .55: return hexes(r, b)
        h = bytearray(hexes(r, b)); i = r.randrange(len(h)); h[i] = r.choice(gen.HEX); return bytes(h)
    def filt(e):
        f = dict(ids=[], authors=[], kinds=[], since=0, until=0, limit=0, search=None, tags={})
        lots = r.random() < .05
        m = lambda: r.choice([1, 1, 2, 3]) if not lots else r.choice([200, 255, 256])
        if r.random() < .3: f["ids"] = [near(e, e.id) if r.random() < .5 else hexes(r, gen.rb(r, 32)) for _ in range(m())]
        if r.random() < .3: f["authors"] = [near(e, e.pk) if r.random() < .5 else hexes(r, gen.rb(r, 32)) for _ in range(m())]
        if r.random() < .35: f["kinds"] = [e.kind if r.random() < (.6 if not lots else .003) else r.choice([gen.kind(r), e.kind ^ 1, e.kind + 65536, e.kind - 65536, -1]) for _ in range(m())]
        if r.random() < .35: f["since"] = r.choice([e.created, e.created + 1, e.created - 1, gen.created(r)])
        if r.random() < .35: f["until"] = r.choice([e.created, e.created + 1, e.created - 1, gen.created(r)])
        for l in r.sample(LET, r.choice([0, 0, 1, 1, 2, 3])): f["tags"][l] = [val(e, l) for _ in range(m())]
        if r.random() < .1: f["limit"] = r.choice([1, 0, 500])
        if r.random() < .25: f["search"] = r.choice([b"alice", b"nobody", b"", b"content"])
        for k in ("since", "until"):
            if abs(f[k]) > 2**53 - 1: f[k] = 0
        if r.random() < .08:       # one condition of many values; the event meets it, if at all, at one place
            k = r.choice(["kinds", "tag", "tag", "ids", "authors"]); n = r.choice([17, 33, 65, 100, 129, 200, 256]); at = r.choice([n - 1, r.randrange(n), r.randrange(n), None]); f = dict(ids=[], authors=[], kinds=[], since=0, until=0, limit=0, search=None, tags={})
            have = [t for t in e.tags if len(t) > 1 and t[0] in [l.encode() for l in LET]]
            if k == "kinds": v = [(e.kind + 1 + j) % 65536 for j in range(n)]; g = e.kind
            elif k in ("ids", "authors"): v = [gen.hexid(r) for _ in range(n)]; g = (e.id if k == "ids" else e.pk).hex().encode()[:r.choice([64, 64, 62, 20])]
            else:
                t = r.choice(have or [[b"t", b"never"]]); k = t[0].decode(); v = [b"other%d" % j for j in range(n)]; g = t[1]
            if at is not None: v[at] = g
            if k in f: f[k] = v
            else: f["tags"][k] = v
        elif r.random() < .06:     # conditions on many letters, one of them perhaps unmet
            f = dict(ids=[], authors=[], kinds=[], since=0, until=0, limit=0, search=None, tags={}); L = {}
            for t in e.tags:
                if len(t) > 1 and t[0] in [l.encode() for l in LET]: L.setdefault(t[0].decode(), []).append(t[1])
            ks = list(L); r.shuffle(ks)
            for l in ks: f["tags"][l] = [r.choice(L[l])]
            if ks and r.random() < .7: l = r.choice(ks + ks[-1:] * 3); f["tags"][l] = [b"never met"]
        return f
    def body(d):
        for i in range(ctx.n(2500, 60000)):
            e = event(); fs = [filt(e) for _ in range(r.choice([1, 1, 2, 3, 6]))]
            if i % 25 == 0:
                n = r.choice([9, 11, 16, 18, 33, 60]); fs = [dict(ids=[], authors=[], kinds=[(e.kind + 1 + j) % 65536], since=0, until=0, limit=0, search=None, tags={}) for j in range(n)]; fs[r.choice([n - 1, r.randrange(n)])] = filt(e)
            cmds = [e.build(0), e.setall(0)]; js = r.random() < .5
            utf = js and all(gen.utf8(x) for f in fs for v in [f["ids"], f["authors"], *f["tags"].values()] for x in v)
            for k, f in enumerate(fs): cmds.append(["fl.parse", k, hx(json.dumps(text(f), ensure_ascii=r.random() < .5).encode()), r.randrange(4)] if utf else build(k, f))
            o = d.many(cmds); ctx.check(all(x["r"] == 0 for x in o[2:]), "filter-refused", lambda: "%s %s" % (o, fs), d)
            want = [one(f, e) for f in fs]
            for mode in range(5):
                o = d.cmd("fl.match", 0, mode, *range(len(fs)))
                w = list(want); asked = []
                for k, f in enumerate(fs):
                    if mode and w[k] and f["search"]:
                        if mode != 4: asked.append(f["search"])
                        w[k] = {1: True, 2: False, 3: f["search"] in e.content, 4: False}[mode]
                ctx.seen(("match", e.key(), repr(fs), mode)); ctx.count("match" if any(w) else "nomatch")
                what = lambda: "mode %d filters %s event %s: %s expected %s" % (mode, fs, e.view(), o, w)
                ctx.check(o["one"] == [int(x) for x in w], "filter-verdict", what, d)
                ctx.check(o["r"] == int(any(w)), "list-verdict", what, d)
                if mode: ctx.check(not o["bad"] and o["calls"] == len(asked) and [bytes.fromhex(x) for x in o["q"][o["listcalls"]:]] == asked, "search-callback", what, d)
            if i % 200 == 0: d.reset()
        d.reset(); ctx.leaks(d, "filters")
        o = d.cmd("fl.null"); ctx.check(o["r"] == 0, "null-arguments", "%s" % o, d)
    d = ctx.driver("asan"); ctx.guard(d, body)
