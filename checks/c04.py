"""C04: edit histories of event objects against a plain list model."""
import random
from lib import gen
from lib.drv import hx, hl
from checks.c28 import DEF
def run(ctx):
    ctx.rule = "edit operation on an event, its result and the full event read back (directly and through every accessor) compared with a list model; distinct by history prefix"
    def tagvals(r, big):
        k = r.choice([1, 1, 2, 2, 3, 4, 8, 13, 50] + ([51, 100, 300] if big else []))
        L = r.choice([0, 1, 3, 7, 8, 15, 64, 200] + ([1000, 5000] if big else []))
        return [gen.text(r, L) if r.random() < .6 else b"a" * r.choice([L, L + 1, r.randrange(L + 1)]) for _ in range(k)]
    def acc_check(d, m, slot):
        o = d.cmd("ev.access", slot)
        want = [[v.hex() for v in t] for t in m["tags"]]
        got = [[x for x in t] for t in o["tags"]]
        exp = [[t[0], len(t)] + t + [1] for t in want]
        ctx.check(o["n"] == len(want) and got == exp and o["past"] == 1, "accessors", lambda: "%s expected %s" % (got, exp), d)
        ctx.check(o["at"] == want and o["it"] == want and o["itinfo"] == want, "iteration", lambda: "%s expected %s" % (o, want), d)
        ctx.check(o["id"] == m["id"].hex().encode().hex() and o["pk"] == m["pk"].hex().encode().hex() and o["idb"] == m["id"].hex() and o["pkb"] == m["pk"].hex(), "id-accessors", lambda: "%s" % o, d)
    def query(d, m, slot, r):
        names = [t[0] for t in m["tags"]] + [b"e", b"d", b"zz", b""]
        nm = r.choice(names); mx = r.choice([1, 2, 3, 100, 1000])
        o = d.cmd("ev.tagq", slot, hx(nm), mx)
        vals = [t[1] for t in m["tags"] if t[0] == nm and len(t) >= 2]; idx = [i for i, t in enumerate(m["tags"]) if t[0] == nm]
        ctx.check(o["value"] == (vals[0].hex() if vals else None) and o["has"] == bool(idx) and o["find"] == (idx[0] if idx else -1), "tag-query", lambda: "%r: %s in %s" % (nm, o, m["tags"]), d)
        ctx.check(o["k"] == min(mx, len(vals)) and o["values"] == [v.hex() for v in vals[:mx]], "tag-values", lambda: "%r max %d: %s in %s" % (nm, mx, o, m["tags"]), d)
        ctx.check(o["indexable"] == (len(nm) == 1 and nm.isalpha()), "indexable", "%r %s" % (nm, o), d)
        o = d.cmd("ev.binary", slot)
        for c, k in ((b"e", "e"), (b"p", "p")):
            w = [t[1].decode() for t in m["tags"] if t[0] == c and len(t) >= 2 and len(t[1]) == 64 and all(x in b"0123456789abcdef" for x in t[1])]
            ctx.check(o[k] == w and o[k + "c"] == len(w) and o[k + "null"] == (not w), "binary-tags", lambda: "%s expected %s" % (o, w), d)
    def hist(d, seed, lim, steps):
        r = random.Random(seed); M = {}
        mt, mv, mc = lim if lim else (10**9, 10**9, 10**9)
        for st in range(steps):
            slot = r.randrange(3); k = r.random(); m = M.get(slot)
            if m is None:
                o = d.cmd("ev.create", slot); ctx.check(o["r"] == 0, "create", "%s" % o, d)
                e = gen.event(r); d.cmd("ev.set", slot, hx(e.pk), e.created, e.kind, hx(e.id), hx(e.sig))
                M[slot] = m = dict(tags=[], content=None, id=e.id, pk=e.pk, sig=e.sig, created=e.created, kind=e.kind); lab = "create"
            elif k < .5:
                t = tagvals(r, steps > 60)
                if r.random() < .08: t[r.randrange(len(t))] = None
                if r.random() < .03: t = r.choice([[], None])
                if r.random() < .06 and lim: t = [b"v"] * r.choice([mv, mv + 1, mv - 1 or 1])
                o = d.cmd("ev.addtag", slot, hl(t)); lab = "add_tag"
                ok = bool(t) and None not in t and len(m["tags"]) < mt and len(t) <= mv
                ctx.check((o["r"] == 0) == ok, "add_tag-result", lambda: "add_tag of %d values to %d tags = %s expected %s (limits %s)" % (len(t or []), len(m["tags"]), o["r"], ok, lim), d)
                if ok: m["tags"].append(list(t))
            elif k < .6 and m["tags"]:
                src = r.choice([s for s in M if M[s]["tags"]]); j = r.randrange(len(M[src]["tags"])); t = list(M[src]["tags"][j])
                if r.random() < .3: src, j, t = slot, len(m["tags"]) - 1, list(m["tags"][-1])
                o = d.cmd("ev.addtag_alias", slot, src, j); lab = "add_tag_alias"; ok = len(m["tags"]) < mt
                ctx.check((o["r"] == 0) == ok, "add_tag-alias", "%s" % o, d)
                if ok: m["tags"].append(t)
            elif k < .66:
                n = r.choice([5, 20, 64, 130]); o = d.cmd("ev.manytags", slot, n, hx(b"t"), hx(b"val")); lab = "add_many"
                done = min(n, max(0, mt - len(m["tags"]))); ok = done == n and mv >= 2
                ctx.check((o["r"] == 0) == ok and o["done"] == (done if mv >= 2 else 0), "add_tag-many", lambda: "%s with %d tags, limits %s" % (o, len(m["tags"]), lim), d)
                if mv >= 2: m["tags"] += [[b"t", b"val%d" % i] for i in range(done)]
            elif k < .8:
                c = None if r.random() < .1 else gen.text(r, r.choice([5, 50, 3000])) if not lim or r.random() < .6 else b"c" * r.choice([mc - 1, mc, mc + 1, mc + 100])
                o = d.cmd("ev.setcontent", slot, hx(c)); ok = c is not None and len(c) <= mc; lab = "set_content"
                ctx.check((o["r"] == 0) == ok, "set_content-result", lambda: "set_content(%s bytes)=%s limits %s" % (None if c is None else len(c), o["r"], lim), d)
                if ok: m["content"] = c
            elif k < .84 and m["content"]:
                off = r.randrange(len(m["content"]) + 1); o = d.cmd("ev.setcontent_alias", slot, off); lab = "set_content_alias"
                ctx.check(o["r"] == 0, "set_content-alias", "%s" % o, d); m["content"] = m["content"][off:]
            elif k < .88:
                d.cmd("ev.destroy", slot); del M[slot]; lab = "destroy"; m = None
            else:
                lab = "query"; acc_check(d, m, slot); query(d, m, slot, r)
            ctx.seen((seed, st), "%s: %s" % (seed, lab)); ctx.count(lab)
            for s in (M if st % 7 == 0 else [slot] if slot in M else []):
                x = M[s]; o = d.cmd("ev.get", s)["e"]
                w = dict(id=x["id"].hex(), pubkey=x["pk"].hex(), created_at=x["created"], kind=x["kind"], tags=[[v.hex() for v in t] for t in x["tags"]], content=None if x["content"] is None else x["content"].hex(), sig=x["sig"].hex())
                if not ctx.check(o == w, "state:" + lab, lambda: "after %s event is %s expected %s" % (lab, str(o)[:2500], str(w)[:2500]), d): return
        ctx.count("max_tags_seen", 0); ctx.counts["max_tags_seen"] = max([ctx.counts["max_tags_seen"]] + [len(m["tags"]) for m in M.values()])
        d.reset()
    d = ctx.driver()
    for i in range(ctx.n(60, 800)): ctx.guard(d, hist, "%s/a%d" % (ctx.seed, i), None, 40)
    for i in range(ctx.n(4, 40)): ctx.guard(d, hist, "%s/b%d" % (ctx.seed, i), None, 120)
    # sweep the arena growth boundary: every fill level modulo alignment, then one tag that forces growth
    def sweep(d):
        for fill in range(0, 1100, ctx.n(7, 1)):
            tags = [[b"f" * fill], [b"a", b"b" * (fill % 17)], [b"g" * 1200, b"", b"h"], [b"z", b"y" * 40]]
            o = d.many([["ev.create", 0], ["ev.addtags", 0] + [hl(t) for t in tags], ["ev.get", 0]])
            ctx.seen(("sweep", fill)); ctx.count("growth_sweep")
            ctx.check(o[1]["r"] == 0 and o[2]["e"]["tags"] == [[v.hex() for v in t] for t in tags], "growth", lambda: "fill %d: %s" % (fill, str(o[2])[:1500]), d)
        d.reset(); ctx.leaks(d, "edit")
    ctx.guard(d, sweep)
    # events of very many tags: every accessor, and the e/p tags wherever they stand
    def wide(d):
        for i in range(ctx.n(12, 150)):
            r = random.Random("%s/w%d" % (ctx.seed, i)); n = r.choice([65, 130, 260, 400, 900]); e = gen.event(r, 0); T = []
            for j in range(n):
                l = r.choice([b"e", b"p", b"t", b"d"] if i % 3 else [r.choice([b"e", b"p"])] * 9 + [b"x"]); h = gen.hexid(r)
                T.append([l] + ([h if r.random() < .8 else r.choice([h.upper(), h[:63], h + b"0", h[:63] + b"g", b""])] if r.random() < .97 else []) + [b"x"] * r.choice([0, 0, 2]))
            o = d.many([["ev.create", 0], ["ev.set", 0, hx(e.pk), e.created, e.kind, hx(e.id), hx(e.sig)]] + [["ev.addtags", 0] + [hl(t) for t in T[k:k + 100]] for k in range(0, n, 100)])
            ctx.check(all(x["r"] == 0 for x in o[2:]), "add_tag-result", "%s" % o, d); m = dict(tags=T, content=None, id=e.id, pk=e.pk, sig=e.sig, created=e.created, kind=e.kind)
            ctx.seen(("wide", i, n), "%d tags" % n); ctx.count("wide_events")
            acc_check(d, m, 0)
            for _ in range(6): query(d, m, 0, r)
        d.reset()
    ctx.guard(d, wide)
    # configured limits, in processes of their own
    for j, lim in enumerate([(1, 1, 1024), (3, 2, 1025), (100, 50, 65536), (7, 5, 2000)] + ([] if ctx.quick else [(1000, 1000, 1048576), (64, 1000, 4096), (999, 3, 1024)])):
        d2 = ctx.driver(); c = list(DEF); c[6], c[7], c[5] = lim
        def lims(d):
            ctx.check(d.cmd("cfg.init", *DEF if j % 2 else c)["r"] == 0, "cfg", "", d)
            if j % 2: ctx.check(d.cmd("cfg.update", *c)["r"] == 0, "cfg", "", d)
            for i in range(ctx.n(5, 40)): hist(d, "%s/l%d/%d" % (ctx.seed, j, i), lim, 60)
        ctx.guard(d2, lims)
