"""C23: relay message serialization."""
import json
from lib import gen
from lib.drv import hx
from checks import c03
def carried(s, cap):
    """what a field of `cap` bytes can carry: all of it, or a prefix of whole characters"""
    if len(s) <= cap: return s
    return s[:cap].decode("utf-8", "ignore").encode()
def run(ctx):
    r = ctx.rng
    ctx.rule = "relay message built from its arguments and serialized into a buffer of exact size; output read back by Python's json; distinct by (type, arguments, buffer size)"
    def txt(cap):
        n = r.choice([0, 1, 5, 20, cap - 2, cap - 1, cap, cap + 1, cap + 2, 3 * cap]); s = b""
        while len(s) < n: s += gen.text(r, 30) or b"x"
        s = s.decode("utf-8", "ignore").encode()
        k = r.random()
        if k < .3: s = s[:n].decode("utf-8", "ignore").encode()
        elif k < .5: s = b"x" * max(0, cap - r.randrange(4)) + r.choice(["é", "日", "😀"]).encode() + b"tail"
        return s
    def case():
        t = r.choice([0, 0, 1, 2, 3, 4, 5, 6]); e = None
        sub = r.choice([gen.hexid(r), b"sub1", txt(64), txt(64), b'a"b\\c', b'"],["X'])
        if t == 0:
            e = gen.event(r, 6, 80)
            e.created = r.choice([e.created, 2**53 + 1, 2**63 - 1, -2**63, 2**60 + 7]) if r.random() < .5 else e.created
            u = lambda b: b.decode("utf-8", "ignore").encode()
            e.content = u(e.content); e.tags = [[u(x) for x in y] for y in e.tags]
            if r.random() < .03: e.content += u(gen.text(r, 20)) * r.choice([300, 3000, 6000])
            if r.random() < .2: e.content += b' // not a comment /* "x" */ \t "//" \\"'
            return t, ["EVENT", sub], [hx(sub), 0], e, [64]
        if t == 1: m = txt(255); ok = r.randrange(2); i = r.choice([gen.hexid(r), txt(64)]); return t, ["OK", i, bool(ok), m], [hx(i), ok, hx(m)], None, [64, None, 255]
        if t == 2: return t, ["EOSE", sub], [hx(sub)], None, [64]
        if t == 3: m = txt(255); return t, ["CLOSED", sub, m], [hx(sub), hx(m)], None, [64, 255]
        if t == 4: m = txt(255); return t, ["NOTICE", m], [hx(m)], None, [255]
        if t == 5: m = txt(127); return t, ["AUTH", m], [hx(m)], None, [127]
        c = r.choice([0, 1, 42, 2**31, 2**53 - 1, 2**53 + 1, 2**63 - 1, 10**15, 10**16, r.randrange(2**63)]); a = r.randrange(2)
        return t, ["COUNT", sub, dict(count=c, approximate=True) if a else dict(count=c)], [hx(sub), c, a], None, [64]
    def same(o, w, caps, e):
        if not isinstance(o, list) or len(o) != len(w) + (e is not None): return "shape"
        if e is not None:
            g = c03.strict(json.dumps(o[2]).encode()) if isinstance(o[2], dict) else ("bad",)
            full = dict(id=e.id.hex(), pubkey=e.pk.hex(), created_at=e.created, kind=e.kind, tags=[[x.decode() for x in t] for t in e.tags], content=e.content.decode(), sig=e.sig.hex())
            if o[2] != full: return "event"
        if o[0] != w[0]: return "type"
        for k, (g, x) in enumerate(zip(o[1:], w[1:])):
            if isinstance(x, bytes):
                if not isinstance(g, str) or g.encode() != carried(x, caps[k]): return "text %d" % k
            elif isinstance(x, dict):
                if {a: b for a, b in g.items() if not (a == "approximate" and b is False and a not in x)} != x or any(type(g[a]) is not type(x[a]) for a in x): return "count"
            elif g is not x: return "flag"
    def dec(b):
        d = []
        def pairs(p):
            if len({k for k, _ in p}) != len(p): d.append(1)
            return dict(p)
        try: o = json.loads(b.decode("utf-8"), object_pairs_hook=pairs, parse_constant=lambda x: 1 / 0, strict=True)
        except (ValueError, ZeroDivisionError): return None
        return None if d else o
    def body(d):
        for i in range(ctx.n(1500, 25000)):
            t, w, args, e, caps = case()
            if e: d.many([e.build(0), e.setall(0)])
            big = d.cmd("rm.ser", t, 20000 if not e else 3000000, *args)
            what = lambda: "%s %s %s" % (w, e and e.view(), big)
            ctx.seen((t, repr(w), e and e.key())); ctx.count("type_%d" % t)
            if not ctx.check(big["r"] == 0 and big["nul"] and big["untouched"] and big["nolen"], "serialize", what, d): continue
            out = bytes.fromhex(big["out"]); o = dec(out)
            if not ctx.check(o is not None, "not-json", lambda: "%r for %s" % (out, what()), d): continue
            x = same(o, w, caps, e); ctx.check(x is None, "wrong:%s" % x, lambda: "%r for %s" % (out, what()), d)
            L = len(out); ctx.check(big["len"] == L, "length", lambda: "%s is %d bytes" % (what(), L), d)
            for b in {1, 2, L - 1, L, L + 1, L + 2, r.randrange(1, L)}:
                s = d.cmd("rm.ser", t, b, *args); ctx.seen((t, repr(w), b, e and e.key()))
                if b <= L: ctx.check(s["r"] != 0, "short-buffer", lambda: "%d bytes for %d: %s" % (b, L, s), d)
                else: ctx.check(s["r"] == 0 and s["out"] == big["out"] and s["len"] == L and s["nul"], "exact-buffer", lambda: "%d bytes for %d: %s" % (b, L, s), d)
            if i % 100 == 0:
                ctx.check(d.cmd("rm.ser", 0, 20000, hx(b"s"), "-")["r"] != 0, "event-missing", "EVENT without an event serialized", d)
                for bad in (7, 8, 99): ctx.check(d.cmd("rm.ser", bad, 20000)["r"] != 0, "unknown-type", "type %d serialized" % bad, d)
                o = d.cmd("rm.ser", 2, 200, "-"); ctx.check(o["r"] == 0 and dec(bytes.fromhex(o["out"])) == ["EOSE", ""], "null-text", "%s" % o, d)
        ctx.check(d.cmd("rm.null")["r"] == 0, "null-arguments", "rm.null", d)
        d.reset(); ctx.leaks(d, "messages")
    d = ctx.driver("asan"); ctx.guard(d, body)
