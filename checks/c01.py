"""C01: event ids against an independent canonical serializer."""
from lib import gen
from lib.drv import hx, hl
def run(ctx):
    ctx.rule = "event (fields, tags, content) whose id was computed by the library and compared with an independent NIP-01 serializer and hashlib; distinct by event content"
    ids = {}
    def one(d, e, label):
        j = d.config != "nojson"      # without cJSON only the id itself is offered
        out = d.many([e.build(0), e.setall(0), ["ev.id", 0], ["ev.get", 0]] + ([["ev.canon", 0, len(e.canon()) + 1, 1]] if j else []))
        if not ctx.check(out[0]["r"] == 0, "build", "event could not be built: %s" % out[0], d): return
        want = e.eid()
        ctx.seen((d.config, e.key()[:5], e.canon()[:200])); ctx.count("kind_class_%d" % (e.kind // 10000)); ctx.count("tags", len(e.tags))
        ctx.check(out[2]["r"] == 0 and bytes.fromhex(out[2]["id"]) == want, "id-mismatch:" + label, lambda: "id %s, expected %s of %r" % (out[2], want.hex(), e.canon()), d)
        v = e.view(); v["id"] = want.hex()
        ctx.check(out[3]["e"] == v, "fields-altered", lambda: "computing the id changed the event: %s vs %s" % (out[3]["e"], v), d)
        if j: ctx.check(out[4]["r"] == 0 and bytes.fromhex(out[4]["s"]) == e.canon() and out[4]["len"] == len(e.canon()), "canonical:" + label, lambda: "canonical serialization %s expected %r" % (out[4], e.canon()), d)
        got = out[2].get("id"); k = e.key()[:5]
        if got in ids and ids[got] != k: ctx.violation("collision", "two different events share id %s: %r and %r" % (got, ids[got], k), None, d)
        ids[got] = k
    def body(d):
        r = ctx.rng
        # every byte value in content and tags, and every kind class boundary
        for b in range(1, 256): one(d, gen.Event(content=bytes([b]), tags=[[bytes([b]), b"x" + bytes([b])]]), "byte")
        for t in gen.TIMES + [2**53, 2**53 + 1, -2**53 - 1, 2**62 + 1, 2**63 - 1, -2**63]:
            one(d, gen.Event(created=t, kind=1, content=b"t"), "created_at")
        for k in sorted(set(gen.KINDS) | set(range(0, 65536, ctx.n(911, 37)))): one(d, gen.Event(kind=k), "kind")
        d.reset()
    cfgs = [c for c in ("asan", "nojson") if ctx.has(c)]
    for cfg in cfgs: ctx.guard(ctx.driver(cfg), body)
    def rnd(d):
        r = ctx.rng
        for i in range(ctx.n(1500, 20000)):
            e = gen.event(r, mx=r.choice([3, 8, 8, 40]), clen=r.choice([10, 60, 60, 400, 5000 if i % 10 == 0 else 60])); e.id = gen.rb(r, 32)
            one(d, e, "random")
            # metamorphic: same event, different id/sig -> same id; one-field neighbours -> different ids
            if i % 3 == 0:
                f = e.copy(); f.id = gen.rb(r, 32); f.sig = gen.rb(r, 64)
                out = d.many([f.build(1), f.setall(1), ["ev.id", 1]])
                ctx.check(out[2]["id"] == e.eid().hex(), "id-depends-on-id-or-sig", "%r" % (f.key(),), d)
            if i % 4 == 0:
                for f in neighbours(r, e): one(d, f, "neighbour")
            if i % 100 == 0: d.reset()
        d.cmd("reset"); ctx.leaks(d, "ev")
    for cfg in cfgs: ctx.guard(ctx.driver(cfg), rnd)
    def big(d):
        r = ctx.rng
        for n in (100, 1000) + (() if ctx.quick else (20000,)):
            one(d, gen.Event(tags=[[b"t", b"%d" % i] for i in range(n)]), "many-tags")
        for v in (b"", b"\x01", b"\"", b"\xc3\x9f", b"\x1f" * 30):       # many small values: what each adds besides its own text counts
            for n in (1, 2, 3, 5): one(d, gen.Event(pk=b"\xff" * 32, created=-2**63, kind=65535, tags=[[v] * n] * (1000 // n)), "small-values")
        one(d, gen.Event(tags=[[b"v"] * ctx.n(500, 900)]), "many-values")
        one(d, gen.Event(content=gen.text(r, 10) + b"x\n\"" * ctx.n(30000, 300000)), "long-content")
    for cfg in cfgs: ctx.guard(ctx.driver(cfg), big)
def neighbours(r, e):
    f = e.copy(); f.kind = (e.kind + 1) % 65536; yield f
    f = e.copy(); f.created = e.created + 1; yield f
    f = e.copy(); f.content = e.content + b" "; yield f
    p = bytearray(e.pk); p[r.randrange(32)] ^= 1 << r.randrange(8); f = e.copy(); f.pk = bytes(p); yield f
    if e.tags:
        f = e.copy(); f.tags.append([b""]); yield f
        i = r.randrange(len(e.tags)); f = e.copy(); f.tags[i] = f.tags[i] + [b""]; yield f
        f = e.copy(); del f.tags[i]; yield f
        if len(e.tags[i]) > 1:
            f = e.copy(); t = f.tags[i]; f.tags[i:i+1] = [t[:1], t[1:]]; yield f
            f = e.copy(); f.tags[i] = [t[0] + t[1]] + t[2:]; yield f
