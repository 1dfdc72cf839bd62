"""C37: NIP-59 gift wraps and NIP-17 direct messages, opened and forged by an independent implementation."""
import json, time
from lib import gen
from lib.drv import hx, hl, ub
from oracle import ec, n44
from checks.c03 import strict, obj, jtext
DAY2 = 2 * 86400
def run(ctx):
    r = ctx.rng
    ctx.rule = "event wrapped for a recipient and opened layer by layer by an independent NIP-44, or a wrap built (and damaged, at one layer) by it and given to unwrap; distinct by (entry point, layer, damage, event)"
    ctx.assumptions = ["noscrypt is not installed: its functions are provided by a stand-in over libsecp256k1 and OpenSSL; the library's own code is the real one", "whether the unwrapped event is itself a signed event of a third party, the wrap's own signature and tags on receipt, and the rumor's id are not judged"]
    T = {}
    # the libc clock may lag behind by a few milliseconds
    def now(): return int(time.time())
    def J(e): return json.dumps(dict(id=e.id.hex(), pubkey=e.pk.hex(), created_at=e.created, kind=e.kind, tags=[[v.decode() for v in t] for t in e.tags], content=e.content.decode(), sig=e.sig.hex()), ensure_ascii=False).encode()
    def fromview(v): return gen.Event(bytes.fromhex(v["pubkey"]), v["created_at"], v["kind"], [[ub(x) for x in t] for t in v["tags"]], ub(v["content"]), bytes.fromhex(v["id"]), bytes.fromhex(v["sig"]))
    def inner(pk, big=False):
        e = gen.event(r); e.pk = pk; e.created = r.choice([0, 1, 1700000000, 2**31, 2**40, r.randrange(2**33)])
        if big: e.content = gen.text(r, 20000)[:r.choice([3000, 9000, 20000])]
        while not gen.utf8(e.content): e.content = e.content[:-1]
        e.tags = [t for t in e.tags if all(gen.utf8(v) for v in t)]; e.id = e.eid(); e.sig = r.choice([b"\0" * 64, e.sig]); return e
    def good_sig(e): return e.id == e.eid() and ec.verify(e.pk, e.id, e.sig)
    def opened(d, what, x, t0, b, A, want, extra=(), seal_only=False):
        """x: published event; b: recipient's key; A: the true author"""
        t1 = now() if not T.get("fake") else T["fake"]
        if T.get("fake"): t0 = T["fake"]
        if not seal_only:
            ctx.check(x.kind == 1059, "wrap-kind", "%s: kind %d" % (what, x.kind), d); ctx.check(good_sig(x), "wrap-signature", "%s: wrap with a bad id or signature" % what, d)
            ctx.check(t0 - DAY2 <= x.created <= t1, "wrap-time", "%s: wrap dated %d at time %d" % (what, x.created, t0), d); ctx.check(x.tags == [[b"p", ec.pub(b).hex().encode()]] + [list(t) for t in extra], "wrap-tags", lambda: "%s: tags %r" % (what, x.tags), d)
            ctx.check(x.pk not in used and x.pk != A and x.pk != ec.pub(b), "wrap-key", "%s: the wrap's key %s is not a fresh one" % (what, x.pk.hex()), d); used.add(x.pk); offs.add(x.created - t0)
            p = n44.decrypt(n44.conv(b, x.pk), x.content)
            if not ctx.check(p is not None, "wrap-content", "%s: the recipient cannot open the wrap" % what, d): return None
            q = strict(p)
            if not ctx.check(q[0] == "ok", "seal-json", lambda: "%s: seal %r" % (what, p[:300]), d): return None
            s = q[1]; ctx.count("wraps_opened")
        else: s = x
        ctx.check(s.kind == 13, "seal-kind", "%s: seal kind %d" % (what, s.kind), d); ctx.check(s.pk == A, "seal-author", "%s: seal by %s" % (what, s.pk.hex()), d); ctx.check(good_sig(s), "seal-signature", "%s: seal with a bad id or signature" % what, d)
        ctx.check(t0 - DAY2 <= s.created <= t1, "seal-time", "%s: seal dated %d at time %d" % (what, s.created, t0), d); soffs.add(s.created - t0); ctx.check(s.tags == [], "seal-tags", lambda: "%s: seal tags %r" % (what, s.tags), d)
        p = n44.decrypt(n44.conv(b, s.pk), s.content)
        if not ctx.check(p is not None, "seal-content", "%s: the recipient cannot open the seal" % what, d): return None
        q = strict(p)
        if not ctx.check(q[0] == "ok", "rumor-json", lambda: "%s: rumor %r" % (what, p[:300]), d): return None
        ctx.count("seals_opened")
        if want is not None: ctx.check(q[1].key() == want.key(), "rumor", lambda: "%s: wrapped %s, the wrap holds %s" % (what, want.view(), q[1].view()), d)
        return q[1]
    used, offs, soffs = set(), set(), set()
    def both(d, slot, b, want, A, what):
        """the library's own two unwraps, for the recipient and for others"""
        k = gen.priv(r); o = d.many([["g.unwrap", 7, slot, hx(b)], ["d.unwrap", 7, slot, hx(b)], ["g.unwrap", 7, slot, hx(b), 1], ["d.unwrap", 7, slot, hx(b), 1], ["g.unwrap", 7, slot, hx(k)], ["d.unwrap", 7, slot, hx(k)]])
        for x in o[:4]: ctx.check(x["r"] == 0 and x["e"] == want.view(), "unwrap", lambda: "%s: %s unwrapped as %s" % (what, want.view(), x), d)
        for x in o[:2]: ctx.check(x.get("author") == A.hex(), "unwrap-author", lambda: "%s: author %s reported as %s" % (what, A.hex(), x.get("author")), d)
        if ec.pub(k) != ec.pub(b):
            for x in o[4:]: ctx.check(x["r"] != 0 and x["left"] == 0, "unwrapped-by-other", lambda: "%s: another key opened it: %s" % (what, x), d)
        ctx.count("unwraps", 6)
    def make(d, m):
        for i in range(m):
            T["fake"] = r.choice([0, 0, 1700000000 + r.randrange(10**8), 200000]); d.cmd("vf.time", T["fake"], 0)
            a, b = gen.priv(r), gen.priv(r); A, B = ec.pub(a), ec.pub(b)
            if A == B: continue
            e = inner(A, i % 6 == 5); e.load(d, 0); t0 = now() - 1; k = i % 3; ctx.seen((k, e.key()), ["NIP-59 wrap", "seal then gift wrap", "NIP-17 seal and gift wrap"][k])
            extra = []
            if k == 0: o = d.cmd("g.wrap", 1, 0, hx(a), hx(B)); w = "wrap_event"
            elif k == 1:
                o = d.cmd("g.seal", 2, 0, hx(a), hx(B)); w = "create_seal"
                if not ctx.check(o["r"] == 0, "wrap", "%s of %s: %s" % (w, e.view(), o), d): continue
                opened(d, w, fromview(o["e"]), t0, b, A, e, seal_only=True)
                extra = [[gen.text(r, 8) or b"x", gen.text(r, 20)] for _ in range(r.choice([0, 0, 1, 2, 3]))]; extra = [t for t in extra if all(gen.utf8(v) for v in t)]
                o = d.cmd("g.gift", 1, 2, hx(B), *([hl(sum(extra, []))] if extra else [hl([])])); w = "create_gift_wrap"
            else:
                o = d.cmd("d.seal", 2, 0, hx(a), hx(B)); w = "nip17 create_seal"
                if not ctx.check(o["r"] == 0, "wrap", "%s of %s: %s" % (w, e.view(), o), d): continue
                opened(d, w, fromview(o["e"]), t0, b, A, e, seal_only=True); o = d.cmd("d.gift", 1, 2, hx(B)); w = "nip17 create_gift_wrap"
            if not ctx.check(o["r"] == 0, "wrap", "%s of %s: %s" % (w, e.view(), o), d): continue
            opened(d, w, fromview(o["e"]), t0, b, A, e, extra); both(d, 1, b, e, A, w)
            # direct message
            t = gen.text(r, r.choice([20, 60, 400]) if i % 10 else 9000); t = t if gen.utf8(t) else b"hello"; s = r.choice([None, b"", gen.text(r, 30), gen.text(r, 300)]); s = s if s is None or gen.utf8(s) else b"re"; q = r.choice([None, gen.rb(r, 32), bytes(32), bytes([0]) + gen.rb(r, 31), gen.rb(r, 31) + bytes([0]), bytes([255] * 32)]); at = r.choice([0, 0, 1, 1700000000, 2**33, -1, -86400, 2**31, 2**32 + 5])
            t0 = now() - 1; o = d.cmd("d.send", 1, hx(t), hx(a), hx(B), "-" if s is None else hx(s), "-" if q is None else hx(q), at); ctx.seen(("dm", t, s, q, at), "direct message")
            if ctx.check(o["r"] == 0, "send", "message %r: %s" % (t, o), d):
                x = opened(d, "send_dm", fromview(o["e"]), t0, b, A, None)
                if x:
                    n = T["fake"] or now(); lo = T["fake"] or t0
                    ctx.check(x.kind == 14 and x.pk == A and x.content == t and x.sig == bytes(64) and x.tags == [[b"p", B.hex().encode()]] + ([[b"subject", s]] if s is not None else []) + ([[b"e", q.hex().encode()]] if q is not None else []), "dm", lambda: "message %r subject %r reply %r became %s" % (t, s, q, x.view()), d)
                    ctx.check(x.created == at if at else lo <= x.created <= n, "dm-time", "message dated %d, asked for %d" % (x.created, at), d); both(d, 1, b, x, A, "send_dm")
            # rumors
            kd = gen.kind(r)
            for op, a4 in (("g.rumor", []), ("d.rumor", [at])):
                t0 = now() - 1; o = d.cmd(op, 3, kd, hx(A), hx(t), *a4); x = fromview(o["e"]) if o["r"] == 0 else None
                ctx.check(x is not None and (x.pk, x.kind, x.tags, x.content, x.sig) == (A, kd, [], t, bytes(64)) and x.id == x.eid() and (x.created == at if a4 and at else (T["fake"] or t0) <= x.created <= (T["fake"] or now())), "create-rumor", lambda: "%s kind %d %r: %s" % (op, kd, t, o), d)
        d.cmd("vf.time", 0, 0); T["fake"] = 0
    def forge(d, m):
        """wraps built here; everything that is not the true thing is refused"""
        nonce = lambda: gen.rb(r, 32)
        def seal_of(e, a, B, kind=13, pk=None, tags=(), text=None, ck=None):
            s = gen.Event(ec.pub(a) if pk is None else pk, 1700000000 + r.randrange(10**6), kind, tags, n44.encrypt(ck or n44.conv(a, B), nonce(), J(e) if text is None else text)); s.id = s.eid(); s.sig = ec.sign(a, s.id, nonce()); return s
        def wrap_of(s, B, kind=1059, text=None):
            k = gen.rb(r, 32); x = gen.Event(ec.pub(k), 1700000000, kind, [[b"p", B.hex().encode()]], n44.encrypt(n44.conv(k, B), nonce(), J(s) if text is None else text)); x.id = x.eid(); x.sig = ec.sign(k, x.id, nonce()); return x
        def flip(v, i=None): x = bytearray(v); x[r.randrange(len(x)) if i is None else i] ^= 1 << r.randrange(8); return bytes(x)
        def reb64(c):
            import base64
            x = bytearray(base64.b64decode(c)); x[r.choice([0, r.randrange(1, 33), r.randrange(33, len(x) - 32), r.randrange(len(x) - 32, len(x))])] ^= 1 << r.randrange(8); return base64.b64encode(bytes(x))
        for _ in range(m):
            a, b, c = gen.priv(r), gen.priv(r), gen.priv(r); A, B, C = ec.pub(a), ec.pub(b), ec.pub(c)
            if len({A, B, C}) < 3: continue
            e = inner(A); e.kind = r.choice([14, 14, 15, 1, 7, e.kind]); e.id = e.eid(); 
            def ok(x, what):
                x.load(d, 4); ctx.seen((what, x.id), what); ctx.count("genuine"); both(d, 4, b, e, A, what)
            def bad(x, what):
                x.load(d, 4); ctx.seen((what, x.id), what); ctx.count("refused");
                for o in d.many([["g.unwrap", 7, 4, hx(b)], ["d.unwrap", 7, 4, hx(b)], ["g.unwrap", 7, 4, hx(b), 1]]): ctx.check(o["r"] != 0 and o["left"] == 0, "accepted:" + what, lambda: "%s: %s" % (what, o), d)
            s = seal_of(e, a, B); w = wrap_of(s, B); ok(w, "written by another implementation")
            ok(wrap_of(s, B, text=jtext(r, obj(r, s)).encode()), "seal JSON in another spelling"); ok(wrap_of(seal_of(e, a, B, text=jtext(r, obj(r, e, True, True)).encode()), B), "rumor JSON in another spelling")
            # the wrap
            for k in [0, 1, 4, 13, 14, 1060, 21059] + [1059 ^ 1 << j for j in range(16)]: bad(wrap_of(s, B, k), "wrap kind")
            for _ in range(4): x = w.copy(); x.content = reb64(w.content); bad(x, "wrap content altered")
            x = w.copy(); x.pk = C; bad(x, "wrap key replaced"); x = w.copy(); x.content = wrap_of(s, C).content; bad(x, "content for another"); x = w.copy(); x.content = b""; bad(x, "empty wrap"); x = w.copy(); x.content = J(s); bad(x, "unencrypted seal"); x = w.copy(); x.content = w.content[:-4]; bad(x, "wrap cut")
            bad(wrap_of(s, B, text=b"null"), "no seal"); bad(wrap_of(s, B, text=b"{}"), "no seal"); bad(wrap_of(s, B, text=J(s)[:-1]), "seal JSON cut"); bad(wrap_of(s, B, text=J(e)), "event instead of a seal")
            # the seal
            for k in [0, 1, 14, 1059] + [13 ^ 1 << j for j in range(16)]: bad(wrap_of(seal_of(e, a, B, k), B), "seal kind")
            for what, f in (("sig", lambda x: setattr(x, "sig", flip(x.sig))), ("no sig", lambda x: setattr(x, "sig", bytes(64))), ("id", lambda x: setattr(x, "id", flip(x.id))), ("created_at", lambda x: setattr(x, "created", x.created + 1)), ("tags", lambda x: setattr(x, "tags", [[b"p", B.hex().encode()]])), ("content", lambda x: setattr(x, "content", seal_of(e, a, B).content)), ("content bits", lambda x: setattr(x, "content", reb64(x.content)))):
                x = s.copy(); f(x); bad(wrap_of(x, B), "seal altered: " + what)
                if what != "sig" and what != "no sig" and what != "id": x.id = x.eid(); bad(wrap_of(x, B), "seal altered, id adjusted: " + what)
            # signed by someone else in the author's name
            x = seal_of(e, c, B, pk=A, ck=n44.conv(c, B)); bad(wrap_of(x, B), "seal signed by another"); x = s.copy(); x.sig = ec.sign(c, x.id, nonce()); bad(wrap_of(x, B), "seal signed by another")
            x = s.copy(); x.pk = C; x.id = x.eid(); x.sig = ec.sign(c, x.id, nonce()); bad(wrap_of(x, B), "seal content taken over by another")
            x = seal_of(e, a, B, ck=n44.conv(a, C)); bad(wrap_of(x, B), "seal for another recipient")
            y = s.copy(); y.content = J(e); y.id = y.eid(); y.sig = ec.sign(a, y.id, nonce()); bad(wrap_of(y, B), "unencrypted rumor")
            # the rumor: another author than the seal's signer
            for pk in (C, B, flip(A), flip(A, 31), flip(A, 0)):
                f = e.copy(); f.pk = pk; f.id = f.eid(); f.sig = r.choice([bytes(64), gen.rb(r, 64)]); bad(wrap_of(seal_of(f, a, B), B), "rumor in another's name")
            for t in (b"null", b"{}", b"[]", b"x", J(e)[:-1], J(e).replace(b'"kind"', b'"kin"', 1), J(e) + b"]"): bad(wrap_of(seal_of(e, a, B, text=t), B), "rumor JSON damaged")
        d.cmd("reset")
    def faults(d, m):
        """a generator that fails yields an error, never a wrap that gives its author or its time away"""
        for i in range(m):
            a, b = gen.priv(r), gen.priv(r); A, B = ec.pub(a), ec.pub(b); e = inner(A); e.load(d, 0); d.cmd("g.seal", 2, 0, hx(a), hx(B))
            for c in (["g.wrap", 1, 0, hx(a), hx(B)], ["g.seal", 1, 0, hx(a), hx(B)], ["g.gift", 1, 2, hx(B), hl([])], ["d.seal", 1, 0, hx(a), hx(B)], ["d.gift", 1, 2, hx(B)], ["d.send", 1, hx(b"x"), hx(a), hx(B), "-", "-", 0]):
                n = 1
                while n < 40:
                    o = d.cmd("!r%d" % n, *c)
                    if not o["_dh"]: break
                    ctx.seen(("rng", c[0], n), "generator failure")
                    ctx.count("generator_failures")
                    if not ctx.check(o["r"] != 0 and o["left"] == 0, "unrandomized", lambda: "%s with draw %d failing: %s" % (c[0], n, str(o)[:300]), d): break
                    n += 1
                ctx.count("draws_failed_" + c[0], n - 1)
        d.cmd("reset")
    d = ctx.driver("shim")
    ctx.guard(d, make, ctx.n(36, 900)); ctx.guard(d, forge, ctx.n(5, 220)); ctx.guard(d, faults, ctx.n(2, 20))
    ctx.count("distinct_wrap_ages", len(offs)); ctx.count("distinct_seal_ages", len(soffs)); ctx.count("distinct_wrap_keys", len(used))
    # ages are drawn from the whole window, independently
    if len(offs) > 20:
        for s, w in ((offs, "wrap"), (soffs, "seal")): ctx.check(max(s) > -DAY2 * .5 and min(s) < -DAY2 * .5 and len(s) > 12, "constant-time", "%s ages seen: %s" % (w, sorted(s)[:20]))
    d.reset(); ctx.leaks(d, "gift wraps")
