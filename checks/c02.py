"""C02: sign / verify against an independent BIP-340."""
from lib import gen
from lib.drv import hx
from oracle import ec
def run(ctx):
    ctx.rule = "event presented to nostr_event_verify and nostr_event_validate_full; expected verdict from an independent id serializer and BIP-340 verifier; distinct by event and label"
    r = ctx.rng
    now = 1700000000; last = None
    def judge(d, e, label, want=None):
        if want is None: want = e.id == e.eid() and ec.verify(e.pk, e.id, e.sig)
        nonlocal last
        pre = []
        if not want and last and r.random() < .6:        # right after the authentic event it was made from
            pre = [last.build(3), last.setall(3), ["ev.verify", 3], ["ev.sig_check", 3, 2**40]][:r.choice([3, 4])]; ctx.count("forged_after_authentic")
        elif want: last = e
        out = d.many(pre + [e.build(0), e.setall(0), ["ev.verify", 0], ["ev.sig_check", 0, 2**40], ["ev.get", 0]])
        if pre: ctx.check(out[2]["r"] == 0, "verify:again", lambda: "verified before, now %s: %s" % (out[2], last.view()), d); out = out[len(pre):]
        ctx.seen((label, e.key()), "%s -> %s" % (label, "authentic" if want else "forged")); ctx.count("authentic" if want else "forged"); ctx.count("case_" + label)
        ctx.check((out[2]["r"] == 0) == want, "verify:%s" % label, lambda: "nostr_event_verify=%s, expected %s; %s" % (out[2]["r"], want, e.view()), d)
        o = out[3]
        ctx.check((o["f"] == 0) == want and bool(o["valid"]) == want, "validate_full:%s" % label, lambda: "validate_full=%s, expected %s; %s" % (o, want, e.view()), d)
        ctx.check(out[4]["e"] == e.view(), "verify-alters-event", lambda: "%s vs %s" % (out[4]["e"], e.view()), d)
    def plain(e):
        e.tags = [t for t in e.tags if t[0] != b"expiration"]; e.created = abs(e.created) % 2**39; return e
    def lib_signed(d, e, priv):
        out = d.many([e.build(0), e.setall(0), ["ev.sign", 0, hx(priv)], ["ev.get", 0]])
        if not ctx.check(out[2]["r"] == 0, "sign-fails", "signing with a valid key fails: %s %s" % (out[2], priv.hex()), d): return None
        v = out[3]["e"]; e.pk = ec.pub(priv); f = e.copy(); f.id = e.eid(); f.sig = bytes.fromhex(v["sig"])
        ctx.check(v == f.view(), "sign-fields", lambda: "signed event %s, expected fields %s" % (v, f.view()), d)
        ctx.check(ec.verify(f.pk, f.id, f.sig), "signature-not-bip340", lambda: "%s" % f.view(), d)
        return f
    def flips(b, n):
        for i in (r.sample(range(len(b) * 8), n) if n < len(b) * 8 else range(len(b) * 8)):
            x = bytearray(b); x[i // 8] ^= 1 << (i % 8); yield bytes(x)
    def body(d):
        for i in range(ctx.n(60, 900)):
            priv = gen.priv(r); e = plain(gen.event(r))
            s = lib_signed(d, e, priv)
            if s is None: continue
            judge(d, s, "library-signed", True)
            o = plain(gen.event(r)); o.pk = ec.pub(priv); o.id = o.eid(); o.sig = ec.sign(priv, o.id, gen.rb(r, 32)); judge(d, o, "oracle-signed", True)
            n = ctx.n(6, 10)
            for x in flips(s.id, n): f = s.copy(); f.id = x; judge(d, f, "id-bit", False)
            for x in flips(s.sig, n): f = s.copy(); f.sig = x; judge(d, f, "sig-bit")
            for x in flips(s.pk, n): f = s.copy(); f.pk = x; judge(d, f, "pubkey-bit", False)
            for x in flips(s.pk, 2):
                f = s.copy(); f.pk = x; f.id = f.eid(); judge(d, f, "pubkey-bit-rehashed")
            for lab, f in muts(r, s):
                judge(d, f, lab, False)
                g = f.copy(); g.id = g.eid(); judge(d, g, lab + "-rehashed", False)
            # a valid signature over an id that is not this event's, by a little
            for b in (range(32) if i < 2 else r.sample(range(32), 5)):
                x = bytearray(s.id); x[b] ^= r.choice([1, 128, r.randrange(1, 256)]); f = s.copy(); f.id = bytes(x); f.sig = ec.sign(priv, f.id, gen.rb(r, 32)); judge(d, f, "signed-near-id", False)
            f = s.copy(); f.content = s.content + b"!"; f.sig = ec.sign(priv, f.id, gen.rb(r, 32)); judge(d, f, "signed-old-id", False)
            f = s.copy(); f.id = gen.rb(r, 32); f.sig = ec.sign(priv, f.id, gen.rb(r, 32)); judge(d, f, "signed-random-id", False)
            f = s.copy(); f.sig = o.sig; judge(d, f, "sig-of-other-event", False)
            f = s.copy(); f.sig = ec.sign(gen.priv(r), f.id, gen.rb(r, 32)); judge(d, f, "other-signer")
            R, S = s.sig[:32], ec.b2i(s.sig[32:])
            for sv in (ec.N - S, 0, ec.N, 2**256 - 1) + ((S + ec.N,) if S + ec.N < 2**256 else ()):
                f = s.copy(); f.sig = R + ec.i2b(sv); judge(d, f, "odd-s", False)
            for rv in (0, ec.P, 2**256 - 1, 5): f = s.copy(); f.sig = ec.i2b(rv) + s.sig[32:]; judge(d, f, "odd-r", False)
            f = s.copy(); f.sig = s.sig[32:] + R; judge(d, f, "swapped-sig", False)
            f = s.copy(); f.sig = b"\0" * 64; judge(d, f, "zero-sig", False)
            f = s.copy(); f.id = b"\0" * 32; judge(d, f, "zero-id", False)
            for pv in (0, ec.P, ec.P + 1, 5, 2**256 - 1):
                f = s.copy(); f.pk = ec.i2b(pv); f.id = f.eid(); judge(d, f, "odd-pubkey", False)
            # signing again after an edit, with another key, replaces author, id and signature
            if i % 4 == 0:
                p2 = gen.priv(r); t = s.copy(); t.content = gen.text(r); u = lib_signed(d, t, p2)
                if u: judge(d, u, "re-signed", True)
            if i % 10 == 0: d.reset()
        d.reset(); ctx.leaks(d, "sign")
    d = ctx.driver(); ctx.guard(d, body)
    def inplace(d):
        """one event object, altered and put back between verifications"""
        for i in range(ctx.n(12, 150)):
            priv = gen.priv(r); e = plain(gen.event(r, 4)); e.tags = e.tags[:4]; s = lib_signed(d, e, priv)
            if s is None: continue
            d.many([s.build(0), s.setall(0)]); cur = s.copy(); path = []
            for step in range(r.randrange(4, 14)):
                m = r.randrange(8); path.append(m)
                if m == 0: cur.content = r.choice([s.content, s.content + b"x", gen.text(r, 20)]); d.cmd("ev.setcontent", 0, hx(cur.content))
                elif m == 1: cur.id = r.choice([s.id, next(flips(s.id, 1))]); d.cmd("ev.setid", 0, hx(cur.id))
                elif m == 2: cur.sig = r.choice([s.sig, next(flips(s.sig, 1))]); d.cmd("ev.setsig", 0, hx(cur.sig))
                elif m == 3: cur.pk = r.choice([s.pk, next(flips(s.pk, 1))]); d.cmd("ev.setpub", 0, hx(cur.pk))
                elif m == 4: cur.kind = r.choice([s.kind, s.kind ^ 1]); d.cmd("ev.setkind", 0, cur.kind)
                elif m == 5: cur.created = r.choice([s.created, s.created + 1]); d.cmd("ev.settime", 0, cur.created)
                elif m == 6 and r.random() < .3: cur.tags = cur.tags + [[b"t", b"late"]]; d.cmd("ev.addtag", 0, gen.hl([b"t", b"late"]))
                else: cur = cur.copy(); cur.content, cur.id, cur.sig, cur.pk, cur.kind, cur.created = s.content, s.id, s.sig, s.pk, s.kind, s.created; d.many([s.setall(0), ["ev.setcontent", 0, hx(s.content)]])
                want = cur.id == cur.eid() and ec.verify(cur.pk, cur.id, cur.sig); o = d.many([["ev.verify", 0], ["ev.sig_check", 0, 2**40], ["ev.get", 0]])
                ctx.seen(("inplace", i, step, cur.key()), "steps %s -> %s" % (path, want)); ctx.count("inplace_authentic" if want else "inplace_forged")
                ctx.check(o[2]["e"] == cur.view(), "inplace-state", lambda: "%s vs %s" % (o[2]["e"], cur.view()), d)
                ctx.check((o[0]["r"] == 0) == want and (o[1]["f"] == 0) == want, "inplace-verify", lambda: "after %s: %s, expected %s; %s" % (path, o[:2], want, cur.view()), d)
            if i % 3 == 0:      # and signed again in place
                d.cmd("ev.sign", 0, hx(priv)); o = d.many([["ev.verify", 0], ["ev.get", 0]]); v = o[1]["e"]; cur.pk = ec.pub(priv); cur.id = cur.eid()
                ctx.check(o[0]["r"] == 0 and v["id"] == cur.id.hex() and ec.verify(cur.pk, cur.id, bytes.fromhex(v["sig"])), "inplace-sign", "%s" % o, d)
        d.reset()
    ctx.guard(d, inplace)
    def compare(d):
        """the comparison every verification rests on: equal only when every byte is, whatever the differences add up to"""
        for _ in range(ctx.n(40, 600)):
            n = r.choice([1, 2, 8, 16, 31, 32, 33, 64, 65, 100, 256, 1000]); a = gen.rb(r, n); L = [a]
            for m in range(30):
                b = bytearray(a)
                if m < 3: b[r.randrange(n)] ^= 1 << r.randrange(8)
                elif m == 3: b[-1] ^= r.randrange(1, 256)
                elif m == 4: b[0] ^= r.randrange(1, 256)
                elif m < 9: x = r.randrange(1, 256); i, j = r.randrange(n), r.randrange(n); b[i] ^= x; b[j] ^= x if m < 7 else (256 - x) & 255
                elif m < 15: x = r.choice([1, 128, 255, 85]); b = bytearray(c ^ x for c in b)
                elif m < 20: b = bytearray(gen.rb(r, n)); b[-1] = a[-1] ^ r.choice([1, 1, 2, 128, 255])
                elif m < 24: i = r.randrange(n); b[i:] = bytes(c ^ r.choice([0, 255, 1]) for c in b[i:])
                elif m < 26: b = bytearray(sorted(b))
                else: b = bytearray(gen.rb(r, n))
                L.append(bytes(b))
            for b, o in zip(L, d.many([["ctmemcmp", hx(a), hx(b)] for b in L])): ctx.seen(("cmp", a, b)); ctx.count("comparisons"); ctx.check(bool(o["z"]) == (a == b), "compare", lambda: "%s and %s compare %s" % (a.hex(), b.hex(), "equal" if o["z"] else "different"), d)
        o = d.cmd("ctmemcmp", hx(b""), hx(b"")); ctx.check(o["z"], "compare-empty", "%s" % o, d)
    ctx.guard(d, compare)
    def badkeys(d):
        for i in range(ctx.n(8, 40)):
            for k in (0, ec.N, ec.N + 1, 2**256 - 1, ec.N + r.randrange(2**100)):
                e = plain(gen.event(r))
                if i % 2: e.pk = ec.pub(ec.i2b(1))
                out = d.many([e.build(0), e.setall(0), ["ev.sign", 0, hx(ec.i2b(k))], ["ev.verify", 0], ["ev.get", 0]])
                ctx.seen(("badkey", k, e.key()), "sign with private key %x" % k); ctx.count("invalid_private_keys")
                ctx.check(out[2]["r"] != 0, "signs-with-invalid-key", "key %x accepted" % k, d)
                ctx.check(out[3]["r"] != 0, "invalid-key-leaves-verifying-event", "key %x: %s" % (k, out[4]), d)
        out = d.many([["ev.create", 0], ["ev.sign", 0, "-"], ["ev.verify", 0]])
        ctx.check(out[1]["r"] != 0 and out[2]["r"] != 0, "null-key", "%s" % out, d)
    ctx.guard(d, badkeys)
    def long(d):
        """every size class of the signed text, altered at its ends and in between"""
        priv = gen.priv(r)
        for rep in range(ctx.n(1, 6)):
            for k in range(5, 20):
                e = plain(gen.event(r)); e.content = bytes(r.choice(b'ab"\\ \n') for _ in range(61)) * (r.randrange(2 ** k, 2 ** (k + 1)) // 61 + 1)
                if k % 3 == 0: e.tags = [[b"t", b"v%d" % j] for j in range(r.choice([50, 99]))]
                e.pk = ec.pub(priv); e.id = e.eid(); e.sig = ec.sign(priv, e.id, gen.rb(r, 32)); judge(d, e, "long", True)
                n = len(e.content)
                for pos in {0, n // 2, n - 1, r.randrange(n)}:
                    f = e.copy(); f.content = e.content[:pos] + bytes([e.content[pos] ^ 1 if e.content[pos] not in (9, 11) else 65]) + e.content[pos+1:]; judge(d, f, "long-altered", False)
                f = e.copy(); f.content = e.content[:-1]; judge(d, f, "long-shortened", False)
        for c in sorted(set(gen.TIMES) | {2 ** j for j in range(0, 54, 3)}):
            e = plain(gen.event(r)); e.created = abs(c) % 2 ** 39; e.pk = ec.pub(priv); e.id = e.eid(); e.sig = ec.sign(priv, e.id, gen.rb(r, 32)); judge(d, e, "time", True)
            f = e.copy(); f.created = e.created ^ 2 ** r.randrange(32); judge(d, f, "time-altered", False)
        for kd in gen.KINDS:
            e = plain(gen.event(r)); e.kind = kd; e.pk = ec.pub(priv); e.id = e.eid(); e.sig = ec.sign(priv, e.id, gen.rb(r, 32)); judge(d, e, "kind-sweep", True)
        d.reset()
    ctx.guard(d, long)
def muts(r, s):
    f = s.copy(); f.kind = (s.kind + r.choice([1, 65535, 256])) % 65536; yield "kind", f
    f = s.copy(); f.created = s.created + r.choice([1, -1, 2**32, 2**31]); yield "created_at", f
    f = s.copy(); f.content = gen.mutate(r, s.content)
    if f.content != s.content and gen.utf8(f.content): yield "content", f
    f = s.copy(); f.content = s.content + r.choice([b" ", b"\n", b"\\"]); yield "content-append", f
    f = s.copy(); f.tags = f.tags + [[b""]]; yield "tag-append", f
    if s.tags:
        i = r.randrange(len(s.tags)); f = s.copy(); del f.tags[i]; yield "tag-delete", f
        f = s.copy(); f.tags[i] = f.tags[i] + [b""]; yield "tag-value-append", f
        j = r.randrange(len(s.tags[i])); f = s.copy(); f.tags[i][j] = f.tags[i][j] + b"x"; yield "tag-value", f
        if len(s.tags) > 1 and s.tags[0] != s.tags[-1]: f = s.copy(); f.tags[0], f.tags[-1] = f.tags[-1], f.tags[0]; yield "tag-order", f
    f = s.copy(); p = bytearray(s.pk); p[31] ^= 1; f.pk = bytes(p); yield "pubkey", f
