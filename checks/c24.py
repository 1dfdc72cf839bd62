"""C24: relay-side admission checks."""
import re
from lib import gen
from lib.drv import hx
from oracle import ec
I64 = (-2**63, 2**63 - 1)
FUT, EXP, IDM, SIGM = 12, 13, 10, 11
def expiry(tags):
    """expiration of an event: integer, None (no valid one) or "?" (spelling not judged)"""
    for t in tags:
        if len(t) >= 2 and t[0] == b"expiration":
            v = t[1]
            if re.fullmatch(rb"[0-9]+", v): return int(v) or "?"
            if re.fullmatch(rb"[\t-\r ]*[+-]?[0-9]+", v) and not re.fullmatch(rb"-0*[1-9][0-9]*", v): return "?"
            return None
    return None
def expired(x, now): return x is not None and now >= x
def hex64(b): return re.fullmatch(rb"[0-9a-f]{64}", b) is not None
def prefix(b): return re.fullmatch(rb"[0-9a-f]{1,64}", b) is not None
def subid(b): return re.fullmatch(rb"[\x20-\x7e]{1,64}", b) is not None
def address(b):
    """True, False or None (not judged: kind out of range)"""
    m = re.fullmatch(rb"([0-9]+):([0-9a-f]{64}):(.*)", b, re.S)
    if not m: return False
    return True if int(m[1]) < 65536 else None
def strings(r):
    h = gen.hexid(r); n = r.choice([0, 1, 2, 31, 32, 63, 64, 65, 66, 128])
    k = r.randrange(12)
    if k < 3: return (gen.hexid(r) * 3)[:n]
    if k == 3: return gen.mutate(r, h, b"0123456789abcdefABCDEFg:/`@G")
    if k == 4: i = r.randrange(64); return h[:i] + bytes([r.randrange(1, 256)]) + h[i + 1:]
    if k == 5: return bytes(r.randrange(32, 127) for _ in range(n))
    if k == 6: i = r.randrange(1, 65); return bytes(r.randrange(32, 127) for _ in range(i - 1)) + bytes([r.choice([1, 31, 127, 128, 255, 9, 10, 32, 126])])
    if k == 7: return h.upper() if r.random() < .5 else h[:10].upper() + h[10:]
    if k == 8: return gen.text(r, 70)
    if k == 9: return b"a" * n
    if k == 10: return h + r.choice([b"", b"\n", b" ", b"0", b"\x01", b"\xff"])
    return h
def addrs(r):
    a = b"%d:%s:%s" % (gen.kind(r), gen.hexid(r), r.choice([b"", gen.text(r, 20), b"a:b:c", b"x" * r.choice([100, 180, 255, 256, 1000])]))
    k = r.randrange(8)
    if k < 3: return a
    if k == 3: return gen.mutate(r, a, b"0123456789abcdef:: -+gA")
    if k == 4: return a.replace(b":", r.choice([b"", b"::", b";", b" :"]), r.choice([1, 2]))
    if k == 5: return r.choice([b"-1", b"+1", b" 1", b"1 ", b"0x1", b"", b"00001", b"65536", b"99999999999999999999", b"1e3", b"30023" + b"0" * 30, b"000000030023x", b"0000000000000x1", b"3002300000000000-"]) + a[a.index(b":"):]
    if k == 6: h = gen.hexid(r); j = r.choice([63, 63, 0, r.randrange(64)]); return b"30023:" + r.choice([h[:j] + r.choice([b"g", b"A", b"`", b"/", b"G", b" "]) + h[j + 1:], h[:63], h + b"0", h.upper(), b"g" + h[1:], h[:63] + b" ", b""]) + b":" + gen.text(r, 5)
    return a[:r.randrange(len(a))]
def off(r):
    """a number below the field prime that is not the x coordinate of a curve point"""
    while True:
        x = r.randrange(ec.P)
        if pow((x ** 3 + 7) % ec.P, (ec.P - 1) // 2, ec.P) != 1: return x
def run(ctx):
    r = ctx.rng
    ctx.rule = "event with chosen times, expiration, id and signature presented to full validation (and each separate check) under a controlled clock; verdict and failure kind predicted independently; distinct by event, clock and window"
    def body(d):
        # timestamps: the window edge, at every magnitude
        for i in range(ctx.n(300, 6000)):
            now = r.choice([1, 1700000000, 2**31 - 1, 2**31, 2**32, 2**40, r.randrange(1, 2**34), 2**62, 2**63 - 2])
            d.cmd("vf.time", now, 0)
            cmds, want = [], []
            for _ in range(30):
                w = r.choice([0, 1, -1, 900, 3600, 31536000, 2**31, 2**40, I64[0], I64[1], I64[1] - now, I64[1] - now + 1, I64[1] - now - 1, -now, -now - 1, r.randrange(-2**40, 2**40)])
                w = min(max(w, I64[0]), I64[1]); lim = now + w
                t = r.choice([lim, lim + 1, lim - 1, lim + r.randrange(-100, 100), now, now + 1, 0, -1, 1, I64[0], I64[1], r.randrange(*I64)])
                t = min(max(t, I64[0]), I64[1]); cmds.append(["rp.ts", t, w]); want.append((t, w, t <= lim))
            for o, (t, w, ok) in zip(d.many(cmds), want):
                ctx.seen(("ts", now, t, w)); ctx.count("ts_ok" if ok else "ts_late")
                ctx.check(o["ok"] == int(ok) and o["now"] == now, "timestamp", lambda: "timestamp %d window %d at %d: %s expected %s" % (t, w, now, o, ok), d)
        d.cmd("vf.time", 0, 0)
        # strings
        for i in range(ctx.n(60, 1500)):
            ss = [strings(r) for _ in range(30)]; aa = [addrs(r) for _ in range(20)]
            for s, o in zip(ss, d.many([["valid.hex", hx(s)] for s in ss])):
                ctx.seen(("str", s)); ctx.count("hex64" if hex64(s) else "prefix" if prefix(s) else "subid" if subid(s) else "nostring")
                ctx.check((o["hex64"], o["prefix"], o["subid"]) == (hex64(s), prefix(s), subid(s)), "string-check", lambda: "%r: %s" % (s, o), d)
            for s, o in zip(aa, d.many([["rp.addr", hx(s)] for s in aa])):
                w = address(s); ctx.seen(("addr", s))
                if w is None: ctx.count("not_judged"); continue
                ctx.count("address" if w else "noaddress"); ctx.check(o["ok"] == int(w), "address-check", lambda: "%r: %s expected %s" % (s, o, w), d)
        d.reset()
    def full(d):
        for i in range(ctx.n(900, 12000)):
            now = r.choice([1700000000, r.randrange(10, 2**33), 2**31 - 1, 2**32 + 1, 2**40]); step = r.choice([0, 0, 0, 1])
            w = r.choice([0, 1, 900, 3600, 2**40, I64[1], -1, -60, -2**40])
            p = gen.priv(r); e = gen.event(r, 4, 30)
            e.tags = [t for t in e.tags if t[0] != b"expiration"]
            e.created = min(max(r.choice([now + w, now + w - 1, now + w + 1, now, now - 1000, 0, -5, now + w + 5000, I64[1], I64[0]]), I64[0]), I64[1])
            k = r.random()
            if k < .6:
                x = r.choice([b"%d" % (now + r.choice([0, -1, 1, 2, -100, 100])), b"%d" % r.choice([1, 2**31, 2**63 - 1, 2**63, 2**64, 10**30]), b"%d" % (now + r.choice([-3, 3])), b"", b"x", b"12x", b"-5", b"-%d" % now, b"0x10", b"1e3", b" 5", b"%d " % now, b"1.5", b"\xff", b"%d" % -2**63, gen.text(r, 8)])
                e.tags.insert(r.randrange(len(e.tags) + 1), [b"expiration", x] + ([b"1"] if r.random() < .1 else []))
                if r.random() < .15: e.tags.insert(r.randrange(len(e.tags) + 1), [b"expiration", b"%d" % (now + r.choice([-50, 50]))])
                if r.random() < .1: e.tags.insert(0, [b"expiration"])
                if r.random() < .1: e.tags.insert(0, [r.choice([b"Expiration", b"expiration ", b"exp", b""]), b"1"])
            e.pk = ec.pub(p); e.id = e.eid(); e.sig = ec.sign(p, e.id, gen.rb(r, 32))
            auth = e.copy(); m = r.random()
            if m < .12:
                b = bytearray(e.id); b[r.randrange(32)] ^= 1 << r.randrange(8); e.id = bytes(b)
                if m < .06: e.sig = ec.sign(p, e.id, gen.rb(r, 32))
            elif .5 < m < .56: e.pk = ec.i2b(r.choice([0, 5, ec.P, ec.P + 1, 2**256 - 1, off(r)])); e.id = e.eid(); e.sig = r.choice([e.sig, ec.sign(p, e.id, gen.rb(r, 32)), bytes(64)])
            elif .56 < m < .6: S = ec.b2i(e.sig[32:]); e.sig = r.choice([ec.i2b(r.choice([0, 5, ec.P, off(r)])) + e.sig[32:], e.sig[:32] + ec.i2b(r.choice([ec.N, 0, ec.N - S, 2**256 - 1])), bytes(64), e.sig[32:] + e.sig[:32]])
            elif m < .24: b = bytearray(e.sig); b[r.randrange(64)] ^= 1 << r.randrange(8); e.sig = bytes(b)
            elif m < .3: e.content += b"x"
            elif m < .36: e.pk = ec.pub(gen.priv(r)); e.id = e.eid()
            elif m < .4: e.created = max(e.created - 1, I64[0])
            elif m < .44: e.tags.append([b"expiration", b"1"])
            x = expiry(e.tags)
            fails = set()
            if not step:
                if e.created > now + w: fails.add(FUT)
                if x != "?" and expired(x, now): fails.add(EXP)
            else:
                if e.created > now + w + 3: fails.add(FUT)
                elif e.created > now + w: continue
                if x != "?" and x is not None and x - 5 < now and x + 5 > now: continue
                if x != "?" and expired(x, now): fails.add(EXP)
            if e.id != e.eid(): fails.add(IDM)
            if not (ec.verify(e.pk, e.id, e.sig)): fails.add(SIGM)
            if x == "?" and not fails: ctx.count("not_judged"); continue
            allow = set(fails)
            if x == "?": allow.add(EXP)
            if IDM in fails: allow |= {3, SIGM, 5}
            if SIGM in fails: allow |= {5, 4}
            sz = r.choice([0, 1, 2, 9, 40, 41, 60, 70, 80, 100, 400])
            if r.random() < .5:      # right after the authentic event it was made from
                ctx.count("after_authentic"); d.many([auth.build(1), auth.setall(1), ["vf.time", max(min(auth.created, now), 1), 0], ["rp.full", 1, 1000, 90], ["rp.full", 1, I64[1] if auth.created < 0 else max(0, min(auth.created, 2**61)), 90], ["ev.verify", 1]])
            o = d.many([e.build(0), e.setall(0), ["vf.time", now, step], ["rp.full", 0, w, sz], ["vf.time", 0, 0], ["ev.get", 0]])
            f = o[3]; what = lambda: "now %d window %d: %s expected failures %s of %s" % (now, w, f, sorted(fails), e.view())
            ctx.seen(("full", e.key(), now, w), None); ctx.count("full_%s" % ("+".join(map(str, sorted(fails))) or "valid"))
            ctx.check((f["r"] == 0) == (not fails) and bool(f["valid"]) == (not fails), "verdict", what, d)
            ctx.check(f["r"] == f["code"] and (f["r"] in allow if fails else f["r"] == 0), "failure-kind", what, d)
            ctx.check(o[5]["e"] == e.view(), "event-altered", what, d)
            txt = bytes.fromhex(f["msg"]); fld = bytes.fromhex(f["field"]); whole = b"invalid: " + txt + (b" for field '%s'" % fld if fld else b"")
            if fails:
                ctx.check(bool(txt), "no-message", what, d)
                ctx.check((f["len"] == len(whole) and f["nul"] == 1 and bytes.fromhex(f["fmt"]) == whole) if sz > len(whole) else f["len"] == 0, "format", what, d)
            # the separate checks agree
            if not step:
                o = d.many([["vf.time", now, 0], ["rp.exp", 0, now], ["rp.ts", e.created, w], ["ev.verify", 0], ["vf.time", 0, 0]])
                if x != "?": ctx.check(o[1]["at"] == o[1]["now"] == int(expired(x, now)), "expired", lambda: "now %d %s %s" % (now, o[1], e.tags), d)
                ctx.check(o[2]["ok"] == int(e.created <= now + w), "timestamp", lambda: "%s" % o, d)
                if not fails and x is not None and x != "?" and now < x < 2**61 and w >= 0:      # admitted now, no longer once it has expired
                    q = d.many([["vf.time", x, 0], ["rp.full", 0, w, 90], ["vf.time", x - 1, 0], ["rp.full", 0, w, 90], ["vf.time", 0, 0]]); ctx.seen(("later", e.key())); ctx.count("expired_later")
                    ctx.check(q[1]["r"] == EXP and q[3]["r"] == 0, "verdict-later", lambda: "valid at %d, at %d: %s" % (now, x, q), d)
                ctx.check((o[3]["r"] == 0) == (not fails & {IDM, SIGM}), "verify", lambda: "%s %s" % (o, e.view()), d)
        d.reset(); ctx.leaks(d, "validation")
        for a in ((-1,), ):
            o = d.cmd("rp.full", "-", 5, 50); ctx.check(o["r"] != 0 and not o["valid"], "null-event", "%s" % o, d)
    d = ctx.driver("asan"); ctx.guard(d, body); ctx.guard(d, full)
    if not ctx.quick: d2 = ctx.driver("asan-mbed"); ctx.guard(d2, full)
