"""C12: NIP-26 delegation."""
import re
from lib import gen
from lib.drv import hx
from oracle import ec
import hashlib
MAXI = 2**63 - 1
def parse(c):
    """None or list of (op, value)"""
    if not c or len(c) > 4096: return None
    out = []
    for part in c.split(b"&"):
        m = re.fullmatch(rb"(kind=|created_at>|created_at<)([0-9]+)", part)
        if not m: return None
        v = int(m[2])
        if m[1] == b"kind=" and v > 65535: return None
        if v > MAXI: return None
        out.append((m[1], v))
    return out
def allowed(L, kind, t):
    ks = [v for o, v in L if o == b"kind="]
    return (not ks or kind in ks) and all(t > v for o, v in L if o == b"created_at>") and all(t < v for o, v in L if o == b"created_at<")
def msg(delegatee, cond): return hashlib.sha256(b"nostr:delegation:" + delegatee.hex().encode() + b":" + cond).digest()
def run(ctx):
    r = ctx.rng
    ctx.rule = "condition string, token and event presented to create/verify/check/get/verify-event; expected verdict from an independent grammar, signature check and bound evaluation; distinct by (operation, conditions, keys, event)"
    def num(): return r.choice([0, 1, 2, 7, 1000, 1700000000, 2**31, 2**32, 2**40, 65535, MAXI, MAXI - 1, r.randrange(2**33)])
    def good():
        n = r.choice([1, 1, 2, 2, 3, 4, 6, 20, 99, r.randrange(1, 101)])
        L = []; style = r.choice([None, None, None, None, .2, .6, .8]); zeros = r.choice([.1] * 9 + [1])
        for _ in range(n):
            k = r.random() if style is None else style      # mixed, or one sort of condition only
            if k < .45: L.append(b"kind=%d" % r.choice(gen.KINDS + [r.randrange(65536)]))
            elif k < .72: L.append(b"created_at>%d" % num())
            else: L.append(b"created_at<%d" % num())
            if r.random() < zeros: L[-1] = re.sub(rb"(\d+)", lambda m: b"0" * r.randrange(1, 4 if zeros < 1 else 24) + m[1], L[-1])
        return b"&".join(L)
    def anycond():
        c = good()
        if r.random() < .4: return c
        k = r.randrange(9)
        if k == 0: return c.replace(b"&", r.choice([b"", b"&&", b";", b" & ", b",", b"|"]), 1) if b"&" in c else c + b"&"
        if k == 1: return r.choice([b"&" + c, c + b"&", b" " + c, c + b" ", c + b"\n"])
        if k == 2: return c + b"&" + r.choice([b"kind=65536", b"kind=99999999999999999999", b"kind=-1", b"kind=+1", b"kind= 1", b"kind=0x1", b"kind=", b"kind=1.5", b"kind=1e3", b"kind=-18446744073709551615", b"kinds=1", b"Kind=1", b"kind==1", b"kind!1"])
        if k == 3: return c + b"&" + r.choice([b"created_at>", b"created_at=5", b"created_at>=5", b"created_at<=5", b"created_at>-5", b"created_at> 5", b"created_at<9223372036854775808", b"created_at>99999999999999999999", b"created_at>5x", b"created>5", b"created_at"])
        if k == 4: return gen.mutate(r, c, b"kindcreated_at<>=&0123456789")
        if k == 5: return r.choice([b"", b"&", b"&&", b"x", b"*", b"kind", b"=1"])
        if k == 6: return b"&".join([b"kind=1"] * r.choice([99, 100]))
        if k == 7: return gen.text(r, 30)
        return c.upper()
    def times(L):
        t = [v + dv for o, v in L if o != b"kind=" for dv in (-1, 0, 1)]
        t = [x for x in t if x <= MAXI]
        return t + [0, -1, 1700000000]
    def few(s, n): s = sorted(set(s)); return set(r.sample(s, n) if len(s) > n else s) | set(s[:1] + s[-1:])
    def body(d):
        for i in range(ctx.n(170, 3500)):
            c = anycond(); L = parse(c); toomany = c.count(b"&") >= 100 or len(c) > 4096
            a, b = gen.priv(r), gen.priv(r); A, B = ec.pub(a), ec.pub(b)
            o = d.cmd("n26.create", hx(a), hx(B), hx(c)); ctx.seen(("create", a, c), "create %r: %s" % (c[:100], o["r"])); ctx.count("conditions_valid" if L else "conditions_invalid")
            if L is None: ctx.check(o["r"] != 0, "accepts-bad-conditions", lambda: "create accepted %r: %s" % (c, o), d)
            elif not toomany or o["r"] == 0:
                if not ctx.check(o["r"] == 0, "create-fails", "%r: %s" % (c, o), d): continue
                tok = bytes.fromhex(o["token"])
                ctx.check(o["delegator"] == A.hex() and o["cond"] == c.hex() and ec.verify(A, msg(B, c), tok), "create-token", lambda: "%r: %s" % (c, o), d)
                ctx.check(o["kinds"] == [v for p, v in L if p == b"kind="], "parsed-kinds", "%r %s" % (c, o), d)
                c2 = c[:-1] + bytes([c[-1] ^ 1]); other = ec.pub(gen.priv(r))
                vs = [(A, B, c, tok), (A, other, c, tok), (other, B, c, tok), (A, B, c2, tok), (A, B, c + b"&kind=1", tok), (B, A, c, tok), (A, B, c, tok[32:] + tok[:32]), (A, B, c, tok[:63] + bytes([tok[63] ^ 1])), (A, B, c[1:] or b"x", tok), (A, B, c, ec.sign(a, msg(B, c), gen.rb(r, 32))), (A, B, c, ec.sign(a, hashlib.sha256(c).digest(), gen.rb(r, 32)))]
                out = d.many([["n26.verify", hx(x[0]), hx(x[1]), hx(x[2]), hx(x[3])] for x in vs])
                for x, q in zip(vs, out):
                    w = ec.verify(x[0], msg(x[1], x[2]), x[3]); ctx.seen(("verify",) + x); ctx.count("token_good" if w else "token_bad")
                    ctx.check((q["r"] == 0) == w, "token-verdict", lambda: "%s: %s expected %s" % (x, q, w), d)
                T = [(k, t) for k in few({v for p, v in L if p == b"kind="}, 6) | {1, 65535, r.randrange(65536)} for t in sorted(few(times(L), 12))] + [(v, t) for p, v in L if p == b"kind=" for t in (max([0] + [w + 1 for q, w in L if q == b"created_at>" and w < MAXI]),)]
                for (k, t), q in zip(T, d.many([["n26.check", k, t] for k, t in T])):
                    w = allowed(L, k, t); ctx.seen(("check", c, k, t)); ctx.count("allowed" if w else "refused")
                    ctx.check((q["r"] == 0) == w, "condition-verdict", lambda: "%r kind %d at %d: %s, expected %s" % (c, k, t, q, w), d)
                # written into an event and read back
                e = gen.event(r, 3); e.tags = [t for t in e.tags if t[0] != b"delegation"]
                e.pk = r.choice([B, B, other]); ks = [v for p, v in L if p == b"kind="]
                if ks and r.random() < .7: e.kind = r.choice(ks)
                if r.random() < .6: e.created = r.choice(times(L))
                out = d.many([e.build(2), e.setall(2), ["n26.add", 2], ["ev.get", 2], ["n26.get", 2], ["n26.everify", 2]])
                e.tags.append([b"delegation", A.hex().encode(), c, tok.hex().encode()]); ctx.seen(("event", e.key()))
                ctx.check(out[2]["r"] == 0 and out[3]["e"]["tags"] == [[v.hex() for v in t] for t in e.tags], "add-tag", lambda: "%s expected %s" % (out[3], e.view()), d)
                ctx.check(out[4]["r"] == 0 and out[4]["delegator"] == A.hex() and out[4]["cond"] == c.hex() and out[4]["token"] == tok.hex(), "get-roundtrip", "%s" % out[4], d)
                w = e.pk == B and allowed(L, e.kind, e.created)
                ctx.check((out[5]["r"] == 0) == w, "event-verdict", lambda: "%s: %s expected %s" % (e.view(), out[5], w), d)
            # foreign tags
            for _ in range(4):
                cc = anycond(); e = gen.event(r, 3); e.tags = [t for t in e.tags if t[0] != b"delegation"]; e.pk = B
                LL = parse(cc); tk = ec.sign(a, msg(B, cc), gen.rb(r, 32)); m = r.randrange(12)
                if LL and r.random() < .8:
                    ks = [v for p, v in LL if p == b"kind="]; e.kind = r.choice(ks) if ks else e.kind
                    lo = max([v for p, v in LL if p == b"created_at>"], default=None); hi = min([v for p, v in LL if p == b"created_at<"], default=None)
                    e.created = min(MAXI, lo + 1) if lo is not None else max(0, hi - 1) if hi is not None else e.created
                T = [b"delegation", A.hex().encode(), cc, tk.hex().encode()]; bad = False
                if m == 1: T = T[:3]; bad = True
                elif m == 2: T[1] = T[1][:-1]; bad = True
                elif m == 3: T[1] = T[1][:10] + b"g" + T[1][11:]; bad = True
                elif m == 4: T[3] = T[3] + b"00"; bad = True
                elif m == 5: T[3] = T[3][:-1] + b"x"; bad = True
                elif m == 6: T[1] = ec.pub(gen.priv(r)).hex().encode(); bad = T[1] != A.hex().encode()
                elif m == 7: T[3] = bytes(x if x != T[3][5] else x ^ 1 for x in T[3][:0]) + gen.rb(r, 64).hex().encode(); bad = True
                elif m == 8: T[0] = b"delegatio"; bad = True
                elif m == 9: T.append(b"extra")
                elif m == 10: T[1] = T[1].upper(); T[3] = T[3].upper()
                e.tags.insert(r.randrange(len(e.tags) + 1), T)
                w = not bad and LL is not None and cc.count(b"&") < 100 and ec.verify(A, msg(B, cc), tk) and allowed(LL, e.kind, e.created)
                out = d.many([e.build(3), e.setall(3), ["n26.everify", 3], ["n26.get", 3]]); ctx.seen(("foreign", e.key()), "%r -> %s" % (T, w)); ctx.count("event_accept" if w else "event_reject")
                ctx.check((out[2]["r"] == 0) == w, "event-verdict", lambda: "%s: %s expected %s" % (e.view(), out[2], w), d)
                if m == 8: ctx.check(out[3]["r"] != 0, "get-foreign", "%s" % out[3], d)
            if i % 10 == 0: d.reset()
        # off-curve and zero keys
        for k in (0, ec.N, 2**256 - 1):
            o = d.cmd("n26.create", hx(ec.i2b(k)), hx(B), hx(b"kind=1")); ctx.seen(("badkey", k)); ctx.check(o["r"] != 0, "invalid-delegator-key", "%x" % k, d)
        d.reset(); ctx.leaks(d, "delegation")
    for cfg in ("asan", "asan-mbed") if not ctx.quick else ("asan",):
        d = ctx.driver(cfg); ctx.guard(d, body)
