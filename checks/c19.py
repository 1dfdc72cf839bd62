"""C19: NIP-57 zap requests, receipts, LNURLs and BOLT-11 amounts."""
import json, re
from lib import gen
from lib.drv import hx, hl
from oracle import b32, ec
from checks.c03 import jtext, obj, strict
U64 = 2**64 - 1
def amount(inv):
    """msat encoded by a BOLT-11 invoice's human-readable part; 0 if none; None = malformed; 'any' = not judged"""
    s = inv.decode("latin-1")
    if s.lower() != s and s.upper() != s: return "any"
    s = s.lower(); i = s.rfind("1")
    if i < 0: return None
    m = re.fullmatch(r"ln([a-z]+)(?:([0-9]+)([munp]?))?", s[:i], re.A)
    if not m: return None
    if not m[2]: return 0
    if m[2] != "0" and m[2][0] == "0": return "any"
    v = int(m[2]); p = v * 10 * {"": 10**11, "m": 10**8, "u": 10**5, "n": 100}.get(m[3], 0) if m[3] != "p" else v
    if p % 10: return None
    if p // 10 > U64: return None
    return p // 10 if p // 10 <= 21 * 10**17 else "any"  # beyond the coin supply: exactness not required
CH = b32.CH
def invoice(r):
    d = "".join(r.choice(CH) for _ in range(r.choice([7, 20, 100, 300])))
    v = r.choice([0, 1, 5, 10, 11, 21, 100, 2500, 999, 10**6, r.randrange(10**9), r.randrange(10**12) * 10, 2**32, 2**64, 184467440, 184467441, 184467440737, 184467440738, 184467440737095, 184467440737096, 184467440737095516, 184467440737095517, 184467440737095516150, 184467440737095516160, 10**30])
    h = "ln" + r.choice(["bc"] * 6 + ["tb", "bcrt", "tbs", "sb"]) + ("" if r.random() < .15 else str(v) + r.choice(["m", "u", "n", "p", "", "m", "u", "n", "p"]))
    s = h + "1" + d; k = r.random()
    if k < .08: s = s.upper()
    elif k < .25: s = r.choice([h + d, "x" + s, " " + s, s + " ", h + "x1" + d, h + "mm1" + d, "lnbc-5u1" + d, "lnbc+5u1" + d, "lnbc 5u1" + d, "lnbc0x10u1" + d, "lnbc5.5u1" + d, "ln1" + d, "ln51" + d, "lnbc5b1" + d, "lnbc5k1" + d, "", "1", "lnbc", "ln", "l", "1" + s, "nostr:" + s, "lightning:" + s, "lnbc1", "lnbc5u1", "lnbcu1" + d, "http://lnbc210u1" + d])
    elif k < .3: return gen.mutate(r, s.encode(), b"0123456789munplbct1")
    return s.encode()
def run(ctx):
    r = ctx.rng
    ctx.rule = "zap request built, receipt parsed or verified, or LNURL checked, against an independent model of NIP-57 tags, BOLT-11 amounts and bech32; distinct by arguments or event"
    def relay(): return r.choice([b"wss://r.example", b"ws://x:80/p", gen.text(r, 30), b"wss://" + b"a" * 200])
    def lnurl():
        s = b32.encode("lnurl", b"https://x.example/.well-known/lnurlp/" + gen.text(r, r.choice([0, 10, 40, 200, 900]), False)).encode()
        k = r.random()
        if k > .85: return b32.enc5("lnurl", [r.randrange(32) for _ in range(r.choice([2, 3, 8, 30, 90, 250, 300, 500, 520, 1100, 2000]) + r.randrange(9))]).encode()
        if k < .35: s = gen.mutate(r, s, CH.encode())
        elif k < .5: s = r.choice([b"", b"lnurl", b"lnurl1", b"lnurl1" + s[-6:], b"lnurl" + b"a" * r.choice([20, 26, 27, 60, 84, 300]) + b"1qqqqqqq", b"lnurlx" + s[5:], s[5:], b"lnurl1" + s, s + b"1", s[:-1], b32.encode("lnurlp", b"abc").encode(), b32.encode("npub", b"abc").encode(), b"lnurl" + b"1" * 40 + b"qqqqqqq", s[:-1] + bytes([s[-1] ^ 32])])
        return s
    def lnurl_ok(s):
        # a valid bech32 string of the lnurl prefix (no length limit, LUD-01)
        m = re.fullmatch(rb"lnurl1([" + CH.encode() + rb"]{6,})", s)
        if not m: return "any" if s != s.lower() and s == s.upper() else False
        v = [CH.index(chr(c)) for c in m[1]]
        if b32.polymod(b32.hexp("lnurl") + v) != 1: return False
        if len(v) == 6: return "any"
        bits = (len(v) - 6) * 5 % 8
        return bits < 5 and v[-7] & ((1 << bits) - 1) == 0 and len(v) > 7
    def create(d, slot):
        rel = [relay() for _ in range(r.choice([1, 1, 2, 5, 14, 15, 16, 17, 40]))]
        if r.random() < .03: rel = r.choice([None, []])
        a = [r.choice([0, 1, 21000, 2**32 - 1, 2**32, 2**63, U64, r.randrange(U64)]), gen.rb(r, 32), r.choice([None, lnurl(), gen.text(r, 30)]), r.choice([None, b"", gen.text(r, 60)]), rel]
        if r.random() < .02: a[1] = None
        o = d.cmd("zap.create", slot, a[0], hx(a[1]), hx(a[2]), hx(a[3]), hl(rel), 0); ctx.seen(("create", repr(a)), "request %s" % a[:4]); ctx.count("requests")
        if not rel or a[1] is None: return ctx.check(o["r"] != 0 and not o["dangling"], "request-accepts", lambda: "%s %s" % (a, o), d)
        want = [[b"relays"] + rel, [b"amount", b"%d" % a[0]], [b"p", a[1].hex().encode()]] + ([[b"lnurl", a[2]]] if a[2] is not None else [])
        ctx.check(o["r"] == 0 and o["e"]["kind"] == 9734 and sorted(o["e"]["tags"]) == sorted([[x.hex() for x in t] for t in want]) and (o["e"]["content"] or "") == (a[3] or b"").hex(), "request", lambda: "%s: %s" % (a, o), d)
    def parse(d):
        e = gen.event(r, 2); e.kind = 9735 if r.random() < .93 else r.choice([9734, 9736, 1, 9735 - 8192]); e.tags = [t for t in e.tags if t[0] not in (b"bolt11", b"description", b"preimage")]
        I = [invoice(r) for _ in range(r.choice([0, 1, 1, 1, 1, 1, 2]))]
        D = []
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            q = gen.event(r, 3); 
            t = jtext(r, obj(r, q)).encode() if gen.utf8(q.content) and all(gen.utf8(v) for t in q.tags for v in t) else b"{}"
            if r.random() < .2: t = r.choice([gen.mutate(r, t, b'{}[]",:'), b"", b"{}", b"[]", b"null", t[:-1], t + b"x"])
            D.append(t)
        P = [r.choice([gen.hexid(r), gen.hexid(r), b"", gen.hexid(r)[:63], gen.hexid(r) + b"0", b"z" * 200, gen.text(r, 60)]) for _ in range(r.choice([0, 0, 1, 1, 2]))]
        L = [[n, v] + ([b"x"] if r.random() < .1 else []) for n, l in ((b"bolt11", I), (b"description", D), (b"preimage", P)) for v in l]
        if r.random() < .15: L.append([r.choice([b"bolt11", b"description", b"preimage", b"Bolt11", b"bolt1", b"amount"])] + ([b"lnbc5u1qqqqqqqq"] if r.random() < .3 else []))
        for n, l in ((b"bolt11", I), (b"description", D), (b"preimage", P)):
            for t in L:
                if t[0] == n and len(t) > 1 and t[1] not in l: l.append(t[1])
        r.shuffle(L)
        for t in L: e.tags.insert(r.randrange(len(e.tags) + 1), t)
        m = r.choice([15, 15, 15, 7, 1, 2, 3, 4, 8, 0, 11, 9, 13])
        d.many([e.build(1), e.setall(1)]); o = d.cmd("zap.parse", 1, m); ctx.seen(("parse", e.key(), m)); ctx.count("receipts")
        why = lambda: "mask %d: %s from %s" % (m, o, [[v[:400] for v in t] for t in e.tags])
        if e.kind != 9735: return ctx.check(o["r"] != 0 and not o["dangling"], "receipt-kind", why, d)
        if o["r"]: 
            ctx.check(not o["dangling"], "receipt-dangling", why, d); ctx.count("receipt-errors")
            bad = any(amount(x) in (None, "any") for x in I) or any(strict(x)[0] != "ok" for x in D) or not I or not D or any(len(x) > 64 for x in P)
            return ctx.check(bad, "receipt-rejected", why, d)
        if len(I) == 1 and (m & 3):
            a = amount(I[0]); ctx.count("amount:%s" % ("malformed" if a is None else "any" if a == "any" else "none" if a == 0 else "value"))
            ctx.check(a is not None, "malformed-invoice-accepted", why, d)
            if m & 1 and a not in (None, "any"): ctx.check(o["amount"] == a, "amount", why, d)
        if m & 2: ctx.check(o["bolt11"] in ([x.hex() for x in I] or [None]), "bolt11", why, d)
        if m & 3 == 3 and I and o["bolt11"] and amount(bytes.fromhex(o["bolt11"])) not in (None, "any"): ctx.check(o["amount"] == amount(bytes.fromhex(o["bolt11"])), "amount-of-other-invoice", why, d)
        if m & 1 and not I: ctx.check(o["amount"] in (0, 0xdeadbeef), "amount-without-invoice", why, d)
        if m & 4: ctx.check(o["preimage"] in [x.hex() for x in P if len(x) <= 64] + ([""] if not P or any(len(x) > 64 for x in P) else []), "preimage", why, d)
        if m & 8:
            S = [strict(x) for x in D]
            if not D: ctx.check(o["req"] is None, "request-from-nowhere", why, d)
            elif all(s[0] == "bad" for s in S): ctx.check(False, "malformed-description-accepted", why, d)
            elif all(s[0] != "skip" for s in S): ctx.check(o["req"] in [s[1].view() for s in S if s[0] == "ok"], "description", why, d)
    def verify(d):
        wk, sk = gen.priv(r), gen.priv(r); amt = r.choice([1, 10, 21000, 10**6, 10**11, 123450, r.randrange(1, 10**9) * 10])
        q = gen.signed(r, sk, kind=9734, content=gen.text(r, 20, False)); q.tags = [[b"relays", b"wss://x"], [b"p", gen.hexid(r)]] + ([[b"amount", b"%d" % amt]] if r.random() < .85 else []) + [[b"x%d" % j, b"1"] for j in range(r.choice([0, 0, 0, 1, 4, 8, 15, 40]))]; r.shuffle(q.tags); q.id = q.eid(); q.sig = ec.sign(sk, q.id, gen.rb(r, 32))
        has = any(t[0] == b"amount" for t in q.tags)
        # invoice of exactly that amount
        c = [(m, u) for m, u in (("", 10**12), ("m", 10**9), ("u", 10**6), ("n", 1000)) if amt * 10 % u == 0]
        m, u = r.choice(c) if c and r.random() < .7 else ("p", 1)
        inv = "lnbc%d%s1%s" % (amt * 10 // u, m, "".join(r.choice(CH) for _ in range(50)))
        emb, given, key, want = q, q, ec.pub(wk), True
        k = r.randrange(24); what = "ok"
        def resign(e, s=sk): e.id = e.eid(); e.sig = ec.sign(s, e.id, gen.rb(r, 32)); return e
        if k == 0:
            am2 = r.choice([amt + 1, max(amt - 1, 2 if amt == 1 else 1), amt * 10, amt + 2**32, amt + 2**16, amt + 256, amt * 1000, amt + 2**40]); am2 += am2 == amt
            inv = "lnbc%dp1%s" % (am2 * 10, "q" * 50); want = not has; what = "other amount"
        elif k == 1: inv = "lnbc1" + "q" * 50; want = None if not has else False; what = "no amount"
        elif k == 2: inv = None; want = False; what = "no invoice"
        elif k == 3: emb = q.copy(); emb.content += b"!"; want = False; what = "embedded content differs under the same id"
        elif k == 4: emb = resign(q.copy()); emb.content += b"?"; resign(emb); want = False; what = "other request"
        elif k == 5: emb = q.copy(); emb.sig = bytes([emb.sig[0] ^ 1]) + emb.sig[1:]; want = False; what = "embedded signature broken"
        elif k == 6: given = q.copy(); given.id = gen.rb(r, 32); want = False; what = "given id differs"
        elif k == 7:
            j = r.choice([0, 15, 30, 31, 31, r.randrange(32)]); key = key[:j] + bytes([key[j] ^ 1 << r.randrange(8)]) + key[j + 1:] if r.random() < .7 else gen.rb(r, 32); want = False; what = "other wallet key"
        elif k == 8: given = q.copy(); given.tags = [t for t in given.tags if t[0] != b"amount"] + [[b"amount", b"%d" % (amt + 1)]]; want = False; what = "given request altered"
        elif k == 9: q.tags = [t for t in q.tags if t[0] != b"amount"] + [[b"amount", r.choice([b"abc", b"", b"1x", b"-5", b" 1", b"1.5", b"18446744073709551617", b"0x10"])]]; resign(q); want = False; what = "malformed amount"
        elif k == 10: emb = None; want = False; what = "no description"
        elif k == 11: given = q.copy(); given.kind = 9733; want = False; what = "kind"
        elif k == 12: inv = r.choice(["lnbc5k1qqqqqqqq", "xlnbc5u1qqqqqq", "lnbc99999999999999999999991qqqqq", ""]); want = False; what = "malformed invoice"
        rc = gen.Event(ec.pub(wk), 1700000000, 9735, [], b""); rc.tags = [[b"p", gen.hexid(r)]] + ([[b"bolt11", inv.encode()]] if inv is not None else [])
        if emb is not None: rc.tags.append([b"description", jtext(r, obj(r, emb)).encode()])
        if r.random() < .5: rc.tags.append([b"preimage", gen.hexid(r)])
        rc.tags += [[b"y%d" % j] + [b"2"] * (j % 3) for j in range(r.choice([0, 0, 0, 1, 5, 9, 20, 40]))]
        r.shuffle(rc.tags)
        if k == 13: rc.kind = 9736; want = False; what = "receipt kind"
        resign(rc, wk)
        if k == 14: rc.sig = rc.sig[:63] + bytes([rc.sig[63] ^ 1]); want = False; what = "receipt signature"
        if k == 15: rc.tags.append([b"x", b"y"]); want = False; what = "receipt altered"
        if k == 16: rc = resign(rc.copy(), sk); rc.pk = ec.pub(wk); want = want and ec.pub(wk) == ec.pub(sk); what = "receipt signed by another"
        keyh = key.hex()
        if k == 17: keyh = r.choice([keyh[:63], keyh + "0", "", keyh[:32]]); want = False; what = "short key"
        d.many([rc.build(2), rc.setall(2), given.build(3), given.setall(3)]); o = d.cmd("zap.verify", 2, 3, hx(keyh)); ctx.seen(("verify", rc.key(), given.key(), keyh), what); ctx.count("verify:" + what)
        if want is not None: ctx.check((o["r"] == 0) == want, "verify:" + what, lambda: "%s (expected %s): receipt %s, request %s, key %s" % (o, want, rc.view(), given.view(), keyh), d)
    def body(d):
        for i in range(ctx.n(1500, 20000)):
            create(d, 0); parse(d)
            s = lnurl(); o = d.cmd("zap.lnurl", hx(s)); w = lnurl_ok(s); ctx.seen(("lnurl", s), s[:100]); ctx.count("lnurl:%s" % w)
            if w != "any": ctx.check((o["r"] == 0) == w, "lnurl", lambda: "%s for %r, expected %s" % (o, s, w), d)
            if i % 2 == 0: verify(d)
            if i % 50 == 0: d.reset()
        d.reset(); ctx.leaks(d, "zap")
    for cfg in ("asan",) if ctx.quick else ("asan", "asan-mbed"):
        d = ctx.driver(cfg); ctx.guard(d, body)
