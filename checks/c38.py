"""C38: wallet connect (NIP-47) and remote signer (NIP-46) messages, and the session table with its budgets."""
import json, collections
from lib import gen
from lib.drv import hx, hl, ub
from oracle import ec, n44
from checks.c03 import jtext
M = 2**53; MAXS = 100
def loads(b):
    def dup(ps):
        if len({k for k, _ in ps}) != len(ps): raise ValueError("duplicate member")
        return dict(ps)
    return json.loads(b.decode(), object_pairs_hook=dup)
def run(ctx):
    r = ctx.rng
    ctx.rule = "message created or read (against an independent NIP-44 and Python's json), connection string accepted or refused, session operation (against a sequential model, or an offline check of the recorded concurrent history); distinct by (operation, input)"
    ctx.assumptions = ["noscrypt is not installed: its functions are provided by a stand-in over libsecp256k1 and OpenSSL; the library's own code is the real one",
        "numbers are judged up to 2^53 where the JSON library holds them as doubles, and up to 15 digits where it prints them again; behaviour exactly at an expiry or reset instant, reset interval 0, and a session holding both '*' and a specific permission for one method are judged only one way: no more is authorized than some permission allows"]
    def t8(n=30):
        while True:
            t = gen.text(r, n)
            if gen.utf8(t): return t
    def num(): return r.choice([0, 1, 999, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**40 + 7, M - 1, M, r.randrange(M), r.randrange(10**6)])
    def val(depth=0):
        k = r.randrange(9 if depth < 3 else 6)
        if k == 0: return r.choice([None, True, False])
        if k == 1: return r.choice([num(), -num() - 1]) % 10**15
        if k == 2: return r.choice([0.5, -1.25, 1e10, 3.75, 1e-7])
        if k < 6: return t8().decode()
        if k == 6: return [val(depth + 1) for _ in range(r.randrange(5))]
        return {t8(10).decode() or "k%d" % i: val(depth + 1) for i in range(r.randrange(5))}
    def ev(kind, pk, tags, content): e = gen.Event(pk, 1700000000, kind, tags, content); e.id = e.eid(); return e
    def fromview(v): return gen.Event(bytes.fromhex(v["pubkey"]), v["created_at"], v["kind"], [[ub(x) for x in t] for t in v["tags"]], ub(v["content"]), bytes.fromhex(v["id"]), bytes.fromhex(v["sig"]))
    def good(e): return e.id == e.eid() and ec.verify(e.pk, e.id, e.sig)
    def reb64(c):
        import base64
        x = bytearray(base64.b64decode(c)); x[r.randrange(1, len(x))] ^= 1 << r.randrange(8); return base64.b64encode(bytes(x))
    def hexcase(b): h = b.hex(); return "".join(c.upper() if r.random() < .3 else c for c in h).encode() if r.random() < .5 else h.encode()
    def pct(b): return b"".join(b"%%%02x" % c if c in b"&%#?+ =" or r.random() < .2 else bytes([c]) for c in b)
    def uri(S, k):
        ps = [b"relay=" + pct(b"wss://relay%d.example.com/x?a=b" % i) for i in range(r.choice([1, 1, 2, 3, 5, 9, 40]))] + [b"secret=" + hexcase(k)]
        if r.random() < .5: ps.append(b"lud16=" + pct(b"a%d@example.com" % r.randrange(100)))
        if r.random() < .3: ps.append(r.choice([b"x=1", b"foo", b"budget=5&", b"", b"lud16=", b"relays=q", b"secre=00"]))
        r.shuffle(ps); return b"nostr+walletconnect://" + hexcase(S) + b"?" + b"&".join(ps)
    def request(d, slot, s, S, method, params, pv, what, o=None):
        o = o or d.cmd("nw.req", 1, slot, hx(method), hx(params), 1); C = ec.pub(ec.i2b(ec.b2i(s["client"]))); ctx.count("requests")
        if not ctx.check(o["r"] == 0, "request", lambda: "%s: method %r params %r: %s" % (what, method[:200], params[:200], o), d): return
        e = fromview(o["e"]); ctx.check(e.kind == 23194 and e.pk == C and good(e) and e.tags == [[b"p", S.hex().encode()], [b"encryption", b"nip44_v2"]], "request-event", lambda: "%s: %s" % (what, e.view()), d)
        p = n44.decrypt(n44.conv(s["service"], C), e.content)
        if not ctx.check(p is not None, "request-content", "%s: the service cannot open the request" % what, d): return
        try: v = loads(p)
        except Exception as x: v = repr(x)
        ctx.check(v == dict(method=method.decode(), params=pv), "request-payload", lambda: "%s: method %r params %r became %r" % (what, method[:200], params[:300], p[:600]), d)
    def uris(d, m):
        for i in range(m):
            k, s = gen.priv(r), gen.priv(r); S = ec.pub(s); u = uri(S, k); o = d.cmd("nw.uri", 0, hx(u)); ctx.seen(("uri", u), u.decode()); ctx.count("uris")
            if ctx.check(o["r"] == 0, "uri-refused", "%r: %s" % (u, o), d):
                v = val(); request(d, 0, dict(client=k, service=s), S, b"get_info", jtext(r, v).encode(), v, "connection %r" % u)
            # not connection strings
            p, q = b"nostr+walletconnect://", b"?relay=wss://r.example.com&secret="; H = S.hex().encode(); K = k.hex().encode(); j = 2 * r.randrange(32)
            def put(h, c, j=j): return h[:j] + c + h[j + len(c):]
            odd = [b" 1", b"+1", b"-1", b"0x", b"g0", b"0g", b"\t7", b"\n1", b"  ", b".1", b"1 ", b"\xc3\xa9", b"%3"]
            bad = [p + put(H, c) + q + K for c in odd] + [p + H + q + put(K, c) for c in odd] + [p + H[:-1] + q + K, p + H + b"0" + q + K, p + H[:-2] + q + K, p + H + q + K[:-1], p + H + q + K + b"0", p + H + q, p + H + b"?secret=" + K, p + H + b"?relay=wss://r", p + H, p, b"", b"nostr+walletconnect:" + H + q + K, b"nostr://" + H + q + K, p[:-1] + H + q + K, b"Nostr+walletconnect://" + H + q + K, b" " + p + H + q + K, p + b"?" + H + q + K, p + H + b"&relay=wss://r&secret=" + K, p + H + b"?Relay=wss://r&secret=" + K, p + H + b"?relay=wss://r&secret=" + K + b"&secret=zz", p + H + b"?relay=wss://r&secret="]
            for u in (bad if i < 3 else r.sample(bad, 8)):
                o = d.cmd("nw.uri", 1, hx(u)); ctx.seen(("baduri", u)); ctx.count("malformed_uris"); ctx.check(o["r"] != 0 and o["left"] == 0, "uri-accepted", "%r: %s" % (u, o), d)
            for _ in range(3): d.cmd("nw.uri", 1, hx(gen.mutate(r, u, b"%&=?relaysct0123456789abcdef").replace(b"\0", b"x")))
            d.cmd("nw.uri", 1, hx(p + H + q + K + b"&lud16=a&lud16=b&relay=%zz%4&relay=%&relay=%0&relay=%00x&lud16=%41"))
    def requests(d, m):
        k, s = gen.priv(r), gen.priv(r); S = ec.pub(s); d.cmd("nw.uri", 0, hx(uri(S, k))); sv = dict(client=k, service=s)
        for i in range(m):
            me = r.choice([b"pay_invoice", b"get_balance", b"multi_pay_keysend", t8(), t8(300)]); v = val() if i % 4 else {"invoice": t8(200).decode() * r.choice([1, 40, 150]), "n": [val() for _ in range(20)]}
            tx = jtext(r, v).encode(); tx = r.choice([tx, json.dumps(v).encode(), b" " + tx + b"\n"])
            if len(tx) + 6 * len(me) < 60000: ctx.seen(("req", me, tx)); request(d, 0, sv, S, me, tx, v, "request")
            # what is not JSON is not sent, and parameters cannot reach outside their place
            for bad in (b"", b"{", tx.strip()[:-1] if tx.strip()[-1:] in b'"]}' else b"[", b"x" + tx, tx + b"}", tx + b',"method":"pay_invoice"', b'{},"method":"x"', b"[]]", b"{}{}", b"nul"):
                o = d.cmd("nw.req", 1, 0, hx(me), hx(bad), 1); ctx.seen(("badreq", bad)); ctx.count("bad_params")
                try: json.loads(bad.decode()); continue
                except ValueError: pass
                ctx.check(o["r"] != 0 and o["left"] == 0, "bad-params", lambda: "parameters %r: %s" % (bad[:300], o), d)
        for n in (60, 250, 255, 256, 257, 1000, 8000, 8150, 8190, 8192, 9000, 30000, 64000):
            v = {"invoice": "l" * n}; request(d, 0, sv, S, b"pay_invoice", json.dumps(v).encode(), v, "long request"); ctx.seen(("long", n)); me = b"m" * min(n, 3000); request(d, 0, sv, S, me, b"{}", {}, "long method")
        o = d.cmd("nw.req", 1, 0, hx(b"m"), hx(b"{}"), 0); ctx.check(o["r"] != 0 or n44.decrypt(n44.conv(s, ec.pub(k)), ub(o["e"]["content"])) is None, "nip04", "NIP-04 request made as NIP-44", d)
    def params(d, m):
        def ok(o, want, what):
            ctx.seen((what, repr(want)[:2000])); ctx.count("params_built")
            if not ctx.check(o["r"] == 0, "params", lambda: "%s %r: %s" % (what, want, o), d): return
            try: v = loads(ub(o["p"]))
            except Exception as x: v = repr(x)
            ctx.check(v == want and (not isinstance(v, dict) or all(not isinstance(x, float) for x in v.values())), "params", lambda: "%s: asked for %r, got %r" % (what, want, ub(o["p"])[:800]), d)
        big = lambda: r.choice([num(), num(), 2**63 - 1, 2**63, 2**64 - 1, 2**53 + 1, 2 * 10**18 + 1, 10**15, 999999999999999, r.randrange(2**64)])
        mb = lambda f: None if r.random() < .35 else f()
        S = lambda x: "-" if x is None else hx(x)
        I = lambda x: "-" if x is None else x
        dec = lambda x: x.decode()
        for _ in range(m):
            i, a = t8(200), mb(big); ok(d.cmd("nw.pay", hx(i), I(a)), dict(invoice=dec(i), **({} if a is None else dict(amount=a))), "pay_invoice")
            a, ds, h, x = max(1, big()), mb(t8), mb(lambda: gen.hexid(r)), mb(lambda: num() % 2**32); ok(d.cmd("nw.make", a, S(ds), S(h), I(x)), {k: v for k, v in dict(amount=a, description=None if ds is None else dec(ds), description_hash=h and dec(h), expiry=x).items() if v is not None}, "make_invoice")
            f, u, l, o_, un, ty = mb(lambda: num() % 10**15), mb(lambda: num() % 10**15), mb(lambda: num() % 2**32), mb(lambda: num() % 2**32), mb(lambda: r.choice([0, 1, 5])), mb(t8); ok(d.cmd("nw.list", I(f), I(u), I(l), I(o_), I(un), S(ty)), {k: v for k, v in dict([("from", f), ("until", u), ("limit", l), ("offset", o_), ("unpaid", None if un is None else bool(un)), ("type", None if ty is None else dec(ty))]).items() if v is not None}, "list_transactions")
            h, i = mb(lambda: gen.hexid(r)), mb(t8); o = d.cmd("nw.lookup", S(h), S(i))
            if h is None and i is None: ctx.check(o["r"] != 0 and o["p"] == 0, "params", "lookup without anything: %s" % o, d)
            else: ok(o, {k: dec(v) for k, v in dict(payment_hash=h, invoice=i).items() if v is not None}, "lookup_invoice")
            a, p, q = max(1, big()), gen.hexid(r, 33), mb(lambda: gen.hexid(r)); tl = [(r.choice([0, 1, 65537, 7629169, 2**32 + 1, M - 1, 2**63, 2**64 - 1, r.randrange(2**64)]), gen.hexid(r, r.randrange(1, 40)) if r.random() < .7 else t8()) for _ in range(r.choice([0, 0, 1, 2, 5]))]
            ok(d.cmd("nw.keysend", a, hx(p), S(q), hl(sum([[b"%d" % t, v] for t, v in tl], []))), dict(amount=a, pubkey=dec(p), **({} if q is None else dict(preimage=dec(q))), **({} if not tl else dict(tlv_records=[dict(type=t, value=dec(v)) for t, v in tl]))), "pay_keysend")
            n = r.choice([1, 2, 3, 10, 60]); iv = [t8(60) for _ in range(n)]; ids = [t8(20) for _ in range(n)] if r.random() < .6 else []; am = [big() for _ in range(n)] if r.random() < .6 else []
            ok(d.cmd("nw.multi", hl(ids), hl(iv), *am), dict(invoices=[{k: v for k, v in dict(id=dec(ids[j]) if ids else None, invoice=dec(iv[j]), amount=am[j] or None if am else None).items() if v is not None} for j in range(n)]), "multi_pay_invoice")
        o = d.cmd("nw.const"); ctx.check(o["r"] == 0 and ub(o["balance"]) == b"{}" and ub(o["info"]) == b"{}", "params", str(o), d)
        o = d.many([["nw.make", 0, "-", "-", "-"], ["nw.keysend", 0, hx(b"aa"), "-", "-"]]); ctx.check(all(x["r"] != 0 for x in o), "params", "amount 0: %s" % o, d)
    def same(b, v):
        try: return json.loads(b.decode()) == v
        except Exception: return False
    def responses(d, m):
        for i in range(m):
            k, s = gen.priv(r), gen.priv(r); C, S = ec.pub(k), ec.pub(s); ck = n44.conv(s, C)
            if C == S: continue
            ty, res, err = r.choice([b"pay_invoice", t8()]), val(), r.choice([None, (t8(12), t8()), (t8(12), t8())]); o_ = dict(result_type=ty.decode()); 
            if err: o_["error"] = dict(code=err[0].decode(), message=err[1].decode())
            if not err or r.random() < .3: o_["result"] = res
            elif r.random() < .5: o_["result"] = None
            if not err and r.random() < .3: o_["error"] = None
            if r.random() < .3: o_[r.choice(["x", "Result2", "results"])] = val()
            ks = list(o_); r.shuffle(ks); tx = jtext(r, {a: o_[a] for a in ks}).encode()
            tags = r.choice([[[b"p", C.hex().encode()], [b"e", gen.hexid(r)]], [[b"p", C.hex().encode()]], [[b"p", C.hex().encode(), b"wss://r.example.com"], [b"p", gen.hexid(r), b"", b"x"]], [[b"p"], [b"p", b""]], [], [[b"e", gen.hexid(r)]]]) + [[b"encryption", b"nip44_v2"]]; r.shuffle(tags)
            e = ev(23195, S, tags, n44.encrypt(ck, gen.rb(r, 32), tx)); e.load(d, 0); mask = r.choice([15, 15, 15, r.randrange(16)]); x = d.cmd("nw.resp", 0, hx(k), mask); ctx.seen(("resp", tx, len(tags)), "response " + tx.decode()[:100]); ctx.count("responses")
            if ctx.check(x["r"] == 0, "response", lambda: "response %r with tags %r: %s" % (tx[:300], tags, x), d):
                want = [ty if mask & 1 else None, None, err[0] if err and mask & 4 else None, err[1] if err and mask & 8 else None]; got = [None if x[f] is None else ub(x[f]) for f in ("type", "result", "code", "message")]
                rok = got[1] is None if not mask & 2 or "result" not in o_ else same(got[1], o_["result"]) or (o_["result"] is None and got[1] is None)
                ctx.check(got[0] == want[0] and got[2:] == want[2:] and rok, "response", lambda: "response %r read as %r" % (tx[:500], got), d)
            def refuse(f, key, what, op="nw.resp"):
                f.load(d, 1); y = d.cmd(op, 1, hx(key)); ctx.seen((what, f.content, f.kind)); ctx.count("refused_messages"); ctx.check(y["r"] != 0 and not any(y[z] for z in y if z != "r"), "accepted:" + what, lambda: "%s: %s" % (what, y), d)
            f = e.copy(); f.content = reb64(e.content); refuse(f, k, "altered response"); refuse(e, ec.i2b((ec.b2i(k) + 5) % (ec.N - 1) + 1), "response for another"); f = e.copy(); f.pk = ec.pub(gen.rb(r, 32)); refuse(f, k, "response of another service")
            f = e.copy(); f.kind = r.choice([23194, 23196, 23197, 1, 13194]); refuse(f, k, "response kind"); f = e.copy(); f.content = n44.encrypt(ck, gen.rb(r, 32), tx[:-1]); refuse(f, k, "response JSON cut"); f = e.copy(); f.content = n44.encrypt(ck, gen.rb(r, 32), r.choice([b"x", b"nope", b"{", tx.strip()[1:], tx + b"}", tx + b" x", tx + tx])); refuse(f, k, "no JSON")
            # strangers' members
            f = e.copy(); f.content = n44.encrypt(ck, gen.rb(r, 32), b'{"Result_type":"bad","RESULT":1,"Error":{"code":"x","message":"y"},"result_type":"good","result":2}'); f.load(d, 1); y = d.cmd("nw.resp", 1, hx(k)); ctx.check(y["r"] == 0 and ub(y["type"]) == b"good" and ub(y["result"]) == b"2" and y["code"] is None and y["message"] is None, "response-members", "members of other names read: %s" % y, d)
            for t in (b"[]", b"1", b"null", b'"x"', b"[{}]", b'{"result_type":1,"result":1,"error":"x"}', b'{"error":{"code":1,"message":[]}}', b'{"error":[]}', b"{}"): f = e.copy(); f.content = n44.encrypt(ck, gen.rb(r, 32), t); f.load(d, 1); y = d.cmd("nw.resp", 1, hx(k)); ctx.seen(("odd", t)); ctx.check(y["r"] != 0 or not (y["type"] or y["code"] or y["message"]), "response", "%r: %s" % (t, y), d)
            # notifications
            ntx = jtext(r, dict(notification_type=ty.decode(), notification=res)).encode(); e = ev(23197, S, [[b"p", C.hex().encode()]], n44.encrypt(ck, gen.rb(r, 32), ntx)); e.load(d, 0); y = d.cmd("nw.notif", 0, hx(k)); ctx.seen(("notif", ntx)); ctx.count("notifications")
            ctx.check(y["r"] == 0 and ub(y["type"]) == ty and same(ub(y["notif"] or ""), res), "notification", lambda: "%r: %s" % (ntx[:400], y), d)
            f = e.copy(); f.content = reb64(e.content); refuse(f, k, "altered notification", "nw.notif"); f = e.copy(); f.kind = r.choice([23194, 23195, 1]); refuse(f, k, "notification kind", "nw.notif")
            # capabilities
            def words(): return b" ".join(t8(12).replace(b" ", b"_") or b"a" for _ in range(r.choice([1, 2, 5, 20, 150]))) if r.random() < .8 else r.choice([b"", b" ", b"  a  b ", b" a", b"a "])
            c, n_, en = words(), words(), words(); tg = [x for x in ([b"notifications", n_], [b"encryption", en]) if r.random() < .8]; r.shuffle(tg); e = ev(13194, S, tg + [[b"x"]], c); e.load(d, 0); y = d.cmd("nw.info", 0); ctx.seen(("info", c, n_, en)); ctx.count("info_events")
            g = lambda q: [ub(z) for z in q] if isinstance(q, list) else []
            sp = lambda q: [z for z in q.split(b" ") if z]; has = {t[0]: t[1] for t in tg if len(t) > 1}
            ctx.check(y["r"] == 0 and g(y["caps"]) == sp(c) and g(y["notifs"]) == sp(has.get(b"notifications", b"")) and g(y["encs"]) == sp(has.get(b"encryption", b"")), "info-event", lambda: "content %r tags %r: %s" % (c, tg, y), d)
        d.cmd("ev.create", 2); d.cmd("ev.setkind", 2, 13194); d.cmd("nw.info", 2)
        for k in (23195, 23197): d.cmd("ev.setkind", 2, k); o = d.cmd("nw.resp" if k == 23195 else "nw.notif", 2, hx(gen.priv(r))); ctx.seen(("nocontent", k)); ctx.check(o["r"] != 0, "accepted:no content", str(o), d)
    def results(d, m):
        for _ in range(m):
            b = num(); j = jtext(r, dict(balance=b, x=val())).encode(); o = d.cmd("nw.pbal", hx(j)); ctx.seen(("bal", j)); ctx.count("results"); ctx.check(o["r"] == 0 and o["balance"] == b, "balance", lambda: "%r: %s" % (j, o), d)
            for j in (b'{"balance":-1}', b'{"balance":-0.5}', b'{"balance":-1e-9}', b'{"balance":18446744073709551616}', b'{"balance":20000000000000000000}', b'{"balance":4e19}', b'{"balance":-18446744073709551615}', b'{"balance":-1e300}', b'{"balance":1e300}', b'{"balance":"5"}', b'{"balance":null}', b'{}', b'[]', b'5', b'{"balance":[5]}', b'{"Balance":5}', b'', b'{"balance":5', b'{"balance":%d}' % -num() if 0 else b'{"balance":-7}'): o = d.cmd("nw.pbal", hx(j)); ctx.seen(("badbal", j)); ctx.check(o["r"] != 0, "balance", "%r: %s" % (j, o), d)
            p, f = t8(), num(); j = jtext(r, dict(preimage=p.decode(), fees_paid=f)).encode(); o = d.cmd("nw.ppay", hx(j)); ctx.seen(("pay", j)); ctx.check(o["r"] == 0 and ub(o["preimage"]) == p and o["fees"] == f, "pay-result", lambda: "%r: %s" % (j, o), d)
            U = 0xA5A5A5A5A5A5A5A5
            for j in (b'{"fees_paid":-1}', b'{"fees_paid":-0.5}', b'{"fees_paid":18446744073709551616}', b'{"fees_paid":2e19}', b'{"fees_paid":1e300}', b'{"fees_paid":"x"}', b'{"preimage":5}', b'{}', b'[]'): o = d.cmd("nw.ppay", hx(j)); ctx.seen(("oddpay", j)); ctx.check(o["r"] != 0 or (o["preimage"] is None and o["fees"] in (U, 0)), "pay-result", "%r: %s" % (j, o), d)
            v = dict(alias=t8().decode(), color=t8(8).decode(), pubkey=gen.hexid(r).decode(), network=r.choice(["mainnet", "testnet", t8().decode()]), block_height=r.choice([0, 800000, 2**31, 2**32 - 1]), methods=[t8(12).decode() for _ in range(r.choice([0, 1, 5, 40]))]); j = jtext(r, v).encode(); o = d.cmd("nw.pinfo", hx(j)); ctx.seen(("infores", j))
            ctx.check(o["r"] == 0 and all(ub(o[a]).decode() == v[a] for a in ("alias", "color", "pubkey", "network")) and o["height"] == v["block_height"] and [ub(x).decode() for x in (o["methods"] if isinstance(o["methods"], list) else [])] == v["methods"], "info-result", lambda: "%r: %s" % (j[:400], str(o)[:600]), d)
            for j in (b'{"methods":[1,"a",null,{},"b"]}', b'{"methods":[null]}', b'{"methods":"x"}', b'{"block_height":-1}', b'{"block_height":-0.5}', b'{"block_height":5000000000}', b'{"block_height":18446744073709551616}', b'{"block_height":1e300}', b'{"block_height":4294967296}', b'{"alias":1,"color":[],"pubkey":{},"network":null}', b'[]'):
                o = d.cmd("nw.pinfo", hx(j)); ctx.seen(("oddinfo", j)); ms = o["methods"] if isinstance(o["methods"], list) else []; ctx.check(o["r"] != 0 or (o["height"] in (0xA5A5A5A5, 0) and not any(o[a] for a in ("alias", "color", "pubkey", "network")) and all(x is None or ub(x) in (b"a", b"b") for x in ms)), "info-result", "%r: %s" % (j, o), d)
    def signer(d, m):
        for i in range(m):
            k, s = gen.priv(r), gen.priv(r); C, S = ec.pub(k), ec.pub(s)
            if C == S: continue
            ck = n44.conv(s, C); rid = r.choice([gen.hexid(r, 8), gen.hexid(r, 32), t8(), b"x"])[:64]; rid = rid if gen.utf8(rid) else b"q"; me = r.choice([b"sign_event", b"connect", b"get_public_key", b"nip44_encrypt", t8()[:31]]); me = me if gen.utf8(me) else b"ping"; pa = r.choice([[t8().decode() for _ in range(r.randrange(4))], [json.dumps(val())], val()])
            o_ = dict(id=rid.decode(), method=me.decode(), params=pa); ks = list(o_); r.shuffle(ks); tx = jtext(r, {a: o_[a] for a in ks}).encode(); e = ev(24133, C, [[b"p", S.hex().encode()]], n44.encrypt(ck, gen.rb(r, 32), tx)); e.load(d, 0); o = d.cmd("n46.parse", 0, hx(s)); ctx.seen(("46", tx), "signer request " + tx.decode()[:80]); ctx.count("signer_requests")
            ctx.check(o["r"] == 0 and o["term"] and ub(o["id"]) == rid and ub(o["method"]) == me and o["sender"] == C.hex() and o["len"] == 0 and same(ub(o["params"] or ""), pa), "signer-request", lambda: "%r: %s" % (tx[:400], o), d)
            # what does not fit is refused, not cut short
            for a, b in ((b"i" * 65, b"m"), (b"i" * 64, b"m" * 31), (b"i", b"m" * 32), (b"i" * 300, b"sign_event"), (b"i", b"get_public_key" + b"x" * 20)):
                tx = json.dumps(dict(id=a.decode(), method=b.decode(), params=[])).encode(); f = e.copy(); f.content = n44.encrypt(ck, gen.rb(r, 32), tx); f.load(d, 1); o = d.cmd("n46.parse", 1, hx(s)); ctx.seen(("46long", tx)); ctx.check(o["r"] != 0 or (ub(o["id"]) == a and ub(o["method"]) == b), "signer-request-cut", "%r: %s" % (tx, o), d)
            f = e.copy(); f.content = n44.encrypt(ck, gen.rb(r, 32), b'{"Id":"bad","METHOD":"bad","PARAMS":["bad"],"id":"good","method":"ping","params":[]}'); f.load(d, 1); o = d.cmd("n46.parse", 1, hx(s)); ctx.check(o["r"] == 0 and ub(o["id"]) == b"good" and ub(o["method"]) == b"ping" and same(ub(o["params"]), []), "signer-members", "members of other names read: %s" % o, d)
            for f, key, what in ((e, ec.i2b((ec.b2i(s) + 5) % (ec.N - 1) + 1), "request for another"),): f.load(d, 1); o = d.cmd("n46.parse", 1, hx(key)); ctx.check(o["r"] != 0, "accepted:" + what, str(o), d)
            f = e.copy(); f.content = reb64(e.content); f.load(d, 1); o = d.cmd("n46.parse", 1, hx(s)); ctx.seen(("46alt", f.content)); ctx.check(o["r"] != 0, "accepted:altered signer request", str(o), d); f = e.copy(); f.kind = 24134; f.load(d, 1); o = d.cmd("n46.parse", 1, hx(s)); ctx.check(o["r"] != 0, "accepted:signer kind", str(o), d)
            for t in (tx.strip()[1:], tx + b"}", tx + b" x", tx + tx): f = e.copy(); f.content = n44.encrypt(ck, gen.rb(r, 32), t); f.load(d, 1); o = d.cmd("n46.parse", 1, hx(s)); ctx.seen(("46json", t)); ctx.check(o["r"] != 0, "accepted:signer JSON", "%r: %s" % (t, o), d)
            for t in (b"[]", b"5", b'{"id":5,"method":[],"params":null}', b"{}"): f = e.copy(); f.content = n44.encrypt(ck, gen.rb(r, 32), t); f.load(d, 1); d.cmd("n46.parse", 1, hx(s))
            # responses: result is a string (NIP-46), whatever it looks like
            res = r.choice([b"pong", b"ack", b"123", b"1e5", b"true", b"null", b"[]", b'["a",1]', b"{}", b'"quoted"', json.dumps(dict(id="a", kind=1, content=t8().decode())).encode(), t8(200), b"0x", gen.hexid(r), b"1.0", b" 1 ", b"", t8(9000)]); er = r.choice([None, None, t8(), b"", t8(3000)])
            o = d.cmd("n46.resp", 2, hx(rid), hx(res) if er is None or r.random() < .5 else "-", "-" if er is None else hx(er), hx(s), hx(C)); ctx.seen(("46resp", rid, res, er)); ctx.count("signer_responses")
            if ctx.check(o["r"] == 0, "signer-response", "%r %r: %s" % (res, er, o), d):
                x = fromview(o["e"]); p = n44.decrypt(n44.conv(k, S), x.content); 
                try: v = loads(p)
                except Exception as z: v = dict(bad=repr(z))
                ctx.check(x.kind == 24133 and x.pk == S and good(x) and x.tags == [[b"p", C.hex().encode()]], "signer-event", lambda: str(x.view()), d)
                ctx.check(v.get("id") == rid.decode() and (v.get("result") == res.decode() and not v.get("error") if er is None else v.get("error") == er.decode()), "signer-response", lambda: "result %r error %r became %r" % (res, er, p and p[:400]), d)
    # --- sessions against a model
    class Sess:
        __slots__ = ("id", "k", "s", "exp", "perms", "gone")
    def sessions(d, m):
        now = 1800000000 + r.randrange(10**6); d.cmd("vf.time", now, 0); live, dead = [], []; win = []; 
        def usable(x): return not x.gone and now < x.exp
        def dead_(x): return x.gone or now > x.exp
        for step in range(m):
            k = r.random(); lim = r.choice([0, 1, 5, 1000, 10**6, 2**63, 2**64 - 1])
            if not live or k < .08:
                # at most ten a second: keep clear of that limit
                now += 2; d.cmd("vf.time", now, 0)
                for x in live: x.gone = x.gone or now > x.exp
                x = Sess(); x.k, x.s = gen.priv(r), gen.priv(r); o = d.cmd("ns.create", hx(uri(ec.pub(x.s), x.k))); n_live = sum(not x.gone for x in live); ctx.seen(("create", step, now)); ctx.count("sessions_created")
                if o["r"] != 0: ctx.check(n_live >= MAXS, "session-refused", "session %d refused: %s" % (n_live, o), d); ctx.count("table_full"); continue
                ctx.check(n_live < MAXS, "too-many-sessions", "session %d created" % n_live, d)
                x.id = ub(o["id"] or ""); ctx.check(len(x.id) == 64 and all(c in gen.HEX for c in x.id) and all(y.id != x.id for y in live), "session-id", "id %r" % x.id, d); x.exp = now + 3600; x.perms = []; x.gone = False; live.append(x)
                for _ in range(r.choice([0, 1, 2, 3])): perm(d, x, now)
            elif k < .10: now += r.choice([1, 59, 600, 1799, 3601]); d.cmd("vf.time", now, 0)
            elif k < .14:
                x = r.choice(live); o = d.cmd("ns.destroy", hx(x.id)); ctx.check((o["r"] != 0) if x.gone else (o["r"] == 0 or now >= x.exp), "destroy", "destroy of a %s session: %s" % ("gone" if x.gone else "live", o), d); x.gone = True; ctx.count("sessions_destroyed")
            elif k < .17:
                x = r.choice(live); s = r.choice([0, 10, 3600]); o = d.cmd("ns.extend", hx(x.id), s)
                if x.gone: ctx.check(o["r"] != 0, "gone-session", "extending a destroyed session: %s" % o, d)
                elif usable(x): ctx.check(o["r"] == 0, "extend", str(o), d); x.exp += s
                else:   # an expired session: whether it can be revived is not judged
                    x.exp = x.exp + s if o["r"] == 0 else x.exp
            elif k < .23:
                x = r.choice(live); o = d.cmd("ns.conn", hx(x.id)); ctx.seen(("conn", step))
                if dead_(x): ctx.check(o["r"] != 0 and o["left"] == 0, "gone-session", "connection of a gone session: %s" % str(o)[:300], d)
                elif usable(x) and ctx.check(o["r"] == 0 and o["req"] == 0, "connection", str(o)[:300], d): request(d, 0, dict(client=x.k, service=x.s), ec.pub(x.s), b"get_info", b"{}", {}, "session's connection", dict(r=o["req"], e=o["e"]))
            elif k < .30: perm(d, r.choice(live), now)
            elif k < .38:
                # ids that are nobody's
                x = r.choice(live); i = r.randrange(64); q = x.id
                for z in (q[:63], q[:i], q + b"0", q + q, q[:i] + (b"0" if q[i:i + 1] != b"0" else b"1") + q[i + 1:], q[:63] + (b"0" if q[63:] != b"0" else b"1"), (b"0" if q[:1] != b"0" else b"1") + q[1:], q.upper() if q.upper() != q else b"", b"", b"0" * 64, gen.hexid(r)):
                    if z == q: continue
                    o = d.many([["ns.check", hx(z), hx(x.perms[0]["n"] if x.perms else b"pay"), 1], ["ns.conn", hx(z)], ["ns.extend", hx(z), 5], ["ns.perm", hx(z), hx(b"*"), 0, 1000], ["ns.destroy", hx(z)]]); ctx.seen(("unknown", z)); ctx.count("unknown_ids"); ctx.check(all(y["r"] != 0 for y in o), "unknown-session", "%r, near %r: %s" % (z, q, [y["r"] for y in o]), d)
            else:
                x = r.choice(live[-8:]) if r.random() < .8 else r.choice(live); me = r.choice([p["n"] for p in x.perms] + [b"pay_invoice", b"get_balance", b"other", b"*", b""]) if r.random() < .9 else t8(); ms = [p for p in x.perms if p["n"] in (me, b"*")]; p = ms[0] if ms else None; left = p["l"] - p["u"] if p else 0
                if p and now > p["at"] and p["i"]: left = p["l"]
                a = r.choice([0, 1, left, left + 1, left - 1, left // 2, 2**64 - 1, 2**64 - (p["u"] if p else 1), 2**64 - (p["u"] if p else 1) - 1, 2**63, r.randrange(1, 50)]) % 2**64; o = d.cmd("ns.check", hx(x.id), hx(me), a); ok = o["r"] == 0; ctx.seen(("check", step, me, a)); ctx.count("authorized" if ok else "not_authorized")
                what = lambda: "session %s at %d, %r %d with %s: %s" % ("gone" if x.gone else "expires %d" % x.exp, now, me, a, x.perms, o)
                if dead_(x): ctx.check(not ok, "gone-session", what, d); continue
                if not usable(x): continue
                if p is None: ctx.check(not ok, "no-permission", what, d); continue
                mixed = len({q["n"] for q in ms}) > 1
                def fits(q): return q["l"] == 0 or a <= (q["l"] if now >= q["at"] else q["l"] - q["u"])
                if mixed:
                    ctx.check(not ok or any(fits(q) for q in ms), "over-budget", what, d)
                    for q in ms: q["loose"] = True
                    continue
                if p.get("loose"): continue
                if p["i"] == 0 and p["l"]:
                    ctx.check(not ok or a <= p["l"], "over-budget", what, d); continue
                if now == p["at"]:   # the instant itself: follow what it did
                    if ok and p["l"] and p["u"] + a > p["l"]: p["u"] = 0; p["at"] = now + p["i"]; p["loose"] = True
                    elif ok: p["loose"] = True
                    continue
                if now > p["at"]: p["u"] = 0; p["at"] = now + p["i"]
                ctx.check(ok == (p["l"] == 0 or p["u"] + a <= p["l"]), "over-budget" if ok else "budget-refused", what, d)
                if ok: p["u"] += a
        d.cmd("vf.time", now + 10**6, 0); o = d.many([["ns.check", hx(x.id), hx(b"pay_invoice"), 0] for x in live] + [["ns.conn", hx(x.id)] for x in live]); ctx.check(all(y["r"] != 0 for y in o), "gone-session", "an expired session authorized something", d)
        d.cmd("vf.time", now, 0)
        for x in live:
            if not x.gone: d.cmd("ns.destroy", hx(x.id))
        d.cmd("vf.time", now + 10**6, 0)
    def perm(d, x, now):
        n, l, i = r.choice([b"pay_invoice", b"get_balance", b"make_invoice", t8(20)] + [b"*"] * (r.random() < .2)), r.choice([0, 1, 5, 1000, 10**6, 2**63, 2**64 - 1]), r.choice([1, 60, 3600, 2**32 - 1, 0 if r.random() < .2 else 7])
        o = d.cmd("ns.perm", hx(x.id), hx(n), l, i); ctx.count("permissions")
        if x.gone: ctx.check(o["r"] != 0, "gone-session", "permission for a destroyed session: %s" % o, d)
        elif now < x.exp:
            ctx.check((o["r"] == 0) == (len(x.perms) < 32), "permission", "permission %d: %s" % (len(x.perms), o), d)
            if o["r"] == 0: x.perms.append(dict(n=n, l=l, i=i, u=0, at=now + i))
        elif o["r"] == 0: x.perms.append(dict(n=n, l=l, i=i, u=0, at=now + i))
    def budgets(d, m):
        """one permission, its interval elapsing once, several times or almost, and budgets spent to the last unit: every period starts at the first use after the last one ended"""
        for t in range(m):
            now = 1850000000 + t * 10**6 + r.randrange(1000); d.cmd("vf.time", now, 0); i = ub(d.cmd("ns.create", hx(uri(ec.pub(gen.priv(r)), gen.priv(r))))["id"]); long = t % 3 == 2; iv = r.choice([3600, 65537, 86400, 100000, 2**31 + 7, 2**32 - 1] if long else [1, 2, 7, 60, 100, 600]); lim = r.choice([1, 10, 1000, 2**63, 2**64 - 1]); n = r.choice([b"pay_invoice", b"*", t8(20) or b"x"])
            o = d.cmd("ns.perm", hx(i), hx(n), lim, iv); ctx.check(o["r"] == 0, "permission", str(o), d); at = now + iv; end = now + 3600
            if long:        # a session which lasts: over eight periods
                for _ in range(10): ctx.check(d.cmd("ns.extend", hx(i), min(iv, 2**31))["r"] == 0, "extend", "", d); end += min(iv, 2**31)
            used = 0; me = n if n != b"*" else b"get_balance"; hist = []
            for _ in range(40):
                # never at the very instant a period ends, nor where a late start and a regular grid agree
                step = r.choice([0, 0, 0, 0, 1, 1, iv + 1, iv - 1, iv // 2, 2 * iv + 1, 2 * iv + iv // 2 + 1, 3 * iv, 7 * iv + 3]); now += step
                if now == at: now += 1
                if now >= end: break
                d.cmd("vf.time", now, 0)
                a = r.choice([0, 1, lim - used, lim - used, lim - used + 1, (lim - used) // 2, lim, 2**64 - 1]) % 2**64
                if now > at: a = r.choice([a, lim, lim])
                if now > at: used = 0; at = now + iv; ctx.count("budget_periods")
                o = d.cmd("ns.check", hx(i), hx(me), a); want = used + a <= lim; hist.append((now, a, o["r"] == 0)); ctx.seen(("budget", t, now, a, used)); ctx.count("budget_uses")
                if not ctx.check((o["r"] == 0) == want, "budget-refused" if want else "over-budget", lambda: "limit %d every %d s, period ending at %d, %d used: history %s" % (lim, iv, at, used, hist), d): break
                if want: used += a
            d.cmd("ns.destroy", hx(i)); d.cmd("vf.time", 1850000000 + t * 10**6 + 10**5, 0)
    def configured(d):
        """the number of permissions follows a changing configuration"""
        d.restart(); DEF = [1, 65535, 3, 500, 32, 65536, 100, 50, 30000, 10000, 44, 0, 0]; T0 = 1900000000; d.cmd("vf.time", T0, 0); ctx.check(d.cmd("cfg.init", *DEF)["r"] == 0, "configuration", "", d)
        def cfg(n): o = d.cmd("cfg.update", *(DEF[:4] + [n] + DEF[5:])); ctx.check(o["r"] == 0, "configuration", str(o), d)
        # room for three sessions of 500 seconds
        u = lambda: hx(uri(ec.pub(gen.priv(r)), gen.priv(r))); o = [d.cmd("ns.create", u()) for _ in range(5)]; ctx.check([x["r"] == 0 for x in o] == [True] * 3 + [False] * 2, "session-limit", "three sessions allowed: %s" % o, d); x = ub(o[0]["id"]); ctx.seen("three")
        d.cmd("vf.time", T0 + 499, 0); ctx.check(d.cmd("ns.conn", hx(x))["r"] == 0, "timeout", "gone after 499 s of 500", d); d.cmd("vf.time", T0 + 501, 0); o = d.cmd("ns.conn", hx(x)); ctx.check(o["r"] != 0, "gone-session", "alive after 501 s of 500", d); d.cmd("vf.time", T0 + 900, 0); o = d.cmd("ns.create", u()); ctx.check(o["r"] == 0, "session-refused", "expired sessions keep their place: %s" % o, d)
        # at most ten a second are created
        d.cmd("vf.time", T0 + 20000, 0); k = 0
        for _ in range(25):
            o = d.cmd("ns.create", u()); k += o["r"] == 0
            if o["r"] == 0: d.cmd("ns.destroy", hx(ub(o["id"])))
        ctx.check(k == 10, "rate", "%d sessions created in one second" % k, d); d.cmd("vf.time", T0 + 20001, 0); o = d.cmd("ns.create", u()); ctx.check(o["r"] == 0, "rate", "refused a second later: %s" % o, d); d.cmd("vf.time", T0 + 30000, 0)
        for a, b in ((2, 40), (1, 1000), (40, 3), (1, 2), (33, 34)):
            x = ub(d.cmd("ns.create", hx(uri(ec.pub(gen.priv(r)), gen.priv(r))))["id"]); n = 0
            for c in (a, b):
                cfg(c)
                for _ in range(c + 2):
                    o = d.cmd("ns.perm", hx(x), hx(b"p%d" % n), 10, 1000); ctx.seen(("cfg", a, b, n)); ctx.check((o["r"] == 0) == (n < c), "permission-limit", "permission %d with a limit of %d: %s" % (n, c, o), d); n += o["r"] == 0
            o = d.many([["ns.check", hx(x), hx(b"p%d" % i), 10] for i in range(n)] + [["ns.check", hx(x), hx(b"p%d" % i), 1] for i in range(n)]); ctx.check(all(y["r"] == 0 for y in o[:n]) and all(y["r"] != 0 for y in o[n:]), "permission-limit", "after growing: %s" % o, d); d.cmd("ns.destroy", hx(x))
            T0 += 5; d.cmd("vf.time", T0 + 30000, 0)
        d.restart()
    def parallel(d, m):
        for turn in range(m):
            now = 2000000000 + turn * 10**6; d.cmd("vf.time", now, 0); u = uri(ec.pub(gen.priv(r)), gen.priv(r)); ids = []
            for _ in range(r.choice([1, 2, 4])):
                i = ub(d.cmd("ns.create", hx(u))["id"]); ids.append(i); L = r.choice([100, 1000, 5000]); d.cmd("ns.perm", hx(i), hx(b"pay"), L, 4000000000); d.cmd("ns.perm", hx(i), hx(b"other"), 30, 4000000000); lim = L
                if len(ids) == 1: lims = []
                lims.append(L)
            mix = r.choice(["cccccccccco", "ccch", "ccccoe", "cccg", "cccccccccccd", "ccld", "cceglpd", "cncdg", "ncdle", "ccceghnpld"]); T, N = r.choice([2, 4, 8]), r.choice([40, 100])
            d.cmd("vf.time", now, r.choice([0, 1])); o = d.cmd("ns.par", T, N, r.randrange(2**31), r.choice([0, 0, 200, 2000]), hx(mix.encode()), hx(u), *[hx(i) for i in ids]); d.cmd("vf.time", now + 10**5 * 9, 0); log = o["log"]; ctx.seen(("par", turn, tuple(map(tuple, log[:40]))), "mix %s on %d threads" % (mix, T)); ctx.count("concurrent_calls", len(log))
            by = collections.defaultdict(list)
            for k, s, a, rr, t0, t1, th in log: by[s].append((chr(k), a, rr, t0, t1, th))
            over = sum(1 for s in by for i, x in enumerate(sorted(by[s], key=lambda q: q[3])[:-1]) if sorted(by[s], key=lambda q: q[3])[i + 1][3] < x[4]); ctx.count("overlapping_calls", over)
            for s, L in by.items():
                if s < 0: continue
                hist = lambda: "mix %s, %d threads, session %d: %s" % (mix, T, s, sorted(L, key=lambda q: q[3])[:200])
                dest = [x for x in L if x[0] == "d" and x[2] == 0]; ctx.check(len(dest) <= 1, "destroyed-twice", hist, d)
                for op, lim in (("ch", lims[s] if s < len(lims) else 200), ("o", 30), ("l", None)):
                    C = [x for x in L if x[0] in op]; okc = [x for x in C if x[2] == 0]
                    if lim is not None and not (op == "o" and s >= len(lims)):
                        tot = sum(x[1] for x in okc); ctx.check(tot <= lim, "over-budget", lambda: "%d authorized of %d: %s" % (tot, lim, hist()), d)
                        for x in C:
                            if x[2] != 0 and x[1] < 2**63 and not any(y[3] < x[4] for y in dest): ctx.check(sum(y[1] for y in okc if y[3] < x[4]) + x[1] > lim, "budget-refused", lambda: "refused %s: %s" % (x, hist()), d)
                if dest:
                    D = dest[0]
                    for x in L:
                        if x[3] > D[4] and x[0] not in "n": ctx.check(x[2] != 0, "gone-session", lambda: "%s after destroy %s: %s" % (x, D, hist()), d)
                    ctx.count("sessions_destroyed_concurrently")
                ctx.check(not any(x[0] == "g" and x[2] == -99 for x in L), "connection", lambda: "a session without a connection: " + hist(), d)
    d = ctx.driver("shim")
    ctx.guard(d, uris, ctx.n(12, 300)); ctx.guard(d, requests, ctx.n(12, 300)); ctx.guard(d, params, ctx.n(60, 4000)); ctx.guard(d, responses, ctx.n(14, 500)); ctx.guard(d, results, ctx.n(12, 400)); ctx.guard(d, signer, ctx.n(16, 500))
    d.cmd("reset")
    for _ in range(ctx.n(2, 14)): ctx.guard(d, sessions, ctx.n(700, 2500)); d.restart()
    ctx.guard(d, budgets, ctx.n(60, 1000)); ctx.guard(d, configured); d.reset(); ctx.leaks(d, "wallet connect")
    for cfg in ("shim-tsan", "shim"):
        d = ctx.driver(cfg); ctx.guard(d, parallel, ctx.n(15, 250)); d.reset()
        if cfg == "shim": ctx.leaks(d, "concurrent sessions")
