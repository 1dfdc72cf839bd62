"""C08: key pairs, validation, ECDH against an independent secp256k1."""
from lib import gen
from lib.drv import hx
from oracle import ec
Z = b"\0" * 32
def run(ctx):
    r = ctx.rng
    ctx.rule = "private key, public key or pair presented to construction, validation, export, ECDH; expected result from an independent secp256k1; distinct by operation and key material"
    def privs(n):
        ed = [0, 1, 2, 3, ec.N - 2, ec.N - 1, ec.N, ec.N + 1, ec.N + 2, 2**256 - 1, ec.P, ec.P - 1, 2**255, 2**128, 2**248, ec.N // 2, ec.N // 2 + 1, ec.N - 2**128, (ec.N >> 128) << 128, 1 << 252, 0xff]
        for i in range(n):
            if i < len(ed): yield ec.i2b(ed[i])
            else:
                k = r.random()
                yield gen.rb(r, 32) if k < .6 else ec.i2b(r.randrange(1, 2**r.randrange(1, 256))) if k < .8 else ec.i2b(min(2**256 - 1, ec.N + r.randrange(-2**20, 2**20)))
    def pubs():
        x = r.randrange(ec.P)
        return r.choice([ec.pub(gen.priv(r)), ec.i2b(x), ec.i2b(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, ec.P - 1, ec.P, ec.P + 1, 2**256 - 1, ec.N]))])
    def body(d):
        for i, k in enumerate(privs(ctx.n(160, 4000))):
            ok = ec.valid_priv(k); pk = ec.pub(k) if ok else None; h = k.hex().encode()
            if r.random() < .3: h = h.upper()
            o = d.many([["kp.frompriv", hx(k)], ["kp.fromhex", hx(h)]])
            for nm, x in zip(("from_private_key", "from_private_hex"), o):
                ctx.seen((nm, k), "%s %s" % (nm, k.hex())); ctx.count("valid_priv" if ok else "invalid_priv")
                if ok: ctx.check(x["r"] == 0 and x["priv"] == k.hex() and x["pub"] == pk.hex() and x["init"] == 1, nm, lambda: "%s gave %s, expected public key %s" % (k.hex(), x, pk.hex()), d)
                else: ctx.check(x["r"] != 0, nm + "-accepts-invalid", lambda: "%s gave %s" % (k.hex(), x), d)
            if not ok:
                for q in (ec.pub(ec.i2b(1)), Z, pubs()):
                    x = d.cmd("kp.validate", hx(k), hx(q), 1); ctx.seen(("val", k, q))
                    ctx.check(x["r"] != 0, "validate-accepts-invalid-private", "%s" % k.hex(), d)
                    x = d.cmd("key.ecdh", hx(k), hx(ec.pub(ec.i2b(7)))); ctx.seen(("ecdh", k))
                    ctx.check(x["r"] != 0, "ecdh-accepts-invalid-private", "%s -> %s" % (k.hex(), x), d)
                continue
            P2 = [pk, ec.pub(ec.i2b((ec.b2i(k) + 1) % ec.N or 1)), pubs(), Z, pk[:31] + bytes([pk[31] ^ 1]), bytes([pk[0] ^ 128]) + pk[1:], ec.i2b(ec.N - ec.b2i(pk)) if ec.b2i(pk) < ec.N else pk]
            b = r.randrange(256); y = bytearray(pk); y[b // 8] ^= 1 << b % 8; P2.append(bytes(y))
            out = d.many([["kp.validate", hx(k), hx(q), 1] for q in P2] + [["kp.validate", hx(k), hx(pk), 0]])
            for q, x in zip(P2, out):
                ctx.seen(("val", k, q)); ctx.count("pairs_matching" if q == pk else "pairs_mismatched")
                ctx.check((x["r"] == 0) == (q == pk), "validate", lambda: "priv %s pub %s (own %s): %s" % (k.hex(), q.hex(), pk.hex(), x), d)
            ctx.check(out[-1]["r"] != 0, "validate-uninitialized", "%s" % out[-1], d)
            # n-k has the same x coordinate: the pair is consistent too
            nk = ec.i2b(ec.N - ec.b2i(k)); x = d.cmd("kp.validate", hx(nk), hx(pk), 1); ctx.seen(("neg", k))
            ctx.check(x["r"] == 0, "validate-negated", "%s" % k.hex(), d)
            for m in (64, 65, 66, 0):
                x = d.cmd("kp.export", hx(k), hx(pk), 1, m); ctx.seen(("exp", k, m))
                if m >= 65: ctx.check(x["r"] == 0 and x["r2"] == 0 and bytes.fromhex(x["priv"])[:65] == k.hex().encode() + b"\0" and bytes.fromhex(x["pub"])[:65] == pk.hex().encode() + b"\0" and x["gpub"] == pk.hex() and x["gpriv"] == k.hex(), "export", "%s" % x, d)
                else: ctx.check(x["r"] != 0 and x["r2"] != 0, "export-small", "%s" % x, d)
            x = d.cmd("kp.export", hx(k), hx(pk), 0, 65); ctx.check(x["r"] != 0 and x["r2"] != 0 and x["gpub"] is None and x["gpriv"] is None, "export-uninitialized", "%s" % x, d)
            # the same pair built again, with input of either kind and with the generator failing: afterwards it is a whole pair, or it no longer claims to be one
            for before in (0, 1):
                bad = ec.i2b(r.choice([0, ec.N, ec.N + 1, 2**256 - 1])); g2 = gen.priv(r); bh = r.choice([bad.hex(), g2.hex()[:-1], g2.hex()[:-1] + "g", "zz" + g2.hex()[2:], g2.hex() + "0", ""])
                for cmd, good in ((["kp.again", hx(k), 0, hx(bad), before], None), (["kp.again", hx(k), 1, hx(bh), before], None), (["kp.again", hx(k), 0, hx(g2), before], g2), (["kp.again", hx(k), 1, hx(g2.hex()), before], g2), (["kp.again", hx(k), 2, "-", before], 0), (["!r1", "kp.again", hx(k), 2, "-", before], None)) + ((((["kp.again", hx(k), 3, "-", 1], k)),) if before else ()):
                    x = d.cmd(*cmd); ctx.seen(tuple(cmd), "built again: %s" % cmd); ctx.count("rebuilt")
                    whole = x["valid"] and x["init"] == 1 and x["pub"] == ec.pub(bytes.fromhex(x["priv"])).hex()
                    if good is not None: ctx.check(x["r"] == 0 and whole and (good == 0 or x["priv"] == good.hex()), "rebuild", lambda: "%s gave %s" % (cmd, x), d)
                    else: ctx.check(x["r"] != 0 and (not x["init"] and not x["valid"] or before and whole and x["priv"] == k.hex()), "failed-rebuild-half-a-pair", lambda: "%s gave %s" % (cmd, x), d)
            k2 = gen.priv(r); q2 = ec.pub(k2); w = ec.ecdh_x(k, q2)
            a, b2 = d.many([["key.ecdh", hx(k), hx(q2)], ["key.ecdh", hx(k2), hx(pk)]]); ctx.seen(("ecdh", k, q2), "ecdh %s %s" % (k.hex(), q2.hex())); ctx.count("ecdh_pairs")
            ctx.check(a["r"] == 0 and b2["r"] == 0 and a["o"] == b2["o"], "ecdh-asymmetric", "%s %s" % (a, b2), d)
            ctx.check(a["o"] == w.hex(), "ecdh-value", "%s x %s gave %s expected %s" % (k.hex(), q2.hex(), a["o"], w.hex()), d)
            q = pubs(); w = ec.ecdh_x(k, q); x = d.cmd("key.ecdh", hx(k), hx(q)); ctx.seen(("ecdh", k, q)); ctx.count("ecdh_offcurve" if w is None else "ecdh_oncurve")
            if w is None: ctx.check(x["r"] != 0, "ecdh-accepts-offcurve", "%s -> %s" % (q.hex(), x), d)
            else: ctx.check(x["r"] == 0 and x["o"] == w.hex(), "ecdh-value", "%s x %s gave %s expected %s" % (k.hex(), q.hex(), x, w.hex()), d)
            if i % 40 == 0: d.cmd("cleanup"); d.reset()
        ctx.leaks(d, "keys")
    def gens(d):
        seen = set()
        for i in range(ctx.n(60, 600)):
            op = ("key.generate", "kp.generate")[i % 2]; x = d.cmd(op); ctx.seen((op, x.get("priv"))); ctx.count("generated")
            k = bytes.fromhex(x["priv"])
            ctx.check(x["r"] == 0 and ec.valid_priv(k) and x["pub"] == ec.pub(k).hex() and (op[0] == "k" and x.get("init", 1) == 1), "generate", "%s" % x, d)
            ctx.check(x["priv"] not in seen, "generate-repeats", x["priv"], d); seen.add(x["priv"])
        for sp in (1, 2):
            for op in ("key.generate", "kp.generate"):
                d.cmd("vf.rng", 0, 0, 0, sp, 0); x = d.cmd(op); ctx.seen(("special", sp, op))
                k = bytes.fromhex(x["priv"]); ctx.check(x["r"] != 0 or (ec.valid_priv(k) and x["pub"] == ec.pub(k).hex()), "generate-invalid-key", "draw %s: %s" % (sp, x), d)
        d.reset()
    for cfg in ("asan", "asan-mbed"):
        d = ctx.driver(cfg); ctx.guard(d, body); ctx.guard(d, gens)
