"""C34: what the library leaves of secrets in freed blocks, on the stack, in static storage and in destroyed objects."""
import base64, unicodedata
from lib import gen
from lib.drv import hx
from oracle import ec, b32, hd, n49, n44
H = 2**31
def windows(s, w=16):
    """a secret and every 16-byte part of it (8-byte steps), so that a half-wiped copy is seen too"""
    out = [s[:128]] if len(s) >= w else []
    if len(s) > w: out += [s[i:i + w] for i in range(0, len(s) - w + 1, 8)][:10] + [s[-w:]]
    elif 8 <= len(s) < w: out.append(s)
    return out
def run(ctx):
    r = ctx.rng
    ctx.rule = "operation on secret material, run once undisturbed and once with every allocation (the library's and OpenSSL's) and every draw failing; after each call the freed blocks, the stack below the caller and static storage are searched for every 16-byte part of every secret involved; distinct by (build, operation, arguments, fault)"
    ctx.assumptions += ["secrets are searched in raw form: bytes, their hex and 5-bit forms, mnemonic words and word indices; copies in other encodings are not seen",
        "what other libraries (libsecp256k1, OpenSSL, utf8proc) leave in their own frames and blocks is theirs: their functions run on a stack of their own",
        "registers are not searched; stack residue is judged for the code gcc -O0, gcc -O2 and clang -O2 make of the library here"]
    def key():                     # no key whose parts are found elsewhere (small numbers, multiples equal to a public key)
        while True:
            k = gen.rb(r, 32)
            if ec.valid_priv(k): return k
    class P:
        def __init__(s, d, cfg, lim=(60, 8)): s.d, s.cfg, s.lim = d, cfg, lim
        def one(s, pre, op, secs, fault):
            d = s.d
            for p in pre: d.cmd(*p)
            names = []; toks = []
            for nm, b in secs:
                for w in windows(b):
                    if len(set(w)) > 3: names.append(nm); toks.append(hx(w))
            d.cmd("vf.secrets", *toks)
            o = d.cmd(*((["!" + fault] if fault else []) + list(op))); x = d.cmd("vf.secret_report")
            ctx.seen((s.cfg, op[0], tuple(map(str, op[1:])), fault), "%s %s %s" % (s.cfg, op[0], fault or "undisturbed"))
            ctx.count("calls"); ctx.count("freed_blocks_searched", x["frees"]); ctx.count("secret_parts_watched", len(toks)); ctx.count("op_" + op[0])
            if fault and (o["_ah"] or o["_dh"] or o["_oh"]): ctx.count("faults_hit_" + fault[0])
            ctx.count("failing_calls" if o.get("r", 0) else "succeeding_calls")
            s.deep = max(getattr(s, "deep", 0), x["deep"])
            if x["hits"]:
                w = bytes.fromhex(x["where"]).decode(); nm = names[int(w.split("#")[1])]; kind = w.split()[0]
                ctx.violation("%s:%s:%s" % (kind, op[0], nm), "%s%s (%s, result %s): %s: the %s" % (op[0], " with " + fault if fault else "", s.cfg, o.get("r"), w, nm), driver=d)
            return o
        def probe(s, op, secs, pre=(), faults=True):
            secs = [(a, b) for a, b in secs if b]
            o = s.one(pre, op, secs, None)
            if not faults: return o
            for c, k, lim in (("f", "_a", s.lim[0]), ("r", "_d", s.lim[1]), ("o", "_o", ctx.n(14, 60))):
                n = o[k]; js = range(1, n + 1) if n <= lim else sorted(set(range(1, lim - 6)) | {n - i for i in range(6)} | {r.randrange(1, n + 1)})
                for j in js: s.one(pre, op, secs, "%s%d" % (c, j))
            return o
    def forms(k):
        d5 = bytes(b32.to5(k)); return [("private key", k), ("private key in hex", k.hex().encode()), ("5-bit private key", d5)]
    def mforms(t):
        try: ix = b"".join(hd.IDX[w].to_bytes(4, "little") for w in t.decode().split(" "))
        except (KeyError, UnicodeDecodeError): ix = b""
        return [("mnemonic", t), ("word indices", ix), ("entropy", hd.mnemonic_entropy(t.decode()) if ix else None)]
    def chain(m, idx):
        out = []; k = m
        for i in [None] + list(idx):
            if i is not None: k = hd.child(k, i)
            if k is None: break
            out += [("extended private key", k[0]), ("chain code", k[1])]
        return out
    def seedforms(s):
        m = hd.master(s); return [("seed", s)] + (chain(m, ()) if m else [])
    def canaries(d, cfg):
        for t in ("stack", "heap", "realloc", "static"):
            b = gen.rb(r, 48); d.cmd("vf.secrets", *[hx(w) for w in windows(b)]); d.cmd("sec.canary", t, hx(b)); x = d.cmd("vf.secret_report")
            if not x["hits"]: raise RuntimeError("the %s monitor is blind in %s" % (t, cfg))
            d.cmd("vf.secrets", hx(b)); d.cmd("sec.canary", "none", hx(b)); x = d.cmd("vf.secret_report")
            if x["hits"]: raise RuntimeError("the monitor sees what is not there in %s: %s" % (cfg, x))
            ctx.count("canaries_seen")
    def body(d, cfg, n):
        p = P(d, cfg); d.cmd("init"); canaries(d, cfg)
        for it in range(n):
            k = key(); P0 = ec.pub(k); k2 = key(); Q = ec.pub(k2); F = forms(k); h = k.hex()
            bad = ec.i2b(r.choice([0, ec.N, ec.N + r.randrange(1, 2**100), 2**256 - 1])) ; bad2 = b"\xff" * 16 + gen.rb(r, 16)
            # keys
            p.probe(["priv.fromhex", hx(h)], F); p.probe(["priv.tohex", hx(k), r.choice([65, 80])], F); p.probe(["priv.tohex", hx(k), 64], F)
            j = r.randrange(64); p.probe(["priv.fromhex", hx(h[:j] + "g" + h[j + 1:])], [("private key in part", k[:j // 2]), ("private key in part", h[:j].encode())]); p.probe(["priv.fromhex", hx(h[:-1])], F)
            for op in ("key.generate", "kp.generate"):
                g = bytes.fromhex(d.cmd(op)["priv"]); p.probe([op], forms(g))
            d.cmd("vf.rng", 1, it * 100 + 1, 0, 1, 1); g = bytes.fromhex(d.cmd("key.generate")["priv"]); d.cmd("vf.rng", 1, it * 100 + 1, 0, 1, 1); p.probe(["key.generate"], forms(g), faults=False); d.cmd("vf.rng", 0, 0, 0, 0, 0)
            for q in (k, bad2):
                f = forms(q)
                p.probe(["kp.fromhex", hx(q.hex())], f); p.probe(["kp.frompriv", hx(q)], f); p.probe(["kp.validate", hx(q), hx(P0), 1], f); p.probe(["key.ecdh", hx(q), hx(Q)], f + [("shared secret", ec.ecdh_x(q, Q) if q == k else None)])
            p.probe(["kp.validate", hx(k), hx(Q), 1], F); p.probe(["kp.export", hx(k), hx(P0), 1, 65], F); p.probe(["key.ecdh", hx(k), hx(b"\0" * 32)], F)
            # nsec
            ns = b32.encode("nsec", k).encode(); nf = F + [("nsec", ns)]
            for sz in (64, 63, 200): p.probe(["b32.priv", hx(k), sz], nf)
            c = bytearray(ns); i = r.randrange(5, len(ns)); c[i] = ord(r.choice([x for x in b32.CH if ord(x) != c[i]])); i2 = r.randrange(40, len(ns)); e = bytearray(ns); e[i2] = ord("b")
            long = k + gen.rb(r, r.choice([1, 2, 8])); short = k[:-1]
            for s in (ns, bytes(c), bytes(e), b32.encode("nsec", long).encode(), b32.encode("nsec", short).encode(), ns.upper(), ns[:-1]):
                f = [("private key", k[:20]), ("private key", k), ("nsec", ns[:50]), ("nsec", s), ("5-bit private key", bytes(b32.to5(k))[:32]), ("5-bit private key", bytes(b32.to5(k))[:(i2 - 5)])]
                p.probe(["b32.dpriv", hx(s)], f); p.probe(["uri.parse", hx(b"nostr:" + s)], f); p.probe(["uri.parse", hx(s)], f)
            o = p.probe(["uri.freemem", hx(b"nostr:" + ns)], nf)
            ctx.check(o["r"] != 0 or not any(w.hex() in o["mem"] for w in windows(k)), "freed-uri", lambda: "an nsec URI still holds its key after nostr_uri_free: %s" % o, d)
            p.probe(["uri.enc", "nsec", r.choice([69, 80]), hx(k)], nf); p.probe(["uri.enc", "nsec", 60, hx(k)], nf)
            # HD
            sd = gen.rb(r, r.choice([16, 32, 64, 17])); m = hd.master(sd); mp = ec.pub(m[0])
            p.probe(["hd.seed", hx(sd)], seedforms(sd))
            for i in (r.randrange(H), H + r.randrange(H)):
                ch = hd.child(m, i); data = b"\0" + m[0]
                p.probe(["hd.derive", hx(m[0]), hx(mp), hx(m[1]), i], chain(m, [i]) + [("tweak", (ec.i2b((ec.b2i(ch[0]) - ec.b2i(m[0])) % ec.N)))])
            p.probe(["hd.derive", hx(b"\0" * 32), hx(mp), hx(m[1]), 3], [("chain code", m[1])]); p.probe(["hd.derive", hx(bad2), hx(mp), hx(m[1]), r.choice([3, H + 3])], forms(bad2) + [("chain code", m[1])])
            idx = [r.randrange(H) + (H if r.random() < .5 else 0) for _ in range(r.randrange(1, 5))]; path = "m/" + "/".join("%d%s" % (x % H, "'" if x >= H else "") for x in idx)
            for pa in (path, path + "/x", path + "/", path + "/2147483648", path + "/1'1", "m", "x/1"): p.probe(["hd.path", hx(m[0]), hx(mp), hx(m[1]), hx(pa)], chain(m, idx), faults=pa == path)
            p.probe(["hd.path", hx(bad2), hx(mp), hx(m[1]), hx(path)], forms(bad2), faults=False)
            p.probe(["hd.kp", hx(m[0]), hx(mp), hx(m[1])], chain(m, ()))
            # mnemonics
            for w in (12, 24):
                t = bytes.fromhex(d.cmd("mn.gen", w, 400)["o"]).split(b"\0")[0]; p.probe(["mn.gen", w, 400], mforms(t))
                small = len(t) - r.randrange(0, len(t) // 2); d.cmd("mn.gen", w, small)
                t2 = bytes.fromhex(d.cmd("mn.gen", w, 400)["o"]).split(b"\0")[0]; d.cmd("vf.rng", 1, 77 + it, 0, 0, 1); t2 = bytes.fromhex(d.cmd("mn.gen", w, 400)["o"]).split(b"\0")[0]; d.cmd("vf.rng", 1, 77 + it, 0, 0, 1); p.probe(["mn.gen", w, len(t2) - 3], [x for x in mforms(t2) if x[0] == "entropy"], faults=False); d.cmd("vf.rng", 0, 0, 0, 0, 0)
                ws = t.split(b" "); wrong = list(ws); wrong[r.randrange(w)] = b"zzzz"; lastbad = ws[:-1] + [b"zzzz"]; swap = ws[1:] + ws[:1]
                for s in (t, b" ".join(wrong), b" ".join(lastbad), b" ".join(swap), b" ".join(ws + [b"abandon"]), b" ".join(ws[:-1]), b" ".join(ws + ws)):
                    f = mforms(t) + [("mnemonic", s)]; p.probe(["mn.validate", hx(s)], f)
                    if s != t: p.probe(["mn.seed", hx(s), hx("some pass phrase")], f, faults=False)
                pw = r.choice(["", "TREZOR-pass-phrase", "p\u00e4ssphrase \u212b\u03a9 secret", "\uac00" * 20, "x" * 200]); sd = hd.seed(t.decode(), pw)
                f = mforms(t) + [("passphrase", pw.encode()), ("normalized passphrase", unicodedata.normalize("NFKD", pw).encode())] + seedforms(sd)
                p.probe(["mn.seed", hx(t), hx(pw) if pw else "-"], f)
                p.probe(["mn.seed", hx(t), hx(b"a secret pass phrase" + b"\xff\xfe")], mforms(t) + [("passphrase", b"a secret pass phrase")])
                acct = r.randrange(5); f += chain(hd.master(sd), [44 + H, 1237 + H, acct + H, 0, 0])
                p.probe(["mn.kp", hx(t), hx(pw) if pw else "-", acct], f)
            # NIP-49
            if it < ctx.n(1, 6):
                pw = gen.rb(r, 12).hex().encode(); o = d.cmd("n49.enc", hx(k), hx(pw), 16, 200); s = bytes.fromhex(o["o"]); y = b32.decode(s)[1]
                def kf(pw): key = n49.kdf(pw, y[2:18], 16); return [("password", pw), ("password-derived key", key), ("cipher key", n49.hchacha(key, y[18:34]))]
                p.probe(["n49.enc", hx(k), hx(pw), 16, 200], F + kf(pw)); p.probe(["n49.dec", hx(s), hx(pw)], F + kf(pw))
                p.probe(["n49.enc", hx(k), hx(pw), 16, 100], F + [("password", pw)], faults=False)
                o = p.probe(["n49.dec", hx(s), hx(pw + b"x")], F + kf(pw + b"x"), faults=ctx.quick is False)
                ctx.check(o["r"] != 0 and not any(w.hex() in o["o"] for w in windows(k)), "failed-decrypt-output", "%s" % o, d)
                t = bytearray(y); t[60] ^= 4; s2 = n49.encode(bytes(t)); o = p.probe(["n49.dec", hx(s2), hx(pw)], F + kf(pw), faults=False)
                pt = bytearray(k); pt[60 - 43] ^= 4
                ctx.check(o["r"] != 0 and not any(w.hex() in o["o"] for w in windows(bytes(pt)) + windows(k)), "failed-decrypt-output", "a forged string's decryption is handed out: %s" % o, d)
                p.one((), ["n49.dec", hx(s2), hx(pw)], [("decrypted forgery", bytes(pt))], None)
            # signing
            pre = [["ev.create", 1], ["ev.set", 1, hx(P0), 1700000000, 1, "x" + "00" * 32, "x" + "00" * 64], ["ev.setcontent", 1, hx(gen.text(r, 60))]]
            p.probe(["ev.sign", 1, hx(k)], F, pre); p.probe(["ev.sign", 1, hx(bad2)], forms(bad2), pre)
            for cond in ("kind=1&created_at>1", "kind=x", "", "kind=1&kind=2&created_at<1800000000"): p.probe(["n26.create", hx(k), hx(Q), hx(cond)], F)
            p.probe(["n26.create", hx(bad2), hx(Q), hx("kind=1")], forms(bad2))
            # destruction
            t = bytes.fromhex(d.cmd("mn.gen", 12, 400)["o"]).split(b"\0")[0]
            for kind, arg in (("generate", None), ("init", None), ("fromhex", k.hex().encode()), ("fromhex", bad2.hex().encode()), ("frompriv", k), ("frompriv", bad2), ("inplace", k), ("inplace", bad2), ("hd", sd), ("mnemonic", t)):
                for reps in (1, 2):
                    o = d.cmd("kp.life", kind, hx(arg) if arg else "-", reps); ctx.seen((cfg, "life", kind, arg, reps)); ctx.count("pairs_destroyed")
                    b = bytes.fromhex(o["before"]); a = bytes.fromhex(o["after"])
                    ctx.check(a[:64] == b"\0" * 64 and not o["usable"], "destroyed-pair:" + kind, lambda: "after nostr_keypair_destroy: %s" % o, d)
                    if o["r"]: ctx.check(arg is None or not any(w in b for w in windows(bad2)), "failed-construction:" + kind, lambda: "a pair that could not be built holds the key: %s" % o, d)
            for at in (63, 62, 40, r.randrange(36, 64), r.randrange(34, 64)):  # a key whose hex has a bad digit: the digits before it are no less secret
                h = bytearray(k.hex().encode()); h[at] = r.choice(b"gGxz /:@`-"); o = d.cmd("kp.life", "fromhex", hx(bytes(h)), 1); ctx.seen((cfg, "bad-digit", at)); ctx.count("bad_digit_keys")
                b = bytes.fromhex(o["before"]); ctx.check(o["r"] != 0, "bad-digit-accepted", lambda: "%s" % o, d)
                ctx.check(not any(w in b for w in windows(k[:at // 2])), "failed-construction:digit", lambda: "a pair refused for the digit at %d holds the %d bytes before it: %s" % (at, at // 2, o), d)
            d.reset(); d.cmd("init")
        ctx.extra.setdefault("deepest_stack_searched", {})[cfg] = getattr(p, "deep", 0)
    def shim(d, cfg, n):
        """encryption, gift wraps, private lists, wallet and signer messages"""
        p = P(d, cfg, (400, 40)); d.cmd("init"); canaries(d, cfg)
        def K44(k, q, payload=None):
            ck = n44.conv(k, q); out = [("shared secret", n44.shared(k, q)), ("conversation key", ck)]
            if payload:
                raw = base64.b64decode(payload); a, b, c = n44.keys(ck, raw[1:33]); out += [("message key", a), ("MAC key", c)]
            return out
        for it in range(n):
            k, k2 = key(), key(); A, B = ec.pub(k), ec.pub(k2); F, F2 = forms(k), forms(k2); bad2 = b"\xff" * 16 + gen.rb(r, 16); rng = lambda i: ["vf.rng", 1, it * 1000 + i, 0, 0, 1]
            t = (gen.text(r, 60) or b"x").replace(b"\0", b"") + b" some text"
            d.cmd(*rng(1)); c = bytes.fromhex(d.cmd("nip44.enc", hx(k), hx(B), hx(t))["c"])
            p.probe(["nip44.enc", hx(k), hx(B), hx(t)], F + K44(k, B, c), [rng(1)]); p.probe(["nip44.dec", hx(k2), hx(A), hx(c)], F2 + K44(k2, A, c))
            raw = bytearray(base64.b64decode(c)); i = r.randrange(len(raw)); raw[i] ^= 1 << r.randrange(8); p.probe(["nip44.dec", hx(k2), hx(A), hx(base64.b64encode(bytes(raw)))], F2 + K44(k2, A, c))
            for op in (["nip44.enc", hx(bad2), hx(B), hx(t)], ["nip44.dec", hx(bad2), hx(B), hx(c)], ["nip04.enc", hx(bad2), hx(B), hx(t)]): p.probe(op, forms(bad2))
            for op in (["nip44.enc", hx(k), hx(b"\0" * 32), hx(t)], ["nip44.dec", hx(k), hx(b"\0" * 32), hx(c)], ["nip04.enc", hx(k), hx(b"\0" * 32), hx(t)], ["nip44.enc", hx(k), hx(B), "x"], ["nip44.enc", hx(k), hx(B), hx(b"x" * 65536)]): p.probe(op, F, faults=False)
            sh = ("shared secret", n44.shared(k, B)); c4 = bytes.fromhex(d.cmd("nip04.enc", hx(k), hx(B), hx(t))["c"])
            p.probe(["nip04.enc", hx(k), hx(B), hx(t)], F + [sh]); p.probe(["nip04.dec", hx(k2), hx(A), hx(c4)], F2 + [sh])
            for x in (c4[:-1], c4.replace(b"?iv=", b"?iw="), b"AAAA" + c4[4:], c4[:-4] + b"AAA="): p.probe(["nip04.dec", hx(k2), hx(A), hx(x)], F2 + [sh])
            # wraps: the wrapping key is drawn
            d.cmd("g.rumor", 1, 14, hx(A), hx(t))
            d.cmd("d.rumor", 5, 14, hx(A), hx(t), 0); d.cmd(*rng(4)); d.cmd("d.seal", 4, 5, hx(k), hx(B))
            for op in (["g.wrap", 2, 1, hx(k), hx(B)], ["d.send", 2, hx(t), hx(k), hx(B), hx(b"subject"), "-", 0], ["g.gift", 2, 4, hx(B), hx(b"wss://r.example")], ["d.gift", 2, 4, hx(B)]):
                d.cmd(*rng(5)); o = d.cmd(*op)
                if not ctx.check(o["r"] == 0, "wrap-failed", "%s" % o, d): continue
                w = bytes.fromhex(o["e"]["pubkey"]); lg = bytes.fromhex(d.cmd("vf.rnglog")["log"]); eph = next((lg[i:i + 32] for i in range(len(lg) - 31) if ec.valid_priv(lg[i:i + 32]) and ec.pub(lg[i:i + 32]) == w), None)
                if eph is None: ctx.count("ephemeral_key_not_found")
                p.probe(op, F + (forms(eph) + K44(eph, B) if eph else []) + K44(k, B), [rng(5)])
                d.cmd(*rng(5)); d.cmd(*op); kk = F2 + K44(k2, w) + K44(k2, A)
                for un in (["g.unwrap", 3, 2, hx(k2)], ["d.unwrap", 3, 2, hx(k2)]): p.probe(un, kk)
                p.probe(["g.unwrap", 3, 2, hx(k)], F)
            p.probe(["g.seal", 3, 1, hx(k), hx(B)], F + K44(k, B), [rng(6)]); p.probe(["d.seal", 3, 5, hx(k), hx(B)], F + K44(k, B), [rng(6)])
            for op in (["g.wrap", 3, 1, hx(bad2), hx(B)], ["g.seal", 3, 1, hx(bad2), hx(B)], ["d.seal", 3, 5, hx(bad2), hx(B)], ["d.send", 3, hx(t), hx(bad2), hx(B), "-", "-", 0], ["g.unwrap", 3, 2, hx(bad2)], ["d.unwrap", 3, 2, hx(bad2)]): p.probe(op, forms(bad2), [rng(6)], faults=False)
            # private lists
            pre = [["ls.create", 0, 30000], ["ls.add", 0, "t", 1, hx(b"a private hashtag")], rng(7)]
            p.probe(["ls.toev", 0, 1, hx(k)], F + K44(k, A), pre); p.probe(["ls.fromev", 1, 1, hx(k)], F + K44(k, A)); p.probe(["ls.fromev", 1, 1, hx(k2)], F2)
            # wallet connect
            uri = b"nostr+walletconnect://" + B.hex().encode() + b"?relay=wss%3A%2F%2Fr.example&secret=" + k.hex().encode()
            for u in (uri, uri + b"&x=1", uri[:-1], uri[:-1] + b"g", uri + b"00", uri.replace(b"relay", b"ralay"), uri + b"&lud16=a@b.c&lud16=d@e.f"):
                p.probe(["nw.uri", 0, hx(u)], F, [["nw.uri", 0, hx(u)]])
            for enc in (0, 1, 2):
                d.cmd("nw.uri", 0, hx(uri)); p.probe(["nw.req", 1, 0, hx(b"pay_invoice"), hx(b'{"invoice":"lnbc1"}'), enc], F + K44(k, B), [rng(8)])
            for how, kind in ((44, 23195), (4, 23195), (44, 23197), (4, 23196), (44, 24133), (4, 24133)):
                m = b'{"result_type":"pay_invoice","result":{"preimage":"00"},"notification_type":"payment_sent","notification":{},"id":"1","method":"ping","params":[]}'
                d.cmd(*rng(9)); d.cmd("sx.ev", 1, how, kind, hx(k), hx(B), hx(m)); 
                for v in ([["encryption", "nip44_v2"]] if how == 44 else []) + [["p", B.hex()]]: d.cmd("ev.addtag", 1, "x" + ",".join(y.encode().hex() for y in v))
                op = {23195: ["nw.resp", 1, hx(k2), 15], 24133: ["n46.parse", 1, hx(k2)]}.get(kind, ["nw.notif", 1, hx(k2), 3]); o = p.probe(op, F2 + K44(k2, A)); ctx.count("messages_opened" if o["r"] == 0 else "messages_refused")
            for s in (uri, uri[:-2]): 
                o = p.probe(["ns.create", hx(s)], F, [["vf.time", 2000000000 + it * 1000000 + r.randrange(10 ** 6), 1]], faults=False)
                if o["r"] == 0: p.probe(["ns.destroy", "x" + o["id"]], F, faults=False)
            d.cmd("vf.time", 0, 0); p.probe(["n46.resp", 1, hx(b"1"), hx(b"result"), "-", hx(k), hx(B)], F + K44(k, B), [rng(10)])
            d.cmd("vf.rng", 0, 0, 0, 0, 0); d.reset(); d.cmd("init")
        ctx.extra.setdefault("deepest_stack_searched", {})[cfg] = getattr(p, "deep", 0)
    def wipes(d, cfg):
        for i in range(ctx.n(400, 6000)):
            off = r.randrange(0, 17); n = r.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, r.randrange(5000)]); tail = r.randrange(0, 20)
            b = bytes(x or 1 for x in gen.rb(r, off + n + tail)); o = d.cmd("wipe.at", hx(b), off, n); ctx.seen((cfg, "wipe", off, n, tail)); ctx.count("wipes")
            ctx.check(bytes.fromhex(o["mem"]) == b[:off] + b"\0" * n + b[off + n:], "wipe", lambda: "wiping %d bytes at %d of %s gave %s" % (n, off, b.hex(), o["mem"]), d)
    for cfg, n in (("sec", ctx.n(3, 40)), ("sec-o0", ctx.n(2, 30)), ("sec-clang", ctx.n(2, 30)), ("sec-mbed", ctx.n(1, 20))):
        d = ctx.driver(cfg, env={"VF_DET": "1"}); ctx.guard(d, body, cfg, n)
        d = ctx.driver(cfg, env={"VF_DET": "1"}); ctx.guard(d, wipes, cfg)
    d = ctx.driver("sec-shim", env={"VF_DET": "1"}); ctx.guard(d, shim, "sec-shim", ctx.n(1, 20))
