"""C06: npub / nsec / note against BIP-173."""
from lib import gen
from lib.drv import hx
from oracle import b32
ENC = {"npub": lambda k, m: ["b32.key", hx(k), hx("npub"), m], "nsec": lambda k, m: ["b32.priv", hx(k), m], "note": lambda k, m: ["b32.note", hx(k), m]}
DEC = {"npub": "b32.dkey", "nsec": "b32.dpriv", "note": "b32.dnote"}
def expected(t, s):
    """payload this decoder must return, or None. The generic key codec takes any human-readable part."""
    x = b32.decode(s, 90)
    if x is None or len(x[1]) != 32: return None
    if t != "npub" and x[0] != t: return None
    return x[1]
def run(ctx):
    r = ctx.rng
    ctx.rule = "32-byte value encoded, or string decoded, compared with an independent BIP-173 codec; distinct by (type, string)"
    def dec(d, t, S):
        for s, o in zip(S, d.many([[DEC[t], hx(s)] for s in S])):
            w = expected(t, s); ctx.seen((t, s), (t, s)); ctx.count("%s_%s" % (t, "valid" if w is not None else "invalid"))
            if w is None: ctx.check(o["r"] != 0, "accepts-invalid:" + t, "%r decoded to %s" % (s, o), d)
            elif s == s.lower(): ctx.check(o["r"] == 0 and o["o"] == w.hex(), "rejects-or-differs:" + t, "%r gave %s expected %s" % (s, o, w.hex()), d)
            else: ctx.check(o["r"] != 0 or o["o"] == w.hex(), "uppercase-differs:" + t, "%r gave %s" % (s, o), d)
    def near(s):
        out = []
        for i in range(len(s)):
            c = ord(r.choice(b32.CH)); out.append(s[:i] + bytes([c]) + s[i+1:])
            if r.random() < .3: out.append(s[:i] + bytes([r.choice(b"bio1BIO- \n\x7f")]) + s[i+1:])
            if r.random() < .2: out.append(s[:i] + bytes([r.randrange(1, 256)]) + s[i+1:])
            if r.random() < .2: out.append(s[:i] + s[i+1:])
            if r.random() < .2: out.append(s[:i] + bytes([c]) + s[i:])
            if r.random() < .2: out.append(s[:i] + s[i:i+1].upper() + s[i+1:])
        for _ in range(20):
            x = bytearray(s)
            for _ in range(r.choice([2, 3, 4])): x[r.randrange(len(x))] = ord(r.choice(b32.CH))
            out.append(bytes(x))
        # q-insertion before a trailing p keeps a bech32 checksum valid
        if s.endswith(b"p"): out += [s[:-1] + b"q" * k + b"p" for k in (1, 2, 8)]
        out += [s.upper(), s[:-1], s + b"q", s[:20], b"", s[5:], s[:5], b" " + s, s + b" ", s + b"\n", b"1" + s, b"nostr:" + s]
        return out
    def crafted():
        """strings whose checksum verifies but whose shape is wrong"""
        for hrp in ("npub", "nsec", "note", "Npub", "NPUB", "n", "", "npu", "npubb", "nprofile", "x" * 30, "x" * 83, "npub1", "n1pub", "np\x7f", "\x20npub", "np\x80", "\xffnsec"):
            for n in list(range(0, 36)) + [40, 52]:
                d5 = b32.to5(gen.rb(r, n)); yield b32.enc5(hrp, d5)
            for k in range(0, 86): yield b32.enc5(hrp, [r.randrange(32) for _ in range(k)])
            k = gen.rb(r, 32); d5 = b32.to5(k)
            yield b32.enc5(hrp, d5)
            for pad in range(1, 16): yield b32.enc5(hrp, d5[:-1] + [d5[-1] | pad])
            yield b32.enc5(hrp, d5 + [0]); yield b32.enc5(hrp, d5 + [0] * 8)
            # bech32m constant
            x = d5 + [0] * 6; p = b32.polymod(b32.hexp(hrp) + x) ^ 0x2bc830a3; yield hrp + "1" + "".join(b32.CH[v] for v in d5 + [(p >> 5 * (5 - i)) & 31 for i in range(6)])
    def body(d):
        for i in range(ctx.n(25, 400)):
            k = gen.rb(r, 32) if i else b"\0" * 32
            if i == 1: k = b"\xff" * 32
            if 2 <= i < 10: k = bytes(31 - i) + gen.rb(r, i + 1)
            for t in ENC:
                w = b32.encode(t, k).encode()
                o = d.many([ENC[t](k, m) for m in (len(w) + 1, len(w) + 20, len(w), 1, 0, 63)])
                ctx.seen((t, "enc", k), w); ctx.count("encoded")
                ctx.check(o[0]["r"] == 0 and bytes.fromhex(o[0]["o"]) == w and o[0]["nul"] and o[1]["r"] == 0 and bytes.fromhex(o[1]["o"]) == w, "encode:" + t, "%s -> %s expected %r" % (k.hex(), o, w), d)
                ctx.check(all(x["r"] != 0 for x in o[2:]), "encode-small:" + t, "%s" % o[2:], d)
                dec(d, t, [w] + near(w))
                for t2 in DEC:
                    if t2 != t: dec(d, t2, [w])
        C = [s.encode("latin-1").replace(b"\0", b"\1") for s in crafted()]
        for t in DEC: dec(d, t, C)
        for t in DEC: dec(d, t, [gen.text(r, 100) for _ in range(ctx.n(200, 3000))] + ["".join(r.choice(b32.CH + "1") for _ in range(r.randrange(120))).encode() for _ in range(ctx.n(200, 3000))])
        for hrp in ("a", "abc", "nostr", "n-p.ub_", "x" * 25, "y" * 31):
            k = gen.rb(r, 32); w = b32.encode(hrp, k).encode()
            o = d.many([["b32.key", hx(k), hx(hrp), len(w) + 1], ["b32.key", hx(k), hx(hrp), len(w)], ["b32.dkey", hx(w)]])
            ctx.seen(("hrp", hrp)); ctx.check(o[0]["r"] == 0 and bytes.fromhex(o[0]["o"]) == w and o[1]["r"] != 0 and o[2]["r"] == 0 and o[2]["o"] == k.hex(), "prefix", "%r %s" % (hrp, o), d)
        legal = [chr(c) for c in range(33, 127) if not chr(c).isupper()]
        for n in list(range(1, 32)) * ctx.n(4, 40):
            # prefixes of every length that leaves the whole within 90 characters, over every legal character, then each with one upper-case letter
            hrp = "".join(r.choice(legal) for _ in range(n)); k = gen.rb(r, 32); w = b32.encode(hrp, k).encode()
            o = d.many([["b32.key", hx(k), hx(hrp), len(w) + 1], ["b32.key", hx(k), hx(hrp), len(w)], ["b32.dkey", hx(w)]]); ctx.seen(("hrp", hrp), hrp); ctx.count("other_prefixes")
            ctx.check(o[0]["r"] == 0 and bytes.fromhex(o[0]["o"]) == w and o[1]["r"] != 0 and o[2]["r"] == 0 and o[2]["o"] == k.hex(), "prefix", lambda: "%r %s" % (hrp, o), d)
            U = []
            for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ":
                i = r.randrange(n + 1); h = hrp[:i] + c + hrp[i:]; U.append(b32.encode(h, k).encode()); U.append(b32.encode(h.lower(), k).encode()[:i] + c.encode() + b32.encode(h.lower(), k).encode()[i+1:])
            d5 = b32.to5(k); U += [b32.enc5(hrp, d5 + [0] * z).encode() for z in (1, 2, 3)] + [b32.enc5(hrp, d5[:-1]).encode(), b32.enc5(hrp, d5[:-1] + [d5[-1] | r.choice([1, 2, 4, 8])]).encode()]
            dec(d, "npub", U)
        for n in list(range(41, 46)) + [100, 300]:
            d.cmd("b32.key", hx(k), hx("p" * n), n + 70)
        d.cmd("b32.key", hx(k), hx(""), 70)
        for x in DEC.values(): ctx.check(d.cmd(x, "-")["r"] != 0, "null", x, d)
        d.reset(); ctx.leaks(d, "b32")
    d = ctx.driver(); ctx.guard(d, body)
    if not ctx.quick:
        # exhaustive single substitutions of several strings
        def exh(d):
            for t in ENC:
                for _ in range(6):
                    w = b32.encode(t, gen.rb(r, 32)).encode()
                    dec(d, t, [w[:i] + bytes([c]) + w[i+1:] for i in range(len(w)) for c in range(1, 256)])
        ctx.guard(d, exh)
