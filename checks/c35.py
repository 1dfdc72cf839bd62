"""C35: the OpenSSL and the mbedTLS build behave identically."""
import random
from lib import drv, gen, wl
from lib.drv import hx
from oracle import ec
class Pair(wl.Wrap):
    """one history, both builds; randomness and clock are functions of the operation"""
    pair = ("asan", "asan-mbed"); names = ("OpenSSL", "mbedTLS"); skip = ("n13.minet",)
    def __init__(self, ctx, config, **kw):
        super().__init__(ctx, config); env = dict(kw.pop("env", None) or {}, VF_DET="1")
        self.ds = [drv.Driver(c, env=env, **kw) for c in self.pair]; self.started()
    def started(self):
        self.taint = False
        for d in self.ds: d.cmd("init")
    norm = staticmethod(wl.clean)
    def judge(self, line, ra, rb):
        op = drv.Driver._op(line)
        if op == "n13.minet": self.taint = True       # which thread wins is up to the scheduler
        if op == "reset": self.taint = False
        if self.taint or op.startswith(self.skip): return ra
        self.ctx.judged(line, line if self.ds[0].total % 997 == 0 else None); self.ctx.note("op:" + op.split(".")[0])
        if self.norm(ra) != self.norm(rb):
            self.ctx.report("differs:" + op, "%s\n %s: %s\n %s: %s" % (line[:1500], self.names[0], str(ra)[:1500], self.names[1], str(rb)[:1500]), self)
        return ra
    def one(self, line):
        return self.judge(line, self.ds[0].cmd(line), self.ds[1].cmd(line))
    def many(self, lines):
        a = self.ds[0].many(lines); b = self.ds[1].many(lines)
        return [self.judge(" ".join(str(x) for x in l), x, y) for l, x, y in zip(lines, a, b)]
class Curve(Pair):
    """the curve operations by libsecp256k1 or through noscrypt"""
    pair = ("asan", "shim"); names = ("libsecp256k1", "noscrypt"); skip = ("n13.minet", "feat.")
    @staticmethod
    def norm(o):
        """success and results; a refusal may carry another error code"""
        o = wl.clean(o)
        if not isinstance(o, dict): return o
        if isinstance(o.get("r"), int) and o["r"] != 0: return {"r": 1}
        return {k: (v != 0 if k == "v" else v) for k, v in o.items()}
class Json(Pair):
    """with and without cJSON, utf8proc and threads: what the smaller build still offers gives the same answers"""
    pair = ("asan", "nojson"); names = ("full build", "build without cJSON, utf8proc and threads")
    def one(self, line):
        op = drv.Driver._op(line); ra = self.ds[0].cmd(line)
        if op == "reset": self.taint = False
        if self.taint: return ra
        rb = self.ds[1].cmd(line)
        if rb != ra and (rb.get("r") == NOT_SUPPORTED or op in NEEDS_JSON or op.startswith("ri.")):
            self.taint = True; self.ctx.note("not_offered"); return ra      # what the history makes of it differs from here on
        if rb != ra and op in ("mn.seed", "mn.kp") and rb.get("r") == INVALID_PARAM and any(max(bytes.fromhex(x[1:]), default=0) > 127 for x in line.split()[1:3] if x[:1] == "x"):
            self.ctx.note("not_offered"); return ra      # normalization needs utf8proc
        return self.judge(line, ra, rb)
    many = wl.Wrap.many
class Shim(Json):
    """encryption, wraps, wallet and signer messages over both backends"""
    pair = ("shim", "shim-mbed"); names = ("noscrypt and OpenSSL", "noscrypt and mbedTLS")
SHIM = "c17 c36 c37 c38".split()
NOT_SUPPORTED, INVALID_PARAM = 12, 11
NEEDS_JSON = "ev.fromjson ev.tojson ev.canon ev.parse fl.parse cm.parse rm.ser".split()
CURVE = "c01 c02 c08 c10 c12 c13 c19 c24".split()
MODS = "c01 c02 c03 c04 c05 c06 c07 c08 c10 c11 c12 c13 c14 c15 c16 c17 c18 c19 c20 c21 c22 c23 c24 c25 c26 c27".split()
def cross(a, b, ctx, r):
    """artefacts made with real randomness by one build are taken by the other"""
    k = gen.priv(r)
    def eq(key, x, y, text): ctx.check(x == y, "cross:" + key, text, a); ctx.count("cross_" + key)
    e = gen.event(r, 3); e.pk = ec.pub(k); x = a.many([e.build(0), e.setall(0), ["ev.sign", 0, hx(k)], ["ev.tojson", 0]])
    if x[2]["r"] == 0 and x[3]["r"] == 0:
        eq("signature", [o["r"] for o in b.many([["ev.fromjson", 0, "x" + x[3]["json"]], ["ev.verify", 0]])], [0, 0], "event signed by %s refused by %s: %s" % (a.config, b.config, x))
    g = a.cmd("kp.generate"); eq("keypair", b.cmd("kp.validate", "x" + g["priv"], "x" + g["pub"], 1)["r"], 0, "%s" % g)
    pw = gen.text(r, 40) or b"pw"; o = a.cmd("n49.enc", hx(k), hx(pw), 16, 300)
    if o["r"] == 0: q = b.cmd("n49.dec", "x" + o["o"], hx(pw)); eq("ncryptsec", (q["r"], q["o"]), (0, k.hex()), "%s %r: %s" % (o, pw, q))
    m = a.cmd("mn.gen", r.choice([12, 24]), 512); s = "x" + bytes.fromhex(m["o"]).split(b"\0")[0].hex(); ph = hx(gen.text(r, 20))
    eq("mnemonic", b.cmd("mn.validate", s)["r"], 0, "%s" % m); eq("seed", a.cmd("mn.seed", s, ph), b.cmd("mn.seed", s, ph), "%s %s" % (s, ph))
    dk = gen.priv(r); t = a.cmd("n26.create", hx(dk), hx(e.pk), hx(b"kind=1&created_at<1800000000"))
    eq("delegation", b.cmd("n26.verify", hx(ec.pub(dk)), hx(e.pk), hx(b"kind=1&created_at<1800000000"), "x" + t["token"])["r"], 0, "%s" % t)
    y = a.many([e.build(1), e.setall(1), ["n13.mine", 1, 8, 20000], ["ev.sign", 1, hx(k)], ["ev.tojson", 1]])
    if y[2]["r"] == 0 and y[3]["r"] == 0 and y[4]["r"] == 0:
        eq("mined", [o["r"] for o in b.many([["ev.fromjson", 1, "x" + y[4]["json"]], ["ev.verify", 1], ["n13.verify", 1, 8]])], [0, 0, 0], "%s" % y)
    a.reset(); b.reset()
    ctx.seen(("cross", a.config, k), "event and key pair of %s checked by %s" % (a.config, b.config))
def sizes(p, ctx, r):
    """hash inputs of every size class up to the content limit, through both builds"""
    for k in range(6, 21):
        for L in {2 ** k - r.randrange(1, 300), 2 ** k, r.randrange(2 ** k, 2 ** (k + 1))}:
            if L > 1000000: continue
            e = gen.event(r, 3); e.pk = ec.pub(b"\1" * 32); e.content = bytes([r.randrange(97, 122)]) * L
            p.many([e.build(0), ["ev.id", 0], ["ev.sign", 0, hx(b"\1" * 32)], ["ev.verify", 0], ["ev.tojson", 0]]); ctx.count("size_classes")
    p.reset()
class View:
    """lets the pair wrapper judge inside the check's own context"""
    def __init__(self, ctx): self.ctx = ctx
    def judged(self, c, s=None): self.ctx.seen(c if len(c) < 4000 else (c[:500], len(c)), s and s[:300])
    def note(self, k): self.ctx.count(k)
    def report(self, key, text, p): self.ctx.violation(key, text, list(p.ds[0].history), p.ds[0])
def run(ctx):
    ctx.rule = "an operation executed by both builds in the same history with the same randomness and clock, answers compared byte for byte; distinct by operation text"
    ctx.assumptions = ["Only the builds' crypto backends are compared; both link the same libsecp256k1 and cJSON.", "noscrypt is represented by a stand-in over libsecp256k1; what is compared is the library's own code for it.", "Multi-threaded mining is excluded: its result depends on the scheduler (C13 judges it in both builds)."]
    a, b = ctx.driver("asan"), ctx.driver("asan-mbed"); r = ctx.sub("cross")
    for i in range(ctx.n(12, 300)): ctx.guard(a, cross, b, ctx, r); ctx.guard(b, cross, a, ctx, r)
    p = Pair(View(ctx), "asan"); ctx.drivers += p.ds
    for i in range(ctx.n(1, 8)): ctx.guard(p.ds[0], lambda d: sizes(p, ctx, r))
    wl.run(ctx, [(m, .2 if ctx.quick else 1, 10 if ctx.quick else 300) for m in CURVE], ("checks.c35", "Curve"), ("asan", "shim"))
    wl.run(ctx, [(m, .25 if ctx.quick else 1, 15 if ctx.quick else 500) for m in MODS], ("checks.c35", "Pair"), ("asan", "asan-mbed"))
    wl.run(ctx, [(m, .25 if ctx.quick else 1, 15 if ctx.quick else 300) for m in MODS], ("checks.c35", "Json"), ("asan", "nojson"))
    wl.run(ctx, [(m, .3 if ctx.quick else 2, 15 if ctx.quick else 300) for m in SHIM], ("checks.c35", "Shim"), ("shim",))
