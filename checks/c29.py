"""C29: sanitizers over every check's workload, and over mutated workloads (libFuzzer on operation scripts)."""
import glob, json, os, random, re, shutil, subprocess, tempfile, time, concurrent.futures as cf
from lib import build, core, drv, wl, gen
from lib.drv import hx, hl
from oracle import b32
MODS = "c01 c02 c03 c04 c05 c06 c07 c08 c09 c10 c11 c12 c13 c14 c15 c16 c17 c18 c19 c20 c21 c22 c23 c24 c25 c26 c27 c28 c32 c33".split()
class Watch(wl.Wrap):
    """forwards to one driver; the sanitizers judge; keeps distinct operations as fuzzing seeds"""
    def __init__(self, ctx, config, **kw):
        super().__init__(ctx, config); self.env = dict(kw.pop("env", None) or {}); self.ds = [drv.Driver(config, env=self.env, **kw)]; self.kept = {}; self.rnd = ctx.sub("keep")
    def note_(self, line):
        op = drv.Driver._op(line); self.ctx.judged(line if len(line) < 400 else (line[:400], len(line)), line[:200] if self.ctx.evals % 1999 == 0 else None)
        if line[0] == "!" or len(line) > 60000: return
        k = self.kept.setdefault(op, [0, []]); k[0] += 1
        if len(k[1]) < 150: k[1].append(line)
        elif self.rnd.random() < 150 / k[0]: k[1][self.rnd.randrange(150)] = line
    def one(self, line): self.note_(line); return self.ds[0].cmd(line)
    def many(self, lines):
        for l in lines: self.note_(" ".join(str(x) for x in l))
        return self.ds[0].many(lines)
    def kill(self):
        d = os.environ.get("VF_REC_DIR")
        if d and self.kept:
            json.dump({k: v[1] for k, v in self.kept.items()}, open(os.path.join(d, "%s-%d-%d.json" % (self.ctx.mod, os.getpid(), id(self))), "w")); self.kept = {}
        super().kill()
H64 = "x" + b"ab12cd34".hex() * 8
EVC = ["ev.access 0", "ev.tagq 0 x65 3", "ev.tagq 0 x64 0", "ev.tagq 0 x657870 1", "ev.binary 0", "ev.canon 0 300 1", "ev.canon 0 5000 1", "ev.canon 0 70000 0", "ev.serialize 0 300 1", "ev.serialize 0 5000 1", "ev.serialize 0 70000 0", "ev.id 0", "ev.verify 0", "ev.tojson 0", "ev.sig_check 0 900",
  "rp.full 0 900 64", "rp.full 0 900 300", "rp.full 0 900 0", "rp.exp 0 1700000000", "rp.del 0 0", "rp.auth 0 0", "rp.delfree 0", "rp.cmp 0 0", "n10.root 0 65 256", "n10.reply 0 65 256", "n10.root 0 64 1", "n10.reply 0 65 0", "n10.isreply 0", "n10.mention 0 %s x7773733a2f2f61" % H64,
  "n10.add 0 %s x7773733a2f2f61 %s - %s -" % (H64, H64, H64), "n18.parse 0 65 65 256 0", "n18.parse 0 64 65 10 0", "n18.parse 0 65 65 1 1", "n18.quote 0", "n25.parse 0 64 65 65 0", "n25.parse 0 1 65 65 0", "n25.parse 0 64 65 64 1", "n25.like 0", "zap.parse 0 15", "zap.parse 0 5", "zap.parse 0 0", "zap.verify 0 0 %s" % H64,
  "n26.get 0", "n26.everify 0", "ls.fromev 1 0 -", "ls.fromev 1 0 x" + "11" * 32, "ls.dump 0", "rl.fromev 1 0", "rl.dump 0", "rl.views 0", "fl.match 0 0 0", "fl.match 0 3 0", "n13.verify 0 8", "n13.add 0 77 8", "ev.addtag 0 x65,61", "ev.setcontent 0 x68690a22", "rm.ser 0 400 x737562 0", "rm.ser 0 4000 x737562 0"]
FLC = ["fl.get 0", "fl.validate 0", "fl.clone 1 0", "fl.get 1", "fl.validate 1", "fl.match 0 0 0", "fl.match 0 1 0 1", "fl.match 0 3 0", "fl.free 0", "fl.get 1"]
SHIM = "c17 c36 c37 c38".split()
SGROUPS = { "ciphers": "nip44.enc nip44.dec nip04.enc nip04.dec", "wallet": "nw.uri nw.pay nw.make nw.list nw.lookup nw.keysend nw.multi nw.pbal nw.ppay nw.pinfo", "encrypted": "" }
GROUPS = {  # producers, weight
  "events": ("ev.parse ev.fromjson", 3), "built": ("ev.build zap.create n18.create n25.create ls.toev rl.toev", 1), "filters": ("fl.parse", 1), "messages": ("cm.parse rm.ser", 2),
  "pointers": ("uri.parse n19.dec n19.enc uri.enc b32.dkey b32.dpriv b32.dnote b32.key b32.priv b32.note n49.val n49.dec n49.enc valid.hex key.fromhex priv.fromhex kp.fromhex key.tohex priv.tohex hex.decode hex.to_bytes rp.addr zap.lnurl", 2),
  "documents": ("n5.parse n5.url n5.resp n5.verify hd.path hd.seed hd.derive mn.validate mn.seed n26.create n26.verify n13.diff", 2), "info": ("ri.ser ri.limser", 1), "relay": ("rl.inj", 1) }
def shim_seeds(got, r, per):
    from oracle import ec
    K, P = (b"\x11" * 32).hex(), ec.pub(b"\x22" * 32).hex(); S2 = "x" + "22" * 32; pub = ec.pub(b"\x11" * 32).hex(); out = {}
    j = lambda x: json.dumps(x, separators=(",", ":"), ensure_ascii=False).encode()
    for g, prod in SGROUPS.items():
        L = []
        for op in prod.split():
            ls = sorted({l for l in got.get(op, []) if len(l) < 6000}); r.shuffle(ls); L += [[l] for l in ls[:max(4, per // max(1, len(prod.split())))]]
        if g == "wallet":
            uris = sorted({l.split(" ", 2)[2] for l in got.get("nw.uri", [])}); r.shuffle(uris)
            L += [["nw.uri 0 " + u, "nw.req 0 0 %s %s %d" % (hx(m), hx(p), i % 3), "ev.access 0"] for i, (u, m, p) in enumerate(zip(uris, [b"pay_invoice", b"get_balance", b"list_transactions", b""] * per, [b'{"invoice":"lnbc1"}', b"{}", b"[]", b"{"] * per))]
            for tags in ([[b"encryption", b"nip44_v2 nip04"], [b"notifications", b"payment_received payment_sent"]], [[b"encryption"]], []):
                L.append(["ev.build 0 x%s 1700000000 13194 %s%s" % (K, hx(b"pay_invoice get_balance  make_invoice\tnotifications"), "".join(" " + hl(t) for t in tags)), "nw.info 0"])
        if g == "encrypted":
            msgs = [j({"result_type": "pay_invoice", "result": {"preimage": "ab" * 32, "fees_paid": 1}}), j({"result_type": "get_info", "error": {"code": "OTHER", "message": "m"}, "result": None}), j({"notification_type": "payment_received", "notification": {"type": "incoming", "invoice": "lnbc1", "amount": 123, "created_at": 1700000000}}),
              j({"id": "abc", "method": "sign_event", "params": [j({"kind": 1, "content": "x", "tags": [], "created_at": 1}).decode()]}), j({"id": "1", "method": "connect", "params": ["a" * 64, "secret", ""]}), b"[]", b"{}", b"null", j({"id": "1" * 63, "method": "m" * 31, "params": []})]
            for m in msgs:
                for how in (44, 4, 0):
                    for kind, op in ((23195, "nw.resp 0 %s 15" % S2), (23197, "nw.notif 0 %s 3" % S2), (23196, "nw.notif 0 %s 3" % S2), (24133, "n46.parse 0 " + S2)): L.append(["sx.ev 0 %d %d x%s x%s %s" % (how, kind, K, P, hx(m)), "ev.addtag 0 " + hl([b"p", P.encode()]), "ev.addtag 0 " + hl([b"encryption", b"nip44_v2"]), op])
            for kind in (1, 14, 15, 7):
                rumor = j({"id": "00" * 32, "pubkey": pub, "created_at": 1700000000, "kind": kind, "tags": [["p", P], ["subject", "s"]], "content": "hello"}); seal = j({"id": "00" * 32, "pubkey": pub, "created_at": 1700000000, "kind": 13, "tags": [], "content": "A" * 200, "sig": "00" * 64})
                for x in (rumor, seal, b"{}", b"[]"):
                    for tail in ("", " 1"): L.append(["sx.wrap 0 x%s x%s x%s %s%s" % (K, "33" * 32, P, hx(x), tail), "g.unwrap 1 0 " + S2, "d.unwrap 2 0 " + S2, "ev.access 1"])
            for l in sorted(got.get("d.send", []))[:20] + sorted(got.get("g.rumor", []))[:20]: t = l.split(" "); t[1] = "1"; L.append([" ".join(t), "g.wrap 2 1 x%s x%s" % (K, P), "g.unwrap 3 2 " + S2, "g.unwrap 3 1 " + S2])
            for l in sorted(got.get("n46.resp", []))[:40]: t = l.split(" "); t[1] = "1"; L.append([" ".join(t), "n46.parse 1 " + S2])
        out[g] = ["\n".join(x) for x in L]
    return out
def rewrite(line, slot_ops=("ev.parse", "ev.fromjson", "ev.build", "fl.parse", "zap.create", "n18.create", "n25.create")):
    t = line.split(" ")
    if t[0] in slot_ops: t[1] = "0"
    return " ".join(t)
def fixed(r):
    """well-formed and near-well-formed inputs of each kind, so that coverage does not depend on the harvest"""
    from oracle import ec
    out = {"events": [], "filters": [], "messages": [], "pointers": [], "documents": [], "relay": [], "built": [], "info": []}
    k = b"\x11" * 32
    d = lambda b: b.decode("utf-8", "replace")
    def j(e): return json.dumps(dict(id=e.id.hex(), pubkey=e.pk.hex(), created_at=abs(e.created), kind=e.kind, tags=[[d(v) for v in t] for t in e.tags], content=d(e.content), sig=e.sig.hex()), ensure_ascii=False).encode()
    for kind in (0, 1, 3, 5, 6, 7, 16, 1111, 9734, 9735, 10000, 10002, 30000, 30023, 10003, 10015, 30015, 30030, 22242, 65535):
        e = gen.event(r, 4); e.kind = kind; h = ("%064x" % r.getrandbits(256)).encode(); u = b"wss://relay.example.com/"
        req = j(gen.event(r, 2))
        e.tags = [[b"e", h, u, b"root"], [b"e", h, b"", b"reply"], [b"p", h, u, b"name"], [b"a", b"30023:" + h + b":id", u], [b"k", b"1"], [b"r", u, b"read"], [b"r", u], [b"d", b"x"], [b"t", b"tag"], [b"word", b"w"], [b"relay", u], [b"emoji", b"a", b"b"], [b"group", b"g", u, b"n"],
                  [b"expiration", b"1800000000"], [b"delegation", h, b"kind=1&created_at<1800000000", h + h], [b"bolt11", b"lnbc10u1p3"], [b"description", req], [b"preimage", h], [b"P", h], [b"amount", b"21000"], [b"relays", u, u], [b"lnurl", b"lnurl1abc"], [b"nonce", b"12", b"8"], [b"q", h, u], [b"title", b"T"], [b"image", u]]
        r.shuffle(e.tags); e.content = r.choice([b"hello nostr:" + b32.encode("npub", bytes(32)).encode() + b" nostr:" + b32.encode("note", bytes(32)).encode(), b"+", b"-", req, b"\xe2\x9d\xa4", gen.text(r, 80)])
        e.created = 1700000000; e.content = d(e.content).encode(); e.pk = ec.pub(k); e.id = e.eid(); e.sig = ec.sign(k, e.id, bytes(32))
        out["events"].append("ev.parse 0 " + hx(j(e))); out["events"].append("ev.fromjson 0 " + hx(j(e)))
        out["messages"].append("cm.parse " + hx(b'["EVENT",' + j(e) + b"]") + " 0")
        out["relay"].append("rl.inj 0 1 " + hx(b'["EVENT","sub",' + j(e) + b"]"))
    return out
LEAN = "c01 c02 c04 c07 c10 c12 c13 c15 c16 c17 c18 c19 c20 c24".split()
def harvest(ctx, tmp):
    os.environ["VF_REC_DIR"] = tmp
    try:
        wl.run(ctx, [(m, .3 if ctx.quick else 1, 10 if ctx.quick else 120) for m in SHIM], ("checks.c29", "Watch"), ("shim",))
        wl.run(ctx, [(m, .15 if ctx.quick else .5, 8 if ctx.quick else 60) for m in MODS], ("checks.c29", "Watch"), ("asan",))
    finally: del os.environ["VF_REC_DIR"]
    wl.run(ctx, [(m, .15 if ctx.quick else .5, 8 if ctx.quick else 60) for m in LEAN], ("checks.c29", "Watch"), ("nojson",))      # the smallest build
    got = {}
    for p in sorted(glob.glob(os.path.join(tmp, "*.json"))):
        for op, ls in json.load(open(p)).items(): got.setdefault(op, []).extend(ls)
        os.unlink(p)
    return got
def relay_seed(r, injs):
    s = ["rl.new 0 " + hx(r.choice(["ws://relay.example", "wss://r.example:444/x?y#z", "ws://[::1]:7777/"])), "rl.connect 0 0", "rl.inj 0 0 -", "rl.cb 0 1", "rl.sub 0 x737562 x7b7d 2"] + injs + r.choice([["rl.unsub 0 x737562"], [], ["rl.inj 0 2 -"]]) + ["rl.log 0", "rl.destroy 0"]
    return s
def seeds(ctx, got, r, per):
    """scripts by group"""
    out = {}
    fx = fixed(r)
    for g, (prod, w) in GROUPS.items():
        pool = [rewrite(l) for l in fx[g]]
        for op in prod.split():
            ls = sorted(set(got.get(op, []))); r.shuffle(ls); n = max(6, per // len(prod.split()))
            short = [l for l in ls if len(l) < 4000][:n]; pool += [rewrite(l) for l in short + [l for l in ls if len(l) >= 4000][:max(1, n // 12)]]
        S = []
        for l in pool:
            op = l.split(" ")[0]
            if g in ("events", "built"):
                if op in ("ls.toev", "rl.toev"): continue
                ad = [x for x in r.sample(got.get("ls.add", []), min(4, len(got.get("ls.add", []))))]; ad = ["ls.add 0 " + x.split(" ", 2)[2] for x in ad]
                pre = ["fl.parse 0 " + hx(gen.text(r, 1) and b'{"kinds":[1,7],"#e":["' + b"ab" * 32 + b'"],"search":"h"}') + " 0", "ls.create 0 30003", "ls.create 1 30003", "rl.create 0", "rl.create 1"]
                s = pre + [l] + r.sample(EVC, 14)
                if g == "built": s += ad + ["ls.toev 0 2 -", "rl.add 0 x7773733a2f2f61 1 0", "rl.toev 0 3"]
            elif g == "filters": s = [fx["events"][r.randrange(len(fx["events"]))]] + [l] + FLC if r.random() < .5 else [l] + FLC
            elif g == "relay":
                continue
            elif g == "info": continue
            elif op == "rm.ser": s = [fx["events"][r.randrange(len(fx["events"]))], l]
            elif op == "n26.create": s = [fx["events"][r.randrange(len(fx["events"]))], l]
            else: s = [l]
            S.append("\n".join(s))
        if g == "info":
            alln = {k: got.get(k, []) for k in ("ri.str", "ri.lim", "ri.nips", "ri.addnip", "ri.ret", "ri.list", "ri.fee")}
            for i in range(per):
                s = ["ri.new"]
                for k, v in alln.items():
                    if v: s += r.sample(v, min(len(v), r.randrange(4)))
                s += ["ri.ser %d 1" % r.choice([100, 400, 1000, 4000, 65536]), "ri.limser %d 1" % r.choice([10, 200, 400, 600]), "ri.nipsget"] + r.choice([[], ["ri.free"]])
                S.append("\n".join(s))
        if g == "relay":
            inj = [l for l in pool if l.startswith("rl.inj 0 ") and l.split(" ")[3] != "-" and len(l) < 6000]
            for i in range(per): S.append("\n".join(relay_seed(r, r.sample(inj, min(len(inj), r.randrange(1, 5))))))
        out[g] = S
    return out
class TOLS: config = "shim"; env = dict(VF_TOLERANT="1", VF_DET="1")
class TOL: config = "asan"; env = dict(VF_TOLERANT="1", VF_DET="1")
def memcheck(job):
    """scripts under valgrind: reads of uninitialised memory, which the compiler sanitizers do not see"""
    exe, lines, secs, path = job
    open(path, "w").write("\n".join(lines) + "\n"); env = dict(os.environ, VF_TOLERANT="1", VF_DET="1")
    with open(path) as i:
        try: p = subprocess.run(["valgrind", "-q", "--error-exitcode=9", "--num-callers=25", "--leak-check=no", exe], stdin=i, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=secs)
        except subprocess.TimeoutExpired as e: return lines, (e.stdout or b"").count(b"\n"), None, ""
    return lines, p.stdout.count(b"\n"), p.returncode, p.stderr.decode("utf-8", "replace")
def judge_memcheck(ctx, res, T=None):
    lines, done, rc, err = res; ctx.count("memcheck_operations", done)
    if rc is None: ctx.count("memcheck_cut_short"); return
    srcs = {os.path.basename(p) for p in glob.glob(os.path.join(build.REPO, "src", "*.[ch]"))}
    for blk in re.split(r"\n==\d+== \n", err):
        m = re.search(r"==\d+== (Conditional jump|Use of uninitialised|Syscall param|Invalid read|Invalid write|Invalid free|Mismatched free|Source and destination overlap|Argument)[^\n]*", blk)
        if not m: continue
        fr = re.findall(r"(?:at|by) 0x[0-9A-F]+: (\w+) \(([\w.-]+):\d+\)", blk.split("Uninitialised value was")[0].split("Address 0x")[0]); fns = [f for f, src in fr if src in srcs]
        if fns or not fr or m[1] in ("Syscall param",): ctx.violation("memcheck:%s:%s" % (m[1], "<".join(fns[:2])), blk[:4000], lines[:done + 1], T or TOL)
    if rc not in (0, 9) and rc != 3: ctx.violation("memcheck-exit:%d" % rc, err[-3000:], lines[:done + 1], T or TOL)
BIG = [("ev.fromjson 0 %s", lambda n: b"[" * n), ("ev.fromjson 0 %s", lambda n: b'{"a":' * (n // 5)), ("ev.fromjson 0 %s", lambda n: b'{"tags":[' + b'["a"],' * (n // 6)), ("ev.fromjson 0 %s", lambda n: b'{"content":"' + b"\\u0041" * (n // 6) + b'"}'), ("ev.fromjson 0 %s", lambda n: b"\t" * n), ("ev.fromjson 0 %s", lambda n: b'{"id":"' + b"a" * n),
  ("fl.parse 0 %s 0", lambda n: b'{"ids":[' + b'"",' * (n // 3)), ("fl.parse 0 %s 0", lambda n: b'{"kinds":[' + b"1," * (n // 2) + b"1]}"), ("fl.parse 0 %s 0", lambda n: b"{" + b'"#a":["x"],' * (n // 11) + b'"limit":1}'), ("fl.parse 0 %s 0", lambda n: b'{"search":"' + b"x" * n + b'"}'), ("fl.parse 0 %s 0", lambda n: b'{"authors":[' + b",".join([b'"' + b"a" * 64 + b'"'] * (n // 67)) + b"]}"),
  ("cm.parse %s 0", lambda n: b'["REQ","s",' + b"{}," * (n // 3) + b"{}]"), ("cm.parse %s 0", lambda n: b'["EVENT",' + b"[" * n), ("cm.parse %s 0", lambda n: b'["CLOSE","' + b"s" * n + b'"]'), ("cm.parse %s 0", lambda n: b"[" + b"1," * (n // 2) + b"1]"),
  ("uri.parse %s", lambda n: b"nostr:npub1" + b"q" * n), ("uri.parse %s", lambda n: b"nostr:" * (n // 6)), ("n19.dec nevent %s", lambda n: b"nevent1" + b"q" * n), ("n19.dec naddr %s", lambda n: b"1" * n), ("b32.dkey %s", lambda n: b"npub1" + b"p" * n), ("n49.val %s", lambda n: b"ncryptsec1" + b"q" * n), ("hex.decode %s 32", lambda n: b"ab" * (n // 2)), ("valid.hex %s", lambda n: b"a" * n),
  ("n5.parse %s 64 256", lambda n: b"a" * n), ("n5.parse %s 64 256", lambda n: b"@" * n), ("n5.url x61 %s 300", lambda n: b"b." * (n // 2)), ("n5.resp %s x61 65 3", lambda n: b'{"names":{' + b'"b":"c",' * (n // 8) + b'"a":"' + b"ab" * 32 + b'"}}'), ("n5.resp %s x61 65 3", lambda n: b'{"names":{"a":"' + b"ab" * 32 + b'"},"relays":{"' + b"ab" * 32 + b'":[' + b'"wss://r",' * (n // 10) + b'""]}}'),
  ("zap.lnurl %s", lambda n: b"lnurl1" + b"q" * n), ("rp.addr %s", lambda n: b"30023:" + b"ab" * 32 + b":" + b"x" * n), ("rp.addr %s", lambda n: b"3" * n), ("mn.validate %s", lambda n: b"abandon " * (n // 8)), ("mn.validate %s", lambda n: b" " * n),
  ("hd.path " + " ".join(["x" + "11" * 32] * 3) + " %s", lambda n: b"m" + b"/" * n), ("hd.path " + " ".join(["x" + "11" * 32] * 3) + " %s", lambda n: b"m/" + b"1" * n), ("n26.create x%s x%s %%s" % ("11" * 32, "22" * 32), lambda n: b"&".join([b"kind=1"] * (n // 7))), ("n26.create x%s x%s %%s" % ("11" * 32, "22" * 32), lambda n: b"&" * n)]
def big(d, ctx, r):
    """work and memory for inputs of growing size: each call must end"""
    for tmpl, f in BIG:
        for n in (20000, 200000) if ctx.quick else (20000, 200000, 1000000, 4000000):
            x = f(n); d.cmd(*(tmpl % hx(x)).split(" ")); ctx.count("large_inputs"); ctx.seen(("big", tmpl[:20], x[:12], n), "%s of %d bytes" % (tmpl[:14], n))
    # objects at their limits, through every reader
    k = 400 if ctx.quick else 3000; evs = [[b"e", b"ab" * 32, b"wss://r/", b"root"], [b"a", b"30023:" + b"ab" * 32 + b":x"], [b"p", b"cd" * 32], [b"r", b"wss://r.example/%d", b"read"], [b"word", b"w"], [b"kind", b"1"], [b"expiration", b"1800000000"]]
    for t in evs:
        for i in range(k): d.cmd("ev.build", 0, "x" + "11" * 32, 1700000000, 5, "x", *[hl([v.replace(b"%d", b"%d" % j) for v in t]) for j in range(k)]) if i == 0 else None
        d.cmd("ls.create", 0, 30003); d.cmd("ls.create", 1, 30003); d.cmd("rl.create", 0); d.cmd("rl.create", 1)
        for l in EVC:
            if "mention" in l or "n10.add" in l: continue
            d.cmd(*l.split(" "))
        ctx.count("large_events"); ctx.seen(("limits", t[0], k))
    d.cmd("ev.build", 0, "x" + "11" * 32, 1700000000, 1, hx(b" ".join([b"nostr:" + b32.encode("npub", bytes([i % 256]) * 32).encode() for i in range(k)]))); d.cmd("n18.quote", 0); d.cmd("ev.access", 0)
    d.reset()
def fuzz(job):
    """one libFuzzer process"""
    exe, g, dir_, seed, runs, secs, extra = job
    env = dict(os.environ); env.update(drv.SAN_ENV); env["ASAN_OPTIONS"] += ":detect_stack_use_after_return=0:quarantine_size_mb=16:max_malloc_fill_size=0:malloc_context_size=6"
    cmd = [exe, "-seed=%d" % seed, "-runs=%d" % runs, "-max_total_time=%d" % secs, "-max_len=150000", "-timeout=25", "-rss_limit_mb=3000", "-malloc_limit_mb=1000", "-print_final_stats=1", "-len_control=0", "-reload=0", "-use_value_profile=0",
           "-artifact_prefix=" + dir_ + "/art-", "-verbosity=1"] + extra + [dir_ + "/corpus"]
    p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=secs + 300)
    return g, p.returncode, p.stderr.decode("utf-8", "replace")
def once(exe, art, extra=()):
    env = dict(os.environ); env.update(drv.SAN_ENV)
    try: p = subprocess.run([exe, "-timeout=60", "-rss_limit_mb=3000", "-malloc_limit_mb=1000", "-runs=1", *extra, art], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=300)
    except subprocess.TimeoutExpired: return 1, "ERROR: libFuzzer: timeout"
    return p.returncode, p.stderr.decode("utf-8", "replace")
def judge(ctx, exe, g, rc, text, dir_, extra):
    m = re.search(r"stat::number_of_executed_units: +(\d+)", text); n = int(m[1]) if m else 0
    o = re.search(r"FUZZ-OBSERVED inputs=(\d+) operations=(\d+) refused=(\d+)", text)
    cov = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", text)
    st = ctx.extra.setdefault("fuzzing", {}).setdefault(g, dict(inputs=0, operations=0, refused=0))
    if o: st["inputs"] += int(o[1]); st["operations"] += int(o[2]); st["refused"] += int(o[3])
    if cov: st["edges"], st["features"], st["corpus"] = (int(x) for x in cov[-1]); st["edges_at_start"] = int(cov[0][0])
    ctx.evals += n
    for a in sorted(glob.glob(dir_ + "/art-*")):
        rc2, t2 = once(exe, a, extra); src = t2 if rc2 else text
        if not rc2 and os.environ.get("VF_KEEP"): print(a, text[-5000:])
        if not rc2 and "LLVMFuzzerCustom" in text: raise RuntimeError("the mutator itself failed: " + text[-1500:])
        if not rc2: ctx.count("artefacts_not_reproduced"); continue
        name = os.path.basename(a)
        if "libFuzzer: timeout" in t2: key = "hang:fuzz-" + g
        elif "out-of-memory" in t2 and "AddressSanitizer" not in t2: key = "memory:fuzz-" + g
        else:
            kind, fns = drv.classify(t2); key = "%s:%s@fuzz-%s" % (kind or "exit:%d" % rc2, "<".join(fns), g)
        hist = open(a, "rb").read().decode("latin1").split("\n")
        ctx.violation(key, t2[-5000:], hist, TOLS if g in SGROUPS else TOL)
    if rc and not glob.glob(dir_ + "/art-*"):
        if core.NOLSAN in text: return "nolsan"
        # leaks found at the end of a run, or an abort outside any input
        kind, fns = drv.classify(text)
        if kind: ctx.violation("%s:%s@fuzz-%s" % (kind, "<".join(fns), g), text[-5000:], [], None)
        else: raise RuntimeError("fuzzer failed (%d): %s" % (rc, text[-1500:]))
def run(ctx):
    ctx.rule = "operations of all checks' workloads run under ASan+UBSan+LSan (distinct by operation text), then mutated operation scripts run in process under the same sanitizers and a time and memory limit (evaluations add the inputs executed)"
    ctx.assumptions = ["Arguments the interface requires to be valid pointers of a stated length are so; buffer sizes given are the real sizes.", "scrypt's cost is reduced in the fuzzing build only."]
    with cf.ThreadPoolExecutor(3) as ex: list(ex.map(build.driver, ["asan", "fuzz", "plain", "shim", "fuzz-shim", "plain-shim"]))
    exe = build.driver("fuzz"); sexe = build.driver("fuzz-shim"); r = ctx.sub("seeds")
    tmp = tempfile.mkdtemp(prefix="vf-fuzz-")
    try:
        got = harvest(ctx, tmp)
        S = seeds(ctx, got, r, 60 if ctx.quick else 400)
        jobs = []; extra = []
        for g, (prod, w) in GROUPS.items():
            for i in range(w if not ctx.quick or w < 2 else w):
                d = os.path.join(tmp, "%s-%d" % (g, i)); os.makedirs(d + "/corpus")
                for k, s in enumerate(S[g]):
                    if (k % w == i) or len(S[g]) < 40: open(d + "/corpus/s%05d" % k, "w").write(s)
                ctx.count("seeds_" + g, len(S[g]))
                jobs.append((exe, g, d, ctx.seed * 1000 + len(jobs) + 1, (400000 if ctx.quick else 10 ** 9), (10 if ctx.quick else 160), extra))
        S2 = shim_seeds(got, ctx.sub("shim-seeds"), 40 if ctx.quick else 300)
        for g in SGROUPS:
            d = os.path.join(tmp, g); os.makedirs(d + "/corpus")
            for k, s in enumerate(S2[g]): open(d + "/corpus/s%05d" % k, "w").write(s)
            ctx.count("seeds_" + g, len(S2[g])); jobs.append((sexe, g, d, ctx.seed * 1000 + 900 + len(jobs), (400000 if ctx.quick else 10 ** 9), (8 if ctx.quick else 160), extra))
        with cf.ThreadPoolExecutor(8) as ex:
            for job, res in zip(jobs, ex.map(fuzz, jobs)):
                if judge(ctx, job[0], *res, job[2], extra) == "nolsan":
                    job = job[:6] + (["-detect_leaks=0"],); ctx.count("fuzzing_without_leak_detection"); res = fuzz(job); judge(ctx, job[0], *res, job[2], job[6])
        D = ctx.driver("asan"); ctx.guard(D, big, ctx, r); ctx.leaks(D)
        # uninitialised memory: seeds and the inputs the fuzzers kept, under memcheck
        ls = []; sl = []
        for g in list(GROUPS) + list(SGROUPS):
            fs = sorted(p for j in jobs if j[1] == g for p in glob.glob(j[2] + "/corpus/*")); r.shuffle(fs); n = 0
            for p in fs:
                x = [l for l in open(p, encoding="latin1").read().split("\n") if l and len(l) < 20000 and not re.match(r"mn\.(seed|kp)|n49\.enc|n49\.dec|hd\.path", l)]
                (sl if g in SGROUPS else ls).append(x); n += len(x)
                if n > (4000 if ctx.quick else 60000): break
        r.shuffle(ls); r.shuffle(sl); parts = [[] for _ in range(8)]; sparts = [[] for _ in range(2)]
        for q, w in ((ls, parts), (sl, sparts)):
            for i, x in enumerate(q): w[i % len(w)] += ["reset"] + x
        with cf.ThreadPoolExecutor(8) as ex:
            for i, res in enumerate(ex.map(memcheck, [(build.driver("plain" if i < 8 else "plain-shim"), p, 40 if ctx.quick else 400, os.path.join(tmp, "mc%d" % i)) for i, p in enumerate(parts + sparts)])): judge_memcheck(ctx, res, TOL if i < 8 else TOLS)
    finally:
        if not os.environ.get("VF_KEEP"): shutil.rmtree(tmp, ignore_errors=True)
        else: print(tmp)
