"""C17: NIP-51 lists."""
import json, random
from lib import gen
from oracle import ec, n44
from lib.drv import hx, hl
SET = lambda k: 30000 <= k < 40000
KINDS = [10000, 10001, 10003, 10004, 10006, 10015, 10030, 10050, 30000, 30002, 30003, 30015, 30030, 39999, 40000, 29999, 0, 65535]
META = ("d", "title", "description", "image")
def run(ctx):
    ctx.rule = "step of a list history (add, remove, metadata, to-event, from-event), whole list read back and compared with an ordered model; distinct by history prefix"
    def h(x): return None if x is None else x.hex()
    def item(r):
        """(type, args, ok, model item)"""
        t = r.choice(["p", "e", "t", "word", "relay", "a", "group", "emoji"]); pv = 0
        s = lambda: gen.text(r, 40) if r.random() < .9 else b"z" * r.choice([100, 1100, 5000])
        o = lambda: None if r.random() < .4 else s()
        if t in ("p", "e"):
            v = gen.hexid(r)
            if r.random() < .15: v = r.choice([v[:-1], v + b"1", v.upper(), v[:9] + b"G" + v[10:], b"", None, b" " + v[1:]])
            ok = v is not None and len(v) == 64 and all(c in b"0123456789abcdefABCDEF" for c in v)
            a = [v, o()] + ([o()] if t == "p" else [])
        elif t in ("t", "word", "relay"): a = [s() if r.random() < .95 else None]; ok = bool(a[0])
        elif t == "a": a = [s(), o()]; ok = bool(a[0])
        elif t == "group": a = [s(), s() if r.random() < .95 else None, o()]; ok = bool(a[0]) and bool(a[1])
        else: a = [s(), s() if r.random() < .95 else None]; ok = bool(a[0]) and bool(a[1])
        return t, a, ok, [t.encode().hex()] + [h(x) for x in (a + [None, None])[:3]]
    def dump(d, slot, M, lab):
        o = d.cmd("ls.dump", slot)
        if "trip" in lab or lab == "private": o["l"], M = [nul(x) for x in o["l"]], dict(M, items=[nul(x) for x in M["items"]])
        ctx.check(o["n"] == len(M["items"]) and o["past"] and o["kind"] == M["kind"] and o["l"] == M["items"], "items", lambda: "%s: %s expected %s" % (lab, o["l"], M["items"]), d)
        ctx.check(all(o[k] == h(M[k]) for k in META), "metadata", lambda: "%s: %s expected %s" % (lab, {k: o[k] for k in META}, M), d)
    def nul(it): return it[:2] + [it[2] or None, it[3] or None, it[4]] if it[4] else it
    def hidden(key, c):
        """content -> items, by the independent NIP-44"""
        return [[x.encode().hex() for x in t] for t in json.loads(n44.decrypt(n44.conv(key, ec.pub(key)), c).decode())]
    def tagsof(M):
        L = []
        if SET(M["kind"]):
            L.append([b"d".hex(), h(M["d"]) or ""])
            for k in META[1:]:
                if M[k] is not None: L.append([k.encode().hex(), h(M[k])])
        for it in M["items"]:
            if it[4]: continue
            t = it[:2]
            if it[2] is not None or it[3] is not None: t = t + [it[2] or ""]
            if it[3] is not None: t = t + [it[3]]
            L.append(t)
        return L
    def secret_size(M): return sum(6 + sum(len(x or "") for x in it[:4]) * 3 for it in M["items"] if it[4])
    def spell(r, t):
        """one JSON string in any spelling"""
        o = ""
        for c in t:
            k = r.random(); n = ord(c)
            if c in '"\\' or n < 32: o += r.choice([{'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\b": "\\b", "\f": "\\f"}.get(c, "\\u%04x" % n), "\\u%04X" % n])
            elif k < .1 and n < 0x10000: o += "\\u%04x" % n
            elif k < .1: o += "\\u%04x\\u%04X" % (0xd7c0 + (n >> 10), 0xdc00 + (n & 0x3ff))
            elif c == "/" and k < .5: o += "\\/"
            else: o += c
        return '"' + o + '"'
    def foreign(d, seed, key):
        """private content written by somebody else's program"""
        r = random.Random(seed); ck = n44.conv(key, ec.pub(key)); ws = lambda: "".join(r.choice(" \n\t\r") for _ in range(r.choice([0, 0, 0, 1, 2]))); W = dict(kind=r.choice(KINDS), items=[], d=None, title=None, description=None, image=None)
        txt = lambda n: gen.text(r, n).decode("utf-8", "replace").replace("\0", "") or "x"
        L = [[r.choice(["p", "e", "t", "word", "relay", "a", "emoji", "x" * r.choice([3, 63, 64, 80]), txt(6)])] + [txt(r.choice([3, 20, 200])) if r.random() < .95 else "v" * r.choice([254, 255, 256, 511, 512, 1022, 1023, 1024, 3000]) for _ in range(r.choice([1, 1, 2, 3, 4, 6]))] for _ in range(r.choice([0, 1, 2, 5, 20]) if r.random() < .95 else r.randrange(65, 400))]
        doc = ws() + "[" + ",".join(ws() + "[" + ",".join(ws() + spell(r, x) + ws() for x in t) + "]" + ws() for t in L) + ws() + "]" + ws(); bad = None
        if r.random() < .4:      # broken documents
            for _ in range(20):
                k = r.randrange(7); x = doc
                if k == 0: x = doc[:r.randrange(len(doc))]
                elif k == 1: i = r.randrange(len(doc) + 1); x = doc[:i] + r.choice('[]",{}:x1\\') + doc[i:]
                elif k == 2: i = r.randrange(len(doc)); x = doc[:i] + doc[i + 1:]
                elif k == 3: x = doc + r.choice(["x", "[]", "]", ",", '"'])
                elif k == 4: x = r.choice(["x", "nostr", "{}", "1"]) + doc
                elif k == 5: x = doc.replace('","', r.choice(['""', '",,"', '" "', '";"']), 1)
                else: x = doc.replace("],[", r.choice(["][", "],,[", "] ["]), 1)
                if any(ord(c) < 32 and c not in "\n\t\r" for c in x): continue
                try: json.loads(x)
                except ValueError: bad = x; break
            if bad is None: return
            doc = bad
        enc = doc.encode("utf-8", "surrogatepass")
        if not 2 <= len(enc) <= 60000: return
        e = gen.event(r, 0); e.kind = W["kind"]; e.tags = [[b"t", b"pub"]]; e.content = n44.encrypt(ck, bytes(r.getrandbits(8) for _ in range(32)), enc)
        W["items"] = [["t".encode().hex(), b"pub".hex(), None, None, 0]] + [[x.encode().hex() for x in t[:4]] + [None] * (4 - len(t[:4])) + [1] for t in L]
        d.many([e.build(2), e.setall(2)])
        k2 = key if r.random() < .95 else gen.priv(r)
        o = d.cmd("ls.fromev", 2, 2, hx(k2)); ctx.seen((seed, "foreign"), "%s = %s" % (doc[:60], o["r"]))
        if k2 != key: ctx.check(o["r"] != 0 and not o["dangling"], "opened-by-other", "%s" % o, d); ctx.count("foreign_other_key")
        elif bad: ctx.check(o["r"] != 0 and not o["dangling"], "malformed-private", lambda: "%s accepted: %s" % (doc[:3000], d.cmd("ls.dump", 2)), d); ctx.count("foreign_malformed")
        elif ctx.check(o["r"] == 0, "private-refused", lambda: "%s: %s" % (doc[:3000], o), d): dump(d, 2, W, "private"); ctx.count("foreign_read")
        o = d.cmd("ls.fromev", 2, 2, "-"); W["items"] = W["items"][:1]
        if ctx.check(o["r"] == 0, "without-key", "%s" % o, d): dump(d, 2, W, "without key")
    def hist(d, seed, steps, private, key, fill=0):
        r = random.Random(seed); M = None; batch = []
        for st in range(steps):
            k = r.random()
            if M is None or k < .01 and not fill:
                kd = r.choice(KINDS) if r.random() < .8 else r.randrange(65536); d.cmd("ls.create", 0, kd); M = dict(kind=kd, items=[], d=None, title=None, description=None, image=None); lab = "create"
            elif k < .55:
                t, a, ok, it = item(r); pv = int(private and r.random() < .4); ok = ok and len(M["items"]) < 4096
                o = d.cmd("ls.add", 0, t, pv, *[hx(x) for x in a]); lab = "add"
                ctx.check((o["r"] == 0) == ok, "add-verdict", lambda: "%s %s = %s expected %s" % (t, a, o, ok), d)
                if ok: M["items"].append(it + [pv])
            elif k < .7:
                n = len(M["items"]); i = r.choice([0, n - 1, n, n + 1, r.randrange(n + 1), 2**64 - 1]); i = max(i, 0); o = d.cmd("ls.remove", 0, i); lab = "remove"
                ctx.check((o["r"] == 0) == (i < n), "remove-verdict", lambda: "%d of %d: %s" % (i, n, o), d)
                if i < n: del M["items"][i]
            elif k < .8:
                w = r.choice(META); x = None if r.random() < .15 else gen.text(r, 60)
                if r.random() < .1: o = d.cmd("ls.meta", 0, "self", "-")
                else: o = d.cmd("ls.meta", 0, w, hx(x)); M[w] = x
                ctx.check(o["r"] == 0, "meta-verdict", "%s" % o, d); lab = "meta"
            elif k < .9:
                has = any(it[4] for it in M["items"]); kp = hx(key) if has or r.random() < .3 else "-"; lab = "to_event"
                o = d.cmd("ls.toev", 0, 1, kp); 
                if has and not private: ctx.check(o["r"] != 0 and not o["dangling"], "private-exposed", "%s" % o, d)
                elif has and secret_size(M) > 60000: ctx.check(o["r"] == 0 or not o["dangling"], "dangling", "%s" % o, d)
                elif ctx.check(o["r"] == 0 and o["e"]["kind"] == M["kind"] and o["e"]["tags"] == tagsof(M) and (has or not o["e"]["content"]), "to_event", lambda: "%s expected %s" % (o, tagsof(M)), d):
                    if has: 
                        got = hidden(key, bytes.fromhex(o["e"]["content"])); ctx.check(got == [it[:2] + ([it[2] or ""] if it[2] is not None or it[3] is not None else []) + ([it[3]] if it[3] is not None else []) for it in M["items"] if it[4]], "private-content", lambda: "%s expected %s" % (got, M["items"]), d); ctx.count("private_lists")
                    o = d.cmd("ls.fromev", 1, 1, kp if has else "-")
                    if not ctx.check(o["r"] == 0, "from_event", "%s of %s" % (o, M), d): continue
                    S = SET(M["kind"]); nz = lambda it: [it[0], it[1], (it[2] or "") if it[3] is not None else it[2], it[3], it[4]]
                    W = dict(kind=M["kind"], items=[nz(it) for it in M["items"] if not it[4]] + [nz(it) for it in M["items"] if it[4]], d=(M["d"] or b"") if S else None)
                    for x in META[1:]: W[x] = M[x] if S else None
                    dump(d, 1, W, "round trip")
            else:
                e = gen.event(r, 3); e.kind = r.choice(KINDS); W = dict(kind=e.kind, items=[], d=None, title=None, description=None, image=None); e.tags = [t for t in e.tags if t[0] != b"d"]
                for _ in range(r.choice([0, 1, 3, 9, 30])):
                    e.tags.append([r.choice([b"p", b"e", b"t", b"word", b"relay", b"a", b"group", b"emoji", b"x", b"", gen.text(r, 6)])] + [gen.text(r, 20) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))])
                for m in META:
                    if r.random() < .5: e.tags.insert(r.randrange(len(e.tags) + 1), [m.encode()] + [gen.text(r, 20) for _ in range(r.choice([0, 1, 1, 2]))])
                if r.random() < .2: e.tags += [[r.choice(META).encode(), gen.text(r, 12)] for _ in range(r.choice([2, 4]))]
                if r.random() < .1: e.tags += [[r.choice([b"p", b"r", b"e"])] + [gen.text(r, 5) for _ in range(r.choice([9, 12, 20, 33]))] for _ in range(3)]
                if r.random() < .05: e.tags += [[b"t", b"x%d" % j] + ([b"", b"y"] if j % 3 == 0 else []) for j in range(r.randrange(60, 600))]
                for t in e.tags:
                    if len(t) < 2: continue
                    if t[0] in (b"d", b"title", b"description", b"image"): W[t[0].decode()] = t[1]
                    else: W["items"].append([t[0].hex(), t[1].hex(), t[2].hex() if len(t) > 2 else None, t[3].hex() if len(t) > 3 else None, 0])
                e.content = b"" if r.random() < .5 else gen.text(r, 30)
                d.many([e.build(2), e.setall(2)]); o = d.cmd("ls.fromev", 2, 2, "-"); lab = "from_event"
                if ctx.check(o["r"] == 0, "from_event", lambda: "%s %s" % (o, e.view()), d): dump(d, 2, W, "foreign event")
            dump(d, 0, M, lab); ctx.seen((seed, st), "%s -> %d items" % (lab, len(M["items"]))); ctx.count(lab)
            if fill and st == 2:
                for j in range(fill):
                    pv = int(private and r.random() < .3); v = b"w%d" % j;
                    batch.append((["ls.add", 0, "word", pv, hx(v)], ["word".encode().hex(), v.hex(), None, None, pv]))
                for o in d.many([b[0] for b in batch]): ctx.check(o["r"] == 0, "add-verdict", "%s" % o, d)
                M["items"] += [b[1] for b in batch]; dump(d, 0, M, "fill"); ctx.count("filled_lists")
                for j in (15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 511, 512, 1023):
                    for q in (j, j + 1, 0):
                        if q < len(M["items"]): o = d.cmd("ls.remove", 0, q); del M["items"][q]; ctx.check(o["r"] == 0, "remove-verdict", "%s" % o, d)
                    dump(d, 0, M, "drain")
            if steps > 90 and st == 30:
                n = 4096 + 5 - len(M["items"]); o = d.cmd("ls.many", 0, n); done = n - 5
                ctx.check(o["r"] != 0 and o["done"] == done, "item-limit", "%s" % o, d); M["items"] += [["word".encode().hex(), (b"w%d" % i).hex(), None, None, 0] for i in range(done)]
        d.reset()
    for cfg in ("asan",) if ctx.quick else ("asan", "asan-mbed"):
        if not ctx.has(cfg): continue
        d = ctx.driver(cfg); r = ctx.sub(cfg); key = gen.priv(r)
        for i in range(ctx.n(150, 2500)): ctx.guard(d, hist, r.random(), r.choice([10, 30, 60]), False, key)
        for i in range(ctx.n(1, 6)): ctx.guard(d, hist, r.random(), 100, False, key)
        for i in range(ctx.n(6, 60)): ctx.guard(d, hist, r.random(), 40, False, key, r.choice([60, 130, 250, 520, 1100]))
        ctx.leaks(d, "nip51")
    if not ctx.has("shim"): return
    d = ctx.driver("shim"); r = ctx.sub("private"); key = gen.priv(r)
    for i in range(ctx.n(60, 1000)): ctx.guard(d, hist, r.random(), r.choice([10, 30, 60]), True, key)
    for i in range(ctx.n(8, 80)): ctx.guard(d, hist, r.random(), 40, True, key, r.choice([60, 130, 250, 520, 700]))
    for i in range(ctx.n(400, 6000)): ctx.guard(d, foreign, r.random(), key)
    ctx.leaks(d, "nip51 private")
