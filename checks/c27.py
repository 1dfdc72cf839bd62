"""C27: relay information documents."""
import json, struct
from lib import gen
from lib.drv import hx
STR = ["name", "description", "banner", "icon", "pubkey", "self", "contact", "software", "version", "privacy_policy", "terms_of_service", "posting_policy", "payments_url"]
LIM = ["max_message_length", "max_subscriptions", "max_filters", "max_limit", "max_subid_length", "max_event_tags", "max_content_length", "min_pow_difficulty", "default_limit", "auth_required", "payment_required", "restricted_writes", "created_at_lower_limit", "created_at_upper_limit"]
DEF = dict(max_message_length=131072, max_subscriptions=20, max_filters=10, max_limit=5000, max_subid_length=64, max_event_tags=2000, max_content_length=65536, default_limit=500, min_pow_difficulty=0, auth_required=0, payment_required=0, restricted_writes=0, created_at_lower_limit=0, created_at_upper_limit=0)
LISTS = ["relay_countries", "language_tags", "tags"]; FEES = ["admission", "subscription", "publication"]
class Bad(Exception): pass
def nodup(pairs):
    if len({k for k, _ in pairs}) != len(pairs): raise Bad("repeated member")
    return dict(pairs)
def no(x): raise Bad("not an integer: " + x)
def limits(l): return {k: (bool(v) if "required" in k or "restricted" in k else v) for k, v in l.items() if v > 0 or "required" in k or "restricted" in k}
def document(m):
    o = {k: v for k, v in m["str"].items() if v is not None}
    o["supported_nips"] = list(m["nips"]); o["limitation"] = limits(m["lim"])
    if m["ret"]: o["retention"] = [dict(([("kinds", k)] if k else []) + ([("time", t)] if t else []) + ([("count", c)] if c > 0 else [])) for k, t, c in m["ret"]]
    for k in LISTS:
        if m[k]: o[k] = list(m[k])
    fees = {}
    for w in FEES:
        if m[w]: fees[w] = [dict(([("kinds", k)] if k and w == "publication" else []) + [("amount", a)] + ([("unit", u)] if u is not None else []) + ([("period", p)] if p and w == "subscription" else [])) for a, u, p, k in m[w]]
    if fees: o["fees"] = fees
    return o
def norm(o):
    """members whose presence when zero or empty is left open"""
    o = json.loads(json.dumps(o))
    if not o.get("supported_nips", 1): del o["supported_nips"]
    return o
def run(ctx):
    r = ctx.rng
    ctx.rule = "relay information built by a random sequence of settings, serialized to exact, short and long buffers and read back by Python's json; distinct by the settings"
    def word(n=30):
        return gen.text(r, n).decode("utf-8", "replace").replace("\ufffd", "?") if r.random() < .8 else "z" * r.choice([0, 1, 255, 256, 1000, 4096])
    def i32(): return r.choice([0, 1, -1, 2, 20, 65536, 131072, 2**31 - 1, -2**31, r.randrange(2**31)])
    def i64(): return r.choice([0, 1, -1, 1700000000, 2**31, 2**53 - 1, 2**53, 2**53 + 1, 2**60 + 1, 2**62 + 3, 2**63 - 1, -2**63, -2**53 - 1, r.randrange(-2**63, 2**63)])
    def u64(): return r.choice([0, 1, 1000, 2**32, 2**53 + 1, 2**63, 2**64 - 1, r.randrange(2**64)])
    def kinds(): return [r.choice([0, 1, 65535, -1, 2**31 - 1, -2**31, gen.kind(r)]) for _ in range(r.choice([0, 1, 2, 5, 40]))]
    def ib(l): return hx(struct.pack("<%di" % len(l), *l))
    def parse(b): return json.loads(b.decode(), object_pairs_hook=nodup, parse_float=no, parse_constant=no)
    def hist(d):
        d.cmd("ri.new"); m = dict(str={}, nips=[], lim=dict(DEF), ret=[], admission=[], subscription=[], publication=[], relay_countries=[], language_tags=[], tags=[])
        cmds = []; many = r.random() < .1
        def flush():
            if cmds:
                for o, c in zip(d.many(cmds), list(cmds)): ctx.check(o.get("r", 0) == 0, "setter", lambda: "%s -> %s" % (c, o), d)
                cmds.clear()
        lean = r.choice([None] * 3 + [.73, .81, .9]) if many else None
        for _ in range(r.choice([0, 1, 3, 10, 30]) if not many else 150):
            k = r.random()
            if lean and r.random() < .8: k = lean
            if k < .3: i = r.randrange(13); v = None if r.random() < .15 else word(); m["str"][STR[i]] = v; cmds.append(["ri.str", i, "-" if v is None else hx(v.encode())])
            elif k < .5:
                i = r.randrange(14); v = i32() if i < 9 else r.randrange(2) if i < 12 else i64(); m["lim"][LIM[i]] = v; cmds.append(["ri.lim", i, v])
            elif k < .58: l = [i32() for _ in range(r.choice([0, 1, 3, 20, 200]))]; m["nips"] = l; cmds.append(["ri.nips", ib(l), "-"])
            elif k < .6: cmds.append(["ri.nips", "-", r.choice([0, 3])]); m["nips"] = []
            elif k < .64 and m["nips"]: a = r.randrange(len(m["nips"])); c = r.randrange(len(m["nips"]) - a + 1); cmds.append(["ri.nips_alias", a, c]); m["nips"] = m["nips"][a:a + c]
            elif k < .72: l = [i32() for _ in range(r.choice([1, 1, 2, 30]))]; m["nips"] = m["nips"] + l; cmds.append(["ri.addnip"] + l)
            elif k < .8: a, t, c = kinds(), i64(), i32(); m["ret"].append((a, t, c)); cmds.append(["ri.ret", ib(a) if a or r.random() < .5 else "-", t, c])
            elif k < .88: i = r.randrange(3) if not lean else 0 if r.random() < .7 else 2; v = word(8); m[LISTS[i]].append(v); cmds.append(["ri.list", i, hx(v.encode())])
            else:
                i = r.randrange(3) if not lean else 2 if r.random() < .7 else 1; a, u, p, kk = u64(), (None if r.random() < .2 else word(8)), r.choice([0, 1, 2592000, 2**31, 2**32 - 1]), kinds()
                m[FEES[i]].append((a, u, p, kk)); cmds.append(["ri.fee", i, a, "-" if u is None else hx(u.encode()), p, ib(kk) if kk else "-"])
            if r.random() < .1: flush(); check(d, m)
        flush(); check(d, m)
        if r.random() < .5: o = d.cmd("ri.free"); ctx.check(o["zero"] == 1, "free", "%s" % o, d)
    def check(d, m):
        o = d.cmd("ri.nipsget"); ctx.check(o["v"] == m["nips"], "nips", lambda: "%s expected %s" % (o, m["nips"]), d)
        for op, want in (("ri.ser", document(m)), ("ri.limser", limits(m["lim"]))):
            o = d.cmd(op, 3000000, 1); what = lambda: "%s %s expected %s" % (op, o, json.dumps(want))
            ctx.seen((op, json.dumps(want)), None); ctx.count(op)
            if not ctx.check(o["r"] == 0 and o["nul"] == 1, "serialize", what, d): continue
            b = bytes.fromhex(o["s"]); ctx.check(o["len"] == len(b), "length", what, d)
            try: got = parse(b)
            except (ValueError, Bad) as x: ctx.check(False, "not-json", lambda: "%s: %r" % (x, b), d); continue
            bad = [k for k in set(norm(got)) | set(norm(want)) if norm(got).get(k, "absent") != norm(want).get(k, "absent")]
            ctx.check(not bad and json.dumps(norm(got), sort_keys=True) == json.dumps(norm(want), sort_keys=True), "content:" + ",".join(sorted(bad)), lambda: "%s: %r expected %s" % (bad, b, json.dumps(want)), d)
            sizes = [len(b) + 1, len(b), len(b) - 1, 1, 2, r.randrange(1, len(b) + 1), len(b) + r.randrange(2, 50)]
            for sz, q in zip(sizes, d.many([[op, sz, r.randrange(2)] for sz in sizes])):
                ctx.count("fits" if sz > len(b) else "short")
                if sz > len(b): ctx.check(q["r"] == 0 and q["s"] == o["s"] and q.get("len", len(b)) == len(b), "exact-buffer", lambda: "size %d: %s" % (sz, q), d)
                else: ctx.check(q["r"] != 0, "short-buffer", lambda: "size %d of %d: %s" % (sz, len(b), q), d)
    def body(d):
        for i in range(ctx.n(300, 12000)):
            hist(d)
            if i % 100 == 0: d.reset()
        d.reset(); ctx.leaks(d, "relay information")
        o = d.cmd("ri.null"); ctx.check(o["r"] == 0, "null-arguments", "%s" % o, d)
    d = ctx.driver("asan"); ctx.guard(d, body)
