"""C21: filter objects: JSON, validation, clone, accessors."""
import json, re
from lib import gen
from lib.drv import hx, hl
from checks import c20
from checks.c03 import jtext, lenient
from checks.c18 import Pairs
def lax(o):
    """an integral float, which a JSON reader may take for the integer"""
    return isinstance(o, float) and abs(o) < 1e300 and o == int(o)
def read(b):
    """(outcome, filter) with outcome 'ok', 'bad', 'either' (exact or refused) or None (not judged)"""
    if b"\0" in b: return ("bad", None)
    try: s = b.decode("utf-8")
    except UnicodeDecodeError: return (None, None)
    try: o = json.loads(s, object_pairs_hook=Pairs, parse_constant=lambda x: 1 / 0, strict=True)
    except RecursionError: return (None, None)
    except (ValueError, ZeroDivisionError): return (None if lenient(b) else "bad", None)
    if any(0xd800 <= ord(c) < 0xe000 for c in json.dumps(o, ensure_ascii=False)): return (None, None)
    return interpret(o, b)
def interpret(o, b=b""):
    w, f = members_of(o)
    # a number spelled with very many digits may be refused
    if w == "ok" and LONGNUM.search(b): w = "either"
    return (w, f)
LONGNUM = re.compile(rb'(?<!["0-9a-zA-Z])[-0-9][0-9eE+.-]{59}')
def members_of(o):
    if not isinstance(o, Pairs): return ("bad", None)
    f = dict(ids=[], authors=[], kinds=[], e=[], p=[], since=0, until=0, limit=0, search=None, generic=[], empty=[])
    seen = set(); either = False
    integer = lambda v: isinstance(v, int) and not isinstance(v, bool)
    for k, v in o:
        known = k in ("ids", "authors", "kinds", "since", "until", "limit", "search") or re.fullmatch(r"#[A-Za-z]", k)
        if not known:
            if "\0" in str(k) or "\\u0000" in json.dumps(v): return (None, None)
            continue
        if k in seen: return (None, None)
        seen.add(k)
        if k in ("since", "until", "limit"):
            if lax(v): return (None, None)
            if not integer(v): return ("bad", None)
            if k == "limit":
                if not -2**31 <= v < 2**31: return ("bad", None)
            elif not -2**63 <= v < 2**63: return ("bad", None)
            elif abs(v) > 2**53 - 1: either = True
            if v < 0: either = True
            f[k] = v
        elif k == "search":
            if not isinstance(v, str) or "\0" in v: return ("bad", None)
            f[k] = v.encode()
            if len(f[k]) > 65536: return ("bad", None)
        else:
            if not isinstance(v, list) or isinstance(v, Pairs) or len(v) > 256: return ("bad", None)
            if k == "kinds":
                if any(lax(x) for x in v): return (None, None)
                if not all(integer(x) and -2**31 <= x < 2**31 for x in v): return ("bad", None)
                either |= any(not 0 <= x <= 65535 for x in v); f[k] = list(v)
            else:
                if not all(isinstance(x, str) and "\0" not in x for x in v): return ("bad", None)
                v = [x.encode() for x in v]
                if k in ("ids", "authors"): f[k] = v
                elif k in ("#e", "#p"): f[k[1]] = v
                elif v: f["generic"].append((k[1], v))
                else: f["empty"].append(k[1])
    return ("either" if either else "ok", f)
def differs(got, f):
    """first member of the read-back filter that is not as expected"""
    hexl = lambda l: [x.hex() for x in l]
    for k in ("ids", "authors", "e", "p"):
        if got[k] != hexl(f[k]): return k
    for k in ("kinds", "since", "until", "limit"):
        if got[k] != f[k]: return k
    if got["search"] != (None if f["search"] is None else f["search"].hex()): return "search"
    if [(chr(g["l"]), g["v"]) for g in got["generic"] if g["v"]] != [(l, hexl(v)) for l, v in f["generic"]]: return "generic"
    if {k: v for k, v in got["letters"].items()} != {l: hexl(v) for l, v in f["generic"] + [(x, f[x]) for x in "ep" if f[x]]}: return "tag values"
    if got["hassearch"] != int(bool(f["search"])): return "has_search"
    if not f["empty"] and got["hastags"] != int(bool(f["generic"] or f["e"] or f["p"])): return "has_tag_filters"
    if not got["raw"]: return "accessor"
    return None
def flat(f):
    """c20-style structure filter -> the form used here"""
    return dict(ids=f["ids"], authors=f["authors"], kinds=f["kinds"], e=f["tags"].get("e", []), p=f["tags"].get("p", []), since=f["since"], until=f["until"], limit=f["limit"], search=f["search"],
                generic=[(l, v) for l, v in f["tags"].items() if l not in "ep"], empty=[])
def valid(f):
    """set of reasons validation must refuse"""
    bad = set()
    if not all(re.fullmatch(rb"[0-9a-f]{1,64}", x) for x in f["ids"]): bad.add("ids")
    if not all(re.fullmatch(rb"[0-9a-f]{1,64}", x) for x in f["authors"]): bad.add("authors")
    if not all(re.fullmatch(rb"[0-9a-f]{64}", x) for x in f["e"]): bad.add("#e")
    if not all(re.fullmatch(rb"[0-9a-f]{64}", x) for x in f["p"]): bad.add("#p")
    if f["search"] is not None and len(f["search"]) > 65536: bad.add("search")
    return bad
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
def rstr(r): return gen.text(r, 30).decode("utf-8", "replace").replace("\ufffd", "?")
def rid(r):
    k = r.random()
    if k < .7: return gen.hexid(r).decode()
    if k < .85: return gen.hexid(r).decode()[:r.choice([1, 2, 10, 63])]
    return r.choice(["", "g" * 64, gen.hexid(r).decode().upper(), gen.hexid(r).decode() + "0", gen.hexid(r).decode()[:63] + "x", " " + gen.hexid(r).decode()[1:], rstr(r)])
def members(r, good=False):
    """random filter members; `good`: only such that validation accepts"""
    def lst(g):
        if not good and r.random() < .05:
            n = r.choice([20, 52, 64, 101, 129, 200, 256]); v = [gen.hexid(r).decode() if g in (hid, pre) else g() for _ in range(n)]; v[r.choice([n - 1, r.randrange(n)])] = gen.hexid(r).decode()[:63] + "x" if g in (hid, pre) and r.random() < .5 else g(); return v
        return [g() for _ in range(r.choice([0, 1, 1, 2, 3, 5]) if not r.random() < .03 else r.choice([255, 256] if good else [255, 256, 257, 300]))]
    hid = lambda: gen.hexid(r).decode() if good or r.random() < .85 else rid(r)
    pre = lambda: gen.hexid(r).decode()[:r.choice([64, 64, 1, 2, 32, 63])] if good else rid(r)
    o = {}
    if r.random() < .4: o["ids"] = lst(pre)
    if r.random() < .4: o["authors"] = lst(pre)
    if r.random() < .5: o["kinds"] = lst(lambda: gen.kind(r))
    if r.random() < .4: o["#e"] = lst(hid)
    if r.random() < .4: o["#p"] = lst(hid)
    for l in r.sample(LETTERS, r.choice([0, 0, 1, 2, 4]) if r.random() < .95 else r.choice([15, 30, 52])):
        if l not in "ep": o["#" + l] = lst(lambda: rstr(r))
    if r.random() < .4: o["since"] = gen.created(r)
    if r.random() < .4: o["until"] = gen.created(r)
    if r.random() < .4: o["limit"] = r.choice([0, 1, 100, 5000, 2**31 - 1])
    if r.random() < .3: o["search"] = rstr(r) if r.random() < .9 else "s" * r.choice([65535, 65536] if good else [65535, 65536, 65537])
    if r.random() < .15: o[r.choice(["x", "IDS", "Kinds", "#", "#ee", "#1", "#-", "#é", "Since", "tags", "&t"])] = r.choice([1, None, ["a"], {"ids": ["x"]}, "y"])
    return o
BAD = [None, True, False, 1, -1, 1.5, 2**31, -2**31, -2**31 - 1, 2**53 - 1, 2**53, 2**63, 2**64, 10**400, 1e300, "", "1", [], {}, [1], [None], ["a", 1], [["a"]], [1.5], [2**31], [-2**31 - 1], [2**32 + 1], [1, "1"], [70000], [-1], {"0": "a"}, ["a\0b"], "a\0b"]
def spoil(r, o):
    o = dict(o); k = r.choice(list(o) or ["kinds"]) if r.random() < .8 else r.choice(["ids", "authors", "kinds", "#e", "#p", "#t", "#E", "since", "until", "limit", "search"])
    m = r.random()
    if m < .75: o[k] = r.choice(BAD)
    elif m < .85: v = o.pop(k, 1); o[k.swapcase()] = v
    else: return Pairs(list(o.items()) + [(k, r.choice(BAD))])
    return o
def run(ctx):
    r = ctx.rng
    ctx.rule = "filter JSON text, validation, clone or structure read-back; outcome predicted by Python's json and an independent reading of the filter members; distinct by (operation, text or filter)"
    def parses(d, texts):
        out = d.many([["fl.parse", 1, hx(t), r.randrange(4) if b"\0" not in t and t else 2 * r.randrange(2)] for t in texts if t])
        for t, o in zip([t for t in texts if t], out):
            want, f = read(t)
            if want is None: ctx.count("not_judged"); continue
            ctx.seen(("parse", t), t); ctx.count("parse_" + want)
            if o["r"]: ctx.check(want != "ok", "refused", lambda: "%r refused: %s" % (t[:1500], o), d)
            else:
                if ctx.check(want != "bad", "accepted", lambda: "%r read as %s" % (t[:1500], o), d):
                    x = differs(o["f"], f); ctx.check(x is None, "reads:%s" % x, lambda: "%r: %s is wrong in %s" % (t[:1500], x, o), d)
    def body(d):
        for i in range(ctx.n(220, 4000)):
            texts = []
            for _ in range(12):
                o = members(r); k = r.random()
                if k < .35: o = spoil(r, o)
                its = list(o.items()); r.shuffle(its)
                t = jtext(r, Pairs(its)).encode("utf-8", "surrogatepass")
                if k > .85: t = gen.mutate(r, t, b'{}[]",:#e0123456789.- \\u00')
                elif k > .8: t = r.choice([t + b"x", t + b"]", t + b" {}", b"[" + t + b"]", t + b"\0", t[:-1], b" " + t + b" \n\t", t.replace(b'"', b"'", 1), t + t, b"\xef\xbb\xbf" + t, b"null", b"1", b'"a"', b"[]", b"true", b"", b" ", b'{"ids":["\\u00zz"]}', b'{"#t":["a\\u0000b"]}', b'{"#t":["\\u00"]}', b'{"#t":["\\\\u0000"]}', b'{"#t":["x\\'])
                texts.append(t)
            parses(d, texts)
        # structures: read back, validation, clone
        c = c20
        for i in range(ctx.n(800, 12000)):
            o = members(r, r.random() < .5)
            w, f = interpret(Pairs(list(o.items())))
            if f is None: continue
            g = dict(ids=f["ids"], authors=f["authors"], kinds=f["kinds"], since=f["since"], until=f["until"], limit=f["limit"], search=f["search"], tags={l: v for l, v in f["generic"]}); g["tags"].update({x: f[x] for x in "ep" if f[x]})
            f = flat(g)
            if r.random() < .02: f["search"] = g["search"] = b"s" * 65537
            a, b, v, cl = d.many([c.build(2, g), ["fl.get", 2], ["fl.validate", 2], ["fl.clone", 3, 2]])
            ctx.seen(("struct", repr(g)))
            x = differs(b["f"], f); ctx.check(x is None, "readback:%s" % x, lambda: "%s: %s" % (g, b), d)
            bad = valid(f); ctx.count("valid" if not bad else "invalid")
            ctx.check((v["r"] == 0) == (not bad) and v["valid"] == int(not bad) and v["code"] == v["r"] and (not bad or bytes.fromhex(v["field"]).decode() in bad) and v["msg"], "validate", lambda: "%s: %s expected %s" % (g, v, bad or "valid"), d)
            ctx.check(cl["r"] == 0 and differs(cl["f"], f) is None, "clone", lambda: "%s: %s" % (g, cl), d)
            d.cmd("fl.clone", 4, 3)
            for victim, keep in r.sample([(2, 3), (3, 2), (4, 3)], 3)[:1]:
                d.cmd("fl.scribble", victim); x = d.cmd("fl.get", keep)["f"]
                ctx.check(differs(x, f) is None, "clone-shares", lambda: "after overwriting the other copy: %s expected %s" % (x, f), d)
                d.cmd("fl.free", victim); x = d.cmd("fl.get", keep)["f"]
                ctx.check(differs(x, f) is None, "clone-shares-memory", lambda: "after freeing the other copy: %s expected %s" % (x, f), d)
                e = d.cmd("fl.get", victim)["f"]; ctx.check(not e["ids"] and not e["hastags"] and e["search"] is None, "free-leaves", "%s" % e, d)
            if i % 200 == 0: d.reset()
        ctx.check(d.cmd("fl.null")["r"] == 0, "null-arguments", "see fl.null", d)
        d.reset(); ctx.leaks(d, "filters")
    d = ctx.driver("asan"); ctx.guard(d, body)
