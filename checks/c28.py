"""C28: configuration histories against a sequential model."""
import random
from lib import drv
from lib.drv import hx
DEF = [1, 65535, 100, 3600, 32, 65536, 100, 50, 30000, 10000, 44, 0, 0]
RNG = [(1, 65535), (None, 65535), (1, 10000), (60, 86400), (1, 1000), (1024, 1048576), (1, 1000), (1, 1000), (1000, 300000), (1000, 300000), None, (0, 1), (0, 1)]
ENV = ["NIP44_MIN_SIZE", "NIP44_MAX_SIZE", "MAX_SESSIONS", "SESSION_TIMEOUT", "MAX_PERMISSIONS", "MAX_CONTENT_SIZE", "MAX_TAGS", "MAX_TAG_VALUES", "RELAY_CONNECT_TIMEOUT", "RELAY_RESPONSE_TIMEOUT", "ENCRYPTION_DEFAULT", "SECURE_MEMORY_LOCK", "DEBUG"]
NAMES = ["nip44_min", "nip44_max", "max_sessions", "session_timeout", "max_permissions", "max_content_size", "max_tags", "max_tag_values", "connect_timeout", "response_timeout", "encryption_default", "secure_memory_lock", "debug"]
def valid(c):
    for i, x in enumerate(c):
        if i == 10:
            if x not in (4, 44): return False
        else:
            lo, hi = RNG[i]
            if i == 1: lo = c[0]
            if not lo <= x <= hi: return False
    return True
def edge(r, i):
    if i == 10: return r.choice([4, 44, 0, 5, 43, 45, -4, 440])
    lo, hi = RNG[i]; lo = lo or 1
    if i == 1 and r.random() < .4: return r.randrange(1, r.choice([3, 40, 400, 60000]))
    if i >= 10: return r.choice([0, 1, 0, 1, 2, -1, 2**31 - 1, -2**31])
    return r.choice([lo, hi, lo - 1, hi + 1, lo + 1, hi - 1, 0, 2**32 - 1, 2**31, 60000, 60001, r.randrange(lo, hi + 1), r.randrange(lo, hi + 1)])
def cfg(r, good=None):
    while True:
        c = list(DEF)
        for i in range(13):
            if r.random() < .35:
                c[i] = edge(r, i)
                if good and not valid(c): c[i] = DEF[i]
        if good is None or valid(c) == good: return c
def run(ctx):
    r = ctx.rng
    ctx.rule = "configuration call (validate, environment load, init, update, callback) whose result, notification and visible configuration are compared with a sequential model; distinct by call and state"
    def pure(d):
        o = d.cmd("cfg.defaults"); ctx.check(o["r"] == 0 and o["c"] == DEF and valid(DEF), "defaults", "%s" % o, d)
        cmds = []; cs = []
        for i in range(13):
            vals = {0, 1, 2, 2**31 - 1} | ({2**32 - 1, 2**31} if i < 10 else {-1, -2**31})
            if RNG[i]:
                lo, hi = RNG[i]; lo = lo or 1; vals |= {lo - 1 if lo or i >= 11 else 0, lo, lo + 1, hi - 1, hi, hi + 1, (lo + hi) // 2, 59, 60, 60000, 60001, 299999, 86399}
            else: vals |= set(range(0, 60)) | {-4, -44}
            for x in vals:
                if i < 10 and x < 0: continue
                c = list(DEF); c[i] = x; cs.append(c)
        for _ in range(ctx.n(1500, 20000)): cs.append(cfg(r, None))
        for lo in (1, 2, 65534, 65535):
            for hi in (lo - 1, lo, lo + 1, 65535, 65536): c = list(DEF); c[0], c[1] = lo, hi; cs.append(c)
        for c, o in zip(cs, d.many([["cfg.validate"] + c for c in cs])):
            ctx.seen(("v", tuple(c)), c); ctx.count("validate_%s" % valid(c))
            ctx.check((o["r"] == 0) == valid(c), "validate:" + ",".join(NAMES[i] for i in range(13) if c[i] != DEF[i])[:60], "validate(%s)=%s expected %s" % (c, o["r"], valid(c)), d)
        GOOD = ["0", "1", "4", "44", "007", "0100", "010", "08", "0065535", "0000000000000000000000044", "100", "4294967295", "65535", "12345", "2147483647"]
        BAD = ["", " ", "abc", "1x", "x1", "1.5", "1e3", "0x10", "99999999999999999999999", "4294967296", "18446744073709551616", "18446744073709551617", " 5", "5 ", "+5", "--1", "1,000", "-", "\t7", "-18446744073709551615", "\u0663"]
        for _ in range(ctx.n(1500, 15000)):
            base = cfg(r, None); want = list(base); args = []; amb = set()
            for i in r.sample(range(13), r.choice([1, 1, 2, 5, 13])):
                x = r.choice(GOOD + BAD + (["2147483648", "4294967295"] if i < 10 else [])) if r.random() < .8 else str(r.randrange(2**32 if i < 10 else 2**31))
                args += [hx("NOSTR_" + ENV[i]), hx(x)]
                lim = 2**32 - 1 if i < 10 else 2**31 - 1
                if x.isascii() and x.isdigit() and int(x) <= lim: want[i] = int(x)
            if r.random() < .3: args += [hx(r.choice(["NOSTR_MAX_TAG", "nostr_max_tags", "MAX_TAGS", "NOSTR_MAX_TAGS_", "NOSTR_SESSIONS"])), hx("7")]
            o = d.cmd("cfg.env", *base, *args)
            ctx.seen(("e", tuple(base), tuple(args))); ctx.count("environment_loads")
            bad = [NAMES[i] for i in range(13) if o["c"][i] != want[i]]
            ctx.check(o["r"] == 0 and not bad, "env:" + ",".join(bad)[:60], lambda: "environment %s over %s gave %s, expected %s" % ([bytes.fromhex(a[1:]).decode() for a in args], base, o["c"], want), d)
    d = d0 = ctx.driver(); ctx.guard(d, pure)
    def hist(d, seed):
        r = random.Random(seed); cur = None; mode = 0; ud = 0x11; envv = {}
        if r.random() < .5:
            # start from the environment: mostly one setting, in or out of its range
            for i in r.sample(range(13), r.choice([1, 1, 1, 2, 3])):
                x = edge(r, i)
                if x >= 0: envv[i] = x; d.cmd("cfg.setenv", hx("NOSTR_" + ENV[i]), hx(str(x)))
            o = d.cmd("cfg.init", "-"); w = [envv.get(i, DEF[i]) for i in range(13)]; ctx.seen((seed, "init-env"), "environment %s" % w); ctx.count("init_from_environment")
            ctx.check((o["r"] == 0) == valid(w), "init-null", "init from environment %s gave %s" % (w, o), d)
            if valid(w): cur = w
            o = d.cmd("cfg.current"); ctx.check(o["c"] == (cur or []), "current", "current %s expected %s" % (o["c"], cur), d)
        for step in range(r.randrange(3, 25)):
            k = r.random()
            if k < .22:
                c = None if r.random() < .3 else cfg(r, r.choice([True, True, False]))
                o = d.cmd("cfg.init", *(c or ["-"])); ctx.seen((seed, step, "init")); ctx.count("init")
                if cur is not None: ctx.check(o["r"] == 0, "reinit", "%s" % o, d)
                elif c is None:
                    w = list(DEF)
                    for i, x in envv.items(): w[i] = x
                    ctx.check((o["r"] == 0) == valid(w), "init-null", "init from environment %s gave %s" % (w, o), d)
                    if valid(w): cur = w
                else:
                    ctx.check((o["r"] == 0) == valid(c), "init", "init(%s)=%s" % (c, o["r"]), d)
                    if valid(c): cur = c
            elif k < .4:
                mode = r.choice([0, 1, 1, 2, 3, 4, 5]); nest = cfg(r, r.choice([True, False])); o = d.cmd("cfg.cb", mode, *nest); ctx.check(o["r"] == 0, "set-callback", "%s" % o, d); ud = 0x11; nd = False
            elif k < .47: d.cmd("cleanup")
            elif k < .52: d.cmd("init")
            elif k < .6 and cur is None:
                i = r.randrange(13); x = edge(r, i)
                if x >= 0: envv[i] = x; d.cmd("cfg.setenv", hx("NOSTR_" + ENV[i]), hx(str(x)))
            else:
                same = cur is not None and r.random() < .15
                c = cur if same else None if r.random() < .06 else cfg(r, r.choice([True, True, False]))
                o = d.cmd("cfg.update", *(["cur"] if same else c or ["-"])); ctx.seen((seed, step, "update", mode), "update %s callback mode %d" % (c, mode)); ctx.count("update")
                ok = cur is not None and c is not None and valid(c)
                ctx.check((o["r"] == 0) == ok, "update", "update(%s) while %s = %s" % (c, cur, o), d)
                exp = []
                if ok:
                    old, cur = cur, list(c)
                    if mode:
                        e = dict(o=old, n=list(c), ud=ud, nr=-1, cur=list(c) if mode >= 2 else [])
                        exp.append(e)
                        if mode == 3: ud = 0x22; mode = 1 if False else 3
                        if mode == 5: mode = 0
                        if mode == 4 and not nd:
                            nd = True; e["nr"] = 0 if valid(nest) else 1
                            if valid(nest): exp.append(dict(o=list(c), n=list(nest), ud=ud, nr=-1, cur=list(nest))); cur = list(nest)
                    ctx.count("notifications", len(exp))
                lg = o["log"]
                for e in lg: e["nr"] = e["nr"] if e["nr"] <= 0 else 1
                for e in lg: e["nr"] = -1 if e["nr"] == -1 else e["nr"]
                ctx.check(norm(lg) == norm(exp), "notification", lambda: "callback log %s expected %s" % (lg, exp), d)
            o = d.cmd("cfg.current")
            if not ctx.check(o["c"] == (cur or []), "current", "current %s expected %s" % (o["c"], cur), d): return
            if cur: ctx.check(d.cmd("cfg.validate", *o["c"])["r"] == 0, "current-invalid", "%s" % o, d)
    def norm(l): return [(e["o"], e["n"], e["ud"], e["cur"], bool(e["nr"] == 0)) for e in l]
    for i in range(ctx.n(150, 1800)):
        d = drv.Driver("asan"); ctx.drivers.append(d)
        if ctx.guard(d, hist, "%s/%d" % (ctx.seed, i)): pass
        n = d.total; d.kill(); ctx.drivers.remove(d); d0.total += n
    ctx.count("processes", ctx.n(150, 1800))
