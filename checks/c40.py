"""C40: what the library says about itself (features, backend, version, error names) is true."""
import os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from lib import build
# error codes by number, and a word no correct description of each can do without
ERR = ["success|ok", "key", "event", "signature", "memory", "json", "encod", "connect", "protocol", "not found", "time.?out", "param|argument", "support"]
RERR = ["ok|success", "json", "missing|required", "id", "pubkey|public key", "sig", "created_at|timestamp", "kind", "tag", "content", "mismatch", "verif|mismatch", "future", "expire", "subscription", "filter", "buffer", "memory", "message type", "storage"]
# what the build system offers: options of features that need nothing that is missing here
OPTS = ["NIP05", "NIP10", "NIP13", "NIP18", "NIP25", "NIP26", "NIP49", "NIP51", "NIP57", "NIP65", "RELAY_PROTOCOL", "RELAY", "HD_KEYS", "JSON_ENHANCED", "THREADING"]
TOKEN = {"RELAY_PROTOCOL": "relay-protocol", "HD_KEYS": "hd-keys", "JSON_ENHANCED": "json-enhanced"}
CORE = {"std", "events", "keys", "encoding"}
def token(o): return TOKEN.get(o, o.lower())
def macros(text): return set(re.findall(r"^#define (NOSTR_FEATURE_\w+|HAVE_\w+)", text, re.M))
def enabled(mac): return CORE | {token(x[14:]) for x in mac if x.startswith("NOSTR_FEATURE_") and not x.startswith("NOSTR_FEATURE_CRYPTO") and x[14:] not in ("STD", "EVENTS", "KEYS", "ENCODING")}
def release():
    t = open(os.path.join(build.REPO, "CMakeLists.txt")).read()
    return re.search(r"^project\([^)]*VERSION\s+([0-9.]+)", t, re.M)[1]
def backend_ok(s, mac):
    s = s.lower()
    return ("noscrypt" in s and "secp256k1" not in s) if "HAVE_NOSCRYPT" in mac else ("secp256k1" in s and "noscrypt" not in s and (("no schnorr" not in s) == ("HAVE_SCHNORRSIG_SIGN32" in mac))) if "HAVE_SECP256K1" in mac else not re.search("noscrypt|secp256k1", s)
def run(ctx):
    r = ctx.rng
    ctx.rule = "question about the library's features, backend, version or error names, or a build of the library with a random set of features; distinct by (question, build)"
    ctx.assumptions = ["the release is the one the build system names (project VERSION)", "NIP-04, 17, 44, 46, 47 and 59 need noscrypt, which is not installed: their reporting is checked in the harness's own builds over a stand-in, not in builds made by the build system"]
    def built(d, cfg):
        mac = macros(build.features_header(build.CONFIGS[cfg][3])) | {"NOSTR_FEATURE_STD", "NOSTR_FEATURE_EVENTS", "NOSTR_FEATURE_KEYS"}; on = enabled(mac)
        ns = list(range(-2, 200)) + [0x80000000 - 1, -0x80000000, 1984, 7000, 9802] + [r.randrange(-2**31, 2**31) for _ in range(20)] + [n + 256 * r.randrange(1, 200) for n in (4, 13, 18, 44, 65)]
        for n, o in zip(ns, d.many([["feat", n] for n in ns])):
            ctx.seen((cfg, "nip", n), "NIP-%d in %s" % (n, cfg)); want = 1 if 0 <= n < 100 and "nip%02d" % n in on else 0
            ctx.check(o["r"] == want, "nip-supported", "nip_supported(%d) = %s in a build with %s" % (n, o["r"], sorted(on)), d)
        for _ in range(2):
            l = bytes.fromhex(d.cmd("feat.list")["s"]).decode().split(",") ; ctx.seen((cfg, "list"), "feature list of " + cfg)
            ctx.check(len(l) == len(set(l)) and set(l) == on, "feature-list", "the list names %s, the build has %s" % (sorted(l), sorted(on)), d)
        o = d.cmd("feat.info"); ctx.seen((cfg, "info"), "availability, backend and version of " + cfg)
        for k, t in (("relay", "relay"), ("hd", "hd-keys"), ("json", "json-enhanced"), ("rp", "relay-protocol")): ctx.check(o[k] == int(t in on), "available", "%s available: %s in a build with %s" % (t, o[k], sorted(on)), d)
        ctx.check(backend_ok(bytes.fromhex(o["backend"]).decode(), mac), "backend", "backend %s in a build with %s" % (bytes.fromhex(o["backend"]), sorted(x for x in mac if x.startswith("HAVE"))), d)
        ctx.check(bytes.fromhex(o["version"]).decode() == release(), "version", "version %s, the release is %s" % (bytes.fromhex(o["version"]), release()), d)
        # names of errors
        odd = [-1, -2, 13, 20, 99, 255, 256, 2**31 - 1, -2**31] + [r.randrange(-2**31, 2**31) for _ in range(50)] + [256 * r.randrange(1, 99) + r.randrange(20) for _ in range(20)]
        names = {}
        for n, o in zip(list(range(20)) + odd, d.many([["errstr", n] for n in list(range(20)) + odd])):
            for k, T in (("s", ERR), ("rs", RERR)):
                t = bytes.fromhex(o[k]).decode().lower() if o[k] is not None else ""; ctx.seen((cfg, k, n), "name of error %d" % n)
                if 0 <= n < len(T): ctx.check(re.search(T[n], t) and not re.match("unknown.?(error)?$", t), "error-name", "error %d (%s) is called %r" % (n, "relay protocol" if k == "rs" else "general", t), d); names.setdefault(k, {})[n] = t
                else: ctx.check(bool(t) and "unknown" in t and t not in names[k].values(), "error-name", "%d, which is no error code, is called %r" % (n, t), d)
        for k in names: ctx.check(len(set(names[k].values())) == len(names[k]), "error-name", "two errors of the same name: %s" % names[k], d)
    for cfg in ("asan", "asan-mbed", "shim", "nojson"):
        d = ctx.driver(cfg); ctx.guard(d, built, cfg)
    ctx.close_drivers()
    # libraries made by the build system with a random set of features
    top = os.path.join(build.OUT, "c40-%d" % os.getpid()); os.makedirs(top, exist_ok=True)
    def sh(a, **k): return subprocess.run(a, capture_output=True, text=True, timeout=400, **k)
    def one(i, on, mbed, ty):
        b = os.path.join(top, str(i)); what = "features %s%s" % (sorted(on), ", mbedTLS" if mbed else "")
        p = sh(["cmake", "-S", build.REPO, "-B", b, "-DCMAKE_BUILD_TYPE=" + ty, "-DBUILD_TESTING=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"] + ["-DNOSTR_FEATURE_%s=%s" % (o, "ON" if o in on else "OFF") for o in OPTS] + (["-DNOSTR_CRYPTO_MBEDTLS=ON"] if mbed else []))
        if p.returncode: return "tool", what, p.stdout[-500:] + p.stderr[-2000:]
        p = sh(["cmake", "--build", b, "-j4", "--target", "nostr_static"])
        if p.returncode: return "build", what, p.stdout[-1500:] + p.stderr[-2500:]
        exe = os.path.join(b, "probe"); h = open(os.path.join(b, "include", "nostr_features.h")).read()
        p = sh(["gcc", "-w", "-I" + os.path.join(b, "include"), "-I" + os.path.join(build.REPO, "include"), os.path.join(build.H, "feature_probe.c"), "-Wl,--whole-archive", os.path.join(b, "libnostr.a"), "-Wl,--no-whole-archive", "-o", exe, "-lsecp256k1", "-lssl", "-lcrypto", "-lmbedcrypto", "-lcjson", "-lutf8proc", "-lwebsockets", "-lpthread", "-lm"])
        if p.returncode: return "link", what, p.stderr[-2500:]
        p = sh([exe]); shutil.rmtree(b, ignore_errors=True)
        return "ran", what, (p.returncode, p.stdout, p.stderr[-1500:], macros(h))
    try:
        jobs = []
        for i in range(ctx.n(6, 60)):
            q = r.choice([0.15, 0.5, 0.5, 0.85]) ; on = {o for o in OPTS if r.random() < q}
            if i == 0: on = set()
            if i == 1: on = set(OPTS)
            if "RELAY" in on: on.add("JSON_ENHANCED")               # the build system insists
            jobs.append((i, frozenset(on), i > 1 and r.random() < 0.3, r.choice(["Release", "Debug"])))
        with ThreadPoolExecutor(4) as ex: res = list(ex.map(lambda j: (j, one(*j)), jobs))
        for (i, on, mbed, ty), (st, what, o) in res:
            if st == "tool": raise RuntimeError("cmake: %s: %s" % (what, o))
            ctx.seen(("built", on, mbed, ty), what)
            if not ctx.check(st == "ran", "configuration-" + st, "a library with %s does not %s:\n%s" % (what, st, o)): continue
            rc, out, err, mac = o; ctx.count("libraries_built"); want = CORE | {token(x) for x in on}
            if not ctx.check(rc == 0, "configuration-crash", "probe of %s: exit %d %s\n%s" % (what, rc, err, out)): continue
            ls = out.splitlines(); l = [x[5:].split(",") for x in ls if x.startswith("list ")]
            ctx.check(enabled(mac) == want, "configured", "asked for %s, the header has %s" % (sorted(want), sorted(enabled(mac))))
            for x in l: ctx.check(sorted(x) == sorted(want), "feature-list", "%s: listed as %s" % (what, sorted(x)))
            nips = {int(x.split()[1]): int(x.split()[2]) for x in ls if x.startswith("nip ")}
            ctx.check(nips == {int(t[3:]): 1 for t in want if t.startswith("nip")}, "nip-supported", "%s: NIPs reported %s" % (what, nips))
            av = {x.split()[1]: int(x.split()[2]) for x in ls if x.startswith("avail ")}
            ctx.check(av == {t: int(t in want) for t in av} and len(av) == 4, "available", "%s: available %s" % (what, av))
            w = {x.split()[1]: int(x.split()[2]) for x in ls if x.startswith("works ")}
            for t in want - {"threading"}: ctx.check(w.get(t) == 1, "feature-works", "%s: %s is reported and does not work" % (what, t)); ctx.count("features_tried")
            bk = [x[8:] for x in ls if x.startswith("backend ")]
            ctx.check(len(bk) == 1 and backend_ok(bk[0], mac), "backend", "%s: backend %s in a build with %s" % (what, bk, sorted(x for x in mac if x.startswith("HAVE"))))
            v = [x[8:] for x in ls if x.startswith("version ")]
            ctx.check(v == ([release()] if "relay-protocol" in want else []), "version", "%s: version %s, the release is %s" % (what, v, release()))
    finally: shutil.rmtree(top, ignore_errors=True)
