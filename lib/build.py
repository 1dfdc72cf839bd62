"""Builds instrumented programs from the *current* working tree of /repo."""
import hashlib, os, re, subprocess, glob, concurrent.futures as cf, threading, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

class BuildError(Exception):
    pass

CORE = ("event key utils config features bech32 nip21 relay nip05 nip10 nip13 nip18 nip25 nip26 nip49 nip51 zap nip65 "
        "hd_key relay_protocol relay_filter relay_message relay_nip11").split()
NOSCRYPT_ONLY = "nip17 nip44 nip46 nip47 nip47_session nip47_commands nip59".split()
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CONFIGS = {
    # name: (cc, cflags, ldflags, features)
    "asan":      ("clang", ["-O1", "-g", "-DVF_ASAN"] + SAN, SAN, ()),
    "asan-mbed": ("clang", ["-O1", "-g", "-DVF_ASAN", "-DVF_MBEDTLS"] + SAN, SAN, ("mbed",)),
    "tsan":      ("clang", ["-O1", "-g", "-DVF_NOCOUNT", "-DVF_TSAN", "-fsanitize=thread"], ["-fsanitize=thread"], ()),
    "tsan-mbed": ("clang", ["-O1", "-g", "-DVF_NOCOUNT", "-DVF_TSAN", "-DVF_MBEDTLS", "-fsanitize=thread"], ["-fsanitize=thread"], ("mbed",)),
    "par":       ("clang", ["-O1", "-g", "-DVF_NOCOUNT", "-DVF_TSAN", "-DVF_PAR", "-fsanitize=thread"], ["-fsanitize=thread"], ()),
    "par-mbed":  ("clang", ["-O1", "-g", "-DVF_NOCOUNT", "-DVF_TSAN", "-DVF_PAR", "-DVF_MBEDTLS", "-fsanitize=thread"], ["-fsanitize=thread"], ("mbed",)),
    "par-asan":  ("clang", ["-O1", "-g", "-DVF_NOCOUNT", "-DVF_ASAN", "-DVF_PAR"] + SAN, SAN, ()),
    "plain":     ("gcc", ["-O2", "-g"], [], ()),
    "plain-mbed": ("gcc", ["-O2", "-g", "-DVF_MBEDTLS"], [], ("mbed",)),
    "fuzz":      ("clang", ["-O1", "-g", "-DVF_ASAN", "-DVF_FUZZ", "-fsanitize=fuzzer-no-link"] + SAN, SAN + ["-fsanitize=fuzzer"], ()),
    "shim":      ("clang", ["-O1", "-g", "-DVF_ASAN", "-DVF_SHIM", "-I" + os.path.join(H, "noscrypt_shim")] + SAN, SAN, ("shim",)),
    "shim-mbed": ("clang", ["-O1", "-g", "-DVF_ASAN", "-DVF_SHIM", "-DVF_MBEDTLS", "-I" + os.path.join(H, "noscrypt_shim")] + SAN, SAN, ("shim", "mbed")),
    "fuzz-shim": ("clang", ["-O1", "-g", "-DVF_ASAN", "-DVF_FUZZ", "-DVF_SHIM", "-I" + os.path.join(H, "noscrypt_shim"), "-fsanitize=fuzzer-no-link"] + SAN, SAN + ["-fsanitize=fuzzer"], ("shim",)),
    "plain-shim": ("gcc", ["-O2", "-g", "-DVF_SHIM", "-I" + os.path.join(H, "noscrypt_shim")], [], ("shim",)),
    "shim-tsan": ("clang", ["-O1", "-g", "-DVF_NOCOUNT", "-DVF_TSAN", "-DVF_SHIM", "-I" + os.path.join(H, "noscrypt_shim"), "-fsanitize=thread"], ["-fsanitize=thread"], ("shim",)),
    # secrets: the library is compiled as a user compiles it (the compiler sees the real malloc/free/memset); calls are redirected by the linker
    "sec":       ("gcc", ["-O2", "-g", "-DVF_SEC"], [], ("wrap",)),
    "sec-o0":    ("gcc", ["-O0", "-g", "-DVF_SEC"], [], ("wrap",)),
    "sec-clang": ("clang", ["-O2", "-g", "-DVF_SEC"], [], ("wrap",)),
    "sec-mbed":  ("gcc", ["-O2", "-g", "-DVF_SEC", "-DVF_MBEDTLS"], [], ("wrap", "mbed")),
    "sec-shim": ("gcc", ["-O2", "-g", "-DVF_SEC", "-DVF_SHIM", "-I" + os.path.join(H, "noscrypt_shim")], [], ("wrap", "shim")),
    # everything optional left out: no cJSON, relay client, utf8proc or threads
    "nojson":    ("clang", ["-O1", "-g", "-DVF_ASAN", "-DVF_NOJSON"] + SAN, SAN, ("nojson",)),
}

def features_header(feats):
    src = open(os.path.join(REPO, "include", "nostr_features.h.in")).read()
    on = {"NOSTR_FEATURE_" + x for x in ("NIP05 NIP10 NIP13 NIP18 NIP25 NIP26 NIP49 NIP51 NIP57 NIP65 RELAY RELAY_PROTOCOL "
          "HD_KEYS JSON_ENHANCED THREADING CRYPTO_SECP256K1").split()}
    on |= {"HAVE_SECP256K1", "HAVE_CJSON", "HAVE_LIBWEBSOCKETS", "HAVE_UTF8PROC", "HAVE_SCHNORRSIG_SIGN32"}
    if "mbed" in feats: on.add("HAVE_MBEDTLS")
    if "shim" in feats:
        on |= {"NOSTR_FEATURE_" + x for x in "NIP04 NIP17 NIP44 NIP46 NIP47 NIP59 CRYPTO_NOSCRYPT".split()} | {"HAVE_NOSCRYPT"}
    if "nojson" in feats: on -= {"NOSTR_FEATURE_JSON_ENHANCED", "HAVE_CJSON", "NOSTR_FEATURE_RELAY", "HAVE_LIBWEBSOCKETS", "HAVE_UTF8PROC", "NOSTR_FEATURE_THREADING"}
    src = re.sub(r"#cmakedefine (\w+)", lambda m: "#define " + m[1] if m[1] in on else "/* #undef %s */" % m[1], src)
    return src.replace("@NOSTR_FEATURE_ENCODING@", "ON")

WRAPPED = ("malloc calloc realloc free strdup strndup time RAND_bytes RAND_priv_bytes getrandom getentropy "
           "mbedtls_ctr_drbg_random mbedtls_ctr_drbg_seed").split()
_lock = threading.Lock()
def _cat(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def _compile(cc, flags, src, objdir, dep):
    key = hashlib.sha256(("\0".join([cc] + flags + [src, dep])).encode() + open(src, "rb").read()).hexdigest()[:32]
    obj = os.path.join(objdir, os.path.basename(src)[:-2] + "-" + key + ".o")
    if os.path.exists(obj): return obj
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    p = subprocess.run([cc, "-std=gnu99", "-w", "-c"] + flags + [src, "-o", tmp], capture_output=True, text=True)
    if p.returncode: raise BuildError("compile %s failed:\n%s" % (src, p.stderr[-4000:]))
    os.replace(tmp, obj)
    return obj

TRAMP = """.globl __wrap_FUNC
.type __wrap_FUNC,@function
__wrap_FUNC:
  push %rbp
  mov %rsp,%rbp
  mov vf_alt_lo(%rip),%r10
  cmp %r10,%rsp
  jb 1f
  cmp vf_alt_hi(%rip),%rsp
  jae 1f
  pop %rbp
  jmp __real_FUNC
1: mov vf_alt_hi(%rip),%rsp
  sub $256,%rsp
  .irp i,0,8,16,24,32,40,48,56,64,72,80,88
  mov 16+\\i(%rbp),%r10
  mov %r10,\\i(%rsp)
  .endr
  call __real_FUNC
  mov %rbp,%rsp
  pop %rbp
  ret
.size __wrap_FUNC,.-__wrap_FUNC
"""
FOREIGN = ["secp256k1", "crypto", "utf8proc"]
def foreign(objs, feats, others=()):
    """functions the library's objects take from the crypto libraries (and from noscrypt's stand-in)"""
    p = subprocess.run(["nm", "-u"] + objs, capture_output=True, text=True)
    used = set(re.findall(r"^ +U (\w+)$", p.stdout, re.M))
    have = set()
    for l in FOREIGN + (["mbedcrypto"] if "mbed" in feats else []):
        f = subprocess.run(["gcc", "-print-file-name=lib%s.so" % l], capture_output=True, text=True).stdout.strip()
        q = subprocess.run(["nm", "-D", "--defined-only", f], capture_output=True, text=True)
        have |= {m for m in re.findall(r" [TWi] (\w+)(?:@\S+)?$", q.stdout, re.M)}
    if others: have |= set(re.findall(r"^[0-9a-f]+ T (NC\w+)$", subprocess.run(["nm"] + list(others), capture_output=True, text=True).stdout, re.M))
    return sorted((used & have) - set(WRAPPED))

def lib_sources(feats):
    names = list(CORE)
    if "shim" in feats: names += NOSCRYPT_ONLY
    if "nojson" in feats: names = [n for n in names if n != "relay"]
    paths = [os.path.join(REPO, "src", n + ".c") for n in names]
    # sources added to /repo later (e.g. by a refactoring) are linked too
    known = set(CORE) | set(NOSCRYPT_ONLY)
    paths += [p for p in sorted(glob.glob(os.path.join(REPO, "src", "*.c"))) if os.path.basename(p)[:-2] not in known]
    return [p for p in paths if os.path.exists(p)]

def build(config, prog, sources, extra_c=(), extra_ld=(), lws_stub=True, interpose=True):
    """Link program `prog` from harness `sources` plus all library sources under `config`."""
    cc, cflags, ldflags, feats = CONFIGS[config]
    objdir = os.path.join(OUT, config); inc = os.path.join(objdir, "include")
    os.makedirs(inc, exist_ok=True)
    fh = features_header(feats); fp = os.path.join(inc, "nostr_features.h")
    if not os.path.exists(fp) or open(fp).read() != fh:
        t = fp + ".%d" % os.getpid(); open(t, "w").write(fh); os.replace(t, fp)
    incs = ["-I" + inc, "-I" + os.path.join(REPO, "include"), "-I/usr/include/cjson", "-I" + H]
    headers = glob.glob(os.path.join(REPO, "include", "**", "*.h"), recursive=True) + glob.glob(os.path.join(REPO, "src", "*.h"))
    wrap = "wrap" in feats
    if wrap: ldflags = list(ldflags) + ["-Wl," + ",".join("--wrap=" + w for w in WRAPPED)]
    dep_lib = _cat(headers + [os.path.join(H, "vf_inter.h")]) + fh
    dep_h = _cat(headers + glob.glob(os.path.join(H, "*.h")) + glob.glob(os.path.join(H, "*", "*.h"))) + fh
    libflags = cflags + incs + (["-include", os.path.join(H, "vf_inter.h")] if interpose and not wrap else []) + ["-DHAVE_SCHNORRSIG_SIGN32"]
    hflags = [f for f in cflags if f != "-fsanitize=fuzzer-no-link"] + incs + list(extra_c)     # coverage guides by the library only
    srcs = [(s, libflags, dep_lib) for s in lib_sources(feats)]
    hs = list(sources)
    if interpose: hs.append("vf.c")
    if lws_stub: hs.append("lws_stub.c")
    if "shim" in feats: hs.append("noscrypt_shim/noscrypt_shim.c")
    srcs += [(os.path.join(H, s), hflags, dep_h) for s in dict.fromkeys(hs)]
    with cf.ThreadPoolExecutor(max_workers=min(12, (os.cpu_count() or 4) + 2)) as ex:
        objs = list(ex.map(lambda t: _compile(cc, t[1], t[0], objdir, t[2]), srcs))
    if wrap:                    # functions of other libraries run on a stack of their own: what they leave there is not this library's doing
        ext = foreign([o for o, t in zip(objs, srcs) if t[1] is libflags], feats, [o for o, t in zip(objs, srcs) if "noscrypt_shim" in t[0]])
        asm = ".text\n" + "".join(TRAMP.replace("FUNC", f) for f in ext) + '.section .note.GNU-stack,"",@progbits\n'
        ap = os.path.join(objdir, "tramp-" + hashlib.sha256(asm.encode()).hexdigest()[:16])
        if not os.path.exists(ap + ".o"):
            t = ap + ".%d" % os.getpid(); open(t + ".s", "w").write(asm)
            p = subprocess.run([cc, "-c", t + ".s", "-o", t + ".o"], capture_output=True, text=True)
            if p.returncode: raise BuildError("trampolines failed:\n" + p.stderr[-4000:])
            os.unlink(t + ".s"); os.replace(t + ".o", ap + ".o")
        objs = objs + [ap + ".o"]
        ldflags = list(ldflags) + ["-Wl,-z,now"] + (["-Wl," + ",".join("--wrap=" + f for f in ext)] if ext else [])
    libs = ["-lsecp256k1", "-lssl", "-lcrypto", "-lcjson", "-lutf8proc", "-lpthread", "-lm"]
    if "mbed" in feats: libs.insert(0, "-lmbedcrypto")
    if not lws_stub: libs.append("-lwebsockets")
    ident = hashlib.sha256("\0".join(objs + list(ldflags) + list(extra_ld)).encode()).hexdigest()[:16]
    exe = os.path.join(objdir, prog + "-" + ident)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        p = subprocess.run([cc] + ldflags + objs + list(extra_ld) + libs + ["-o", tmp], capture_output=True, text=True)
        if p.returncode: raise BuildError("link %s failed:\n%s" % (prog, p.stderr[-4000:]))
        os.replace(tmp, exe)
    return exe

DRIVER_SRC = ["driver.c"] + sorted(os.path.basename(p) for p in glob.glob(os.path.join(H, "ops_*.c")) if "ops_shim" not in p)
def driver(config="asan"):
    s = list(DRIVER_SRC)
    if "shim" in CONFIGS[config][3]:
        s += sorted(os.path.basename(p) for p in glob.glob(os.path.join(H, "ops_shim*.c")))
    if "nojson" in CONFIGS[config][3]: s.remove("ops_relay.c")      # the relay client needs cJSON
    return build(config, "driver", s)
