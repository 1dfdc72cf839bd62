import json, re, os
D = open('/verif/DESIGN.md').read() if 0 else None
head = '''# DESIGN: runtime monitoring and sanitizers for libnostr-c

Everything here is decided by one family: the real library code is executed under generated, hostile and stress
workloads, and an oracle that watches the execution decides (a compiler sanitizer, an interposed monitor, or an
independent model that judges every answer). Nothing is proved; each verdict is "no violation in what was observed", and
`evidence/<id>.json` says what was observed. No property had to be put under `not_applicable`.

Contents: 1 machinery, 2 properties and how each is decided, 3 cross-cutting monitors, 4 planted bugs, 5 defects found
and repaired, 6 false alarms corrected, 7 limits and assumptions.

## 1. Machinery

* **Driver** (`harness/driver.c`, `harness/ops_*.c`): one C program linked with the *real* library sources
  (`/repo/src/*.c`, compiled from the current working tree whenever they change). It reads one operation per line
  (`op arg arg ...`, byte strings in hex), executes it through the public API, and prints one JSON line with every
  observable effect: return code, out-parameters, and a full dump of the objects touched. Input buffers are heap blocks
  of exactly the stated size, output buffers exactly the promised size and pre-filled with 0xA5, out-pointers start as
  sentinels. The command stream is the *history*, the answer stream the *event log*; a command file alone replays an
  execution (`build/replay/*.json`, the path a VIOLATION line names; `python3 run.py --replay FILE`).
* **Builds** (`lib/build.py`, objects cached by content hash, build tree `/verif/build`, ignored by git):
  `asan` / `asan-mbed` (clang ASan+UBSan+LSan+float-cast-overflow, no recovery; OpenSSL / mbedTLS backend), `tsan*`,
  `par*` (the driver's own threads run scripts; TSan or ASan), `plain*` (gcc -O2, for memcheck and differential runs),
  `fuzz`, `fuzz-shim` (libFuzzer+ASan+UBSan), `shim`, `shim-tsan` (all sources including NIP-04/17/44/46/47/59, which the
  repository only compiles with noscrypt; `harness/noscrypt_shim` takes its place), `sec*` (uninstrumented gcc -O2/-O0,
  clang -O2, mbedTLS with linker-level interposition, for secrets), `shim-mbed`, `nojson` (the smallest build: without cJSON, utf8proc, threads and relay client).
  Feature switches come from the repository's `nostr_features.h.in`, so no build script of the repository is needed.
* **Interposition** (`harness/vf.c`, `vf_inter.h`): the library's `malloc` family, `time`, and every randomness source
  (`RAND_bytes`, `getrandom`, mbedTLS DRBG) go to monitored versions. This counts and fails the k-th allocation or the k-th draw
  (`!fK op`, `!rK op`), records what was drawn, makes randomness deterministic or special (all zero, all ones, a chosen
  log), and controls the clock. No hook exists in /repo: `hooks` in MANIFEST.json is empty.
* **Checks** (`checks/cNN.py`, run by `run.py`): Python code generates histories from VERIF_SEED, feeds the driver and
  judges each answer *online* against an independent model. `oracle/` holds own implementations of secp256k1/BIP-340, bech32,
  BIP-32/39, NIP-49 (scrypt, XChaCha20-Poly1305), NIP-44, the NIP-01 serializer, filter matching, ...; nothing of the
  library is reused there. JSON is read back by Python's `json`.
* **Verdicts**: a *violation* is an oracle disagreement, sanitizer report, abnormal exit or a reproducible hang; a
  *known finding* is a violation whose key is listed in `known_findings.json` (none is listed: all genuine defects were
  repaired). A time-out is retried alone before it counts. Build failure or driver protocol error exits 2, never 0.
* **Tools**: `tools/props.py` (single source of properties.jsonl and MANIFEST.json), `tools/plant.sh` (confirms a planted
  bug), `tools/blame.py` (a planted bug must change original lines), `tools/addfix.py`.

Tiers: `quick` is meant for every change (all 40 take about 7 minutes one after another on 8 cores; the slowest about 50 s);
`thorough` multiplies the number of histories by 10 to 50 and the fuzzing time by 16 (below 900 s each).

## 2. Properties

Column "cost" is quick wall time in seconds, without building. All checks with a behavioural oracle also run under
ASan+UBSan+LSan, so that a memory error on their path is a violation too.

'''
rows = [
("C01", "ids are the hash of the NIP-01 form", "own serializer + hashlib on the same event; the canonical text itself compared byte for byte into exact buffers", "texts of all UTF-8/escape classes, sizes across every internal buffer growth (to > 64 KiB), created_at over the full int64 range; with and without cJSON", 7),
("C02", "verification accepts exactly authentic events", "own BIP-340 verifier and id", "valid events, every single-field alteration, bits of id/sig/pubkey, off-curve keys, s/r at the group order, wrong-but-signed ids, missing fields", 7.3),
("C03", "event JSON both ways", "own strict parser (types, ranges, escapes, duplicate members, trailing text) and Python json for output", "valid, near-valid, truncated and mutated documents; every prefix of small documents; surrogates, depth, big numbers", 4.4),
("C04", "events hold exactly what was written", "list model of the edit history, whole event read after each step by struct and by accessors", "random histories, arena growth, limits from the configuration, failing steps leave the event unchanged", 2.5),
("C05", "hex codecs", "own codec", "all byte values at each position class, lengths around the limit, signs/blanks/0x/upper case", 1),
("C06", "bech32 keys and ids", "own BIP-173 codec", "round trips, every wrong checksum/prefix/case/padding class, wrong lengths, exact output buffers", 2.1),
("C07", "NIP-19 TLV and nostr: URIs", "own TLV codec", "missing, repeated, unknown, truncated and oversized records, limits (relay count, identifier length), URIs with hostile prefixes", .6),
("C08", "keys and ECDH", "own secp256k1", "edge scalars (0, 1, n-1, n, n+1), off-curve x, mixed pairs, symmetry of ECDH", 5.9),
("C09", "randomness", "log of all draws: outputs must stem from recorded draws; k-th draw failing for every k must be reported and leave nothing behind", "both backends, encryption nonces and wrap keys included; special outputs (zero, all ones, group order) must be rejected or redrawn", 4),
("C10", "HD keys, mnemonics", "own BIP-32/39", "published vectors, random paths, hardened/overflowing/malformed components, NFKD passphrases, all word counts, checksum bit flips", 4.2),
("C11", "NIP-49", "own scrypt+XChaCha20-Poly1305+NFKC", "both directions, wrong passwords, each byte altered, security byte, logn limits", 20.7),
("C12", "NIP-26", "own grammar, token hash, BIP-340 and bound evaluation", "condition strings from a grammar and its neighbours, bounds at +-1, altered tokens, events", 5),
("C13", "NIP-13", "own bit count, committed target reading, id recomputed", "difficulty of random and crafted ids, malformed nonce tags, multi-threaded mining with injected scheduling jitter, cancel, both backends", 2.5),
("C14", "NIP-10", "own reading of e tags (marked and positional)", "random tag lists with malformed members, buffers of exact size, write-then-read", 3.2),
("C15", "NIP-18/25", "own expected tags and URI scan", "kinds over the range, over-long values, text with many near-URIs", 3),
("C16", "NIP-65", "ordered map model", "random histories with duplicates, growth boundaries, event round trips", 1.8),
("C17", "NIP-51", "ordered list model per kind", "random histories, growth, metadata replacement by aliasing values, event round trips", 2),
("C18", "NIP-05", "own identifier grammar; Python json on the response", "hostile documents (same name at other depths, escapes, brackets in strings), exact URL buffers", 1),
("C19", "NIP-57", "own tag, BOLT-11 amount and bech32 model", "requests/receipts with each member altered, missing or repeated; amounts in every multiplier and at overflow; LNURLs of any length", 9.4),
("C20", "filter matching", "own evaluation of NIP-01", "filters and events drawn from a small shared alphabet (so that conditions really hit), > 256 values, values differing beyond internal limits", 7),
("C21", "filter objects", "Python json + own reading of members", "all spellings, malformed conditions, clone and struct read-back, builder API", 9.8),
("C22", "client messages", "Python json + C02/C21 models", "all five message types; valid in any spelling, near-valid, truncated, mutated", 9.4),
("C23", "relay messages", "Python json; text cut only at characters", "every type, exact/short/long buffers, hostile strings", .9),
("C24", "admission", "independent verdict *and* failure kind", "clock under control: windows at +-1 s, expiration, future/past limits at int64 edges", 6.6),
("C25", "kinds, replacement, expiry", "definitions of NIP-01/40", "all 65536 kinds; survivor of every arrival order of small version sets; times across int64", 1.5),
("C26", "deletions", "own reading of e/a/k tags", "targets one digit, kind, author or d tag off", 8.4),
("C27", "relay information", "Python json", "random settings in random order, numbers over the whole range, exact buffers, aliasing setters", 12.8),
("C28", "configuration", "sequential model incl. environment and callbacks", "every field at its limits, malformed environment numbers, callbacks that call back; callbacks see whole configurations", 3.4),
("C29", "memory safety", "ASan+UBSan+LSan, memcheck, time and memory limits", "see section 3", 52),
("C30", "out of memory", "an undisturbed twin with the same history", "see section 3", 21),
("C31", "thread safety", "TSan; answers equal those of the script alone; offline checker over recorded configuration/init histories", "see section 3", 26.6),
("C32", "relay messages delivered once, in order", "reference dispatcher", "scripted transport: any fragmentation, hostile data between messages, messages up to over 1 MiB, subscriptions opened/replaced/closed, partial and failing writes", 9.5),
("C33", "relay lifecycle", "reference state machine; callbacks logged", "random lives of up to three relays, failures at every stage, calls from callbacks, destroy in any state; the real service thread runs", 8.3),
("C34", "secrets are wiped", "search of freed blocks, stack below the caller and statics for every 16-byte part", "see section 3", 50),
("C35", "backends and build options agree", "differential: two builds in lock step (OpenSSL/mbedTLS with and without noscrypt, libsecp256k1/noscrypt, full/smallest build)", "workloads of 26 + 4 modules", 60),
("C36", "NIP-44/04", "own NIP-44 v2 and NIP-04", "every padding class, limits (1, 65535), alteration at each layer incl. padding under a *valid* MAC, base64 spellings", 2.8),
("C37", "gift wraps", "layers opened and built by the own NIP-44", "damage at one layer at a time; timestamps, keys and authorship; randomness failing", 7),
("C38", "NWC, remote signer, sessions", "own NIP-44 + Python json; sequential model of budgets; offline checker over recorded concurrent histories", "messages in any spelling, amounts across 2^53/2^64, budgets at the limit, resets, expiry, concurrent spend/destroy under TSan with jitter", 10),
("C39", "missing arguments", "table of required and optional pointers; inputs compared, outputs poisoned", "259 functions x every subset of NULL pointers x empty/zero/ordinary other arguments, 3 builds, leak check per function", 38),
("C40", "self-description", "the build's own configuration header; one operation per feature; project VERSION", "4 harness builds; random feature selections built by CMake (6 quick, 60 thorough); all codes, NIP numbers", 15),
]
s = head + "| id | guarantee | oracle | workload / bounds | cost |\n|---|---|---|---|---|\n"
for r in rows: s += "| %s | %s | %s | %s | %s |\n" % tuple(str(x).replace("|", "\\|") for x in r)
s += '''
Why this reaches what the unit tests cannot: the tests check a handful of fixed inputs with the library as its own
oracle (round trips), on the success path, single threaded and with working memory and randomness. Each check above has
an *independent* oracle, generated inputs around every boundary the code has, and - through C29, C30, C31, C34 and C35 -
each of those inputs is repeated under sanitizers, failing allocations, threads, secret search and the second backend.

## 3. Cross-cutting monitors over everybody's workload

`lib/wl.py` replays the workloads of the other checks against a wrapped driver; the borrowed check's own verdicts are
dropped and the wrapper judges.

* **C29** four stages: (1) all workloads (33 modules, including the shim ones) under ASan+UBSan+LSan; (2) libFuzzer over
  *operation scripts*: seeds are harvested from stage 1 and from well-formed documents of every kind, the custom mutator
  edits the decoded arguments (bytes, dictionary, lengths around buffer sizes, numbers, bech32 payloads re-checksummed,
  TLV-aware, list elements, buffer sizes), never the script structure, so every input is a legal use of the API; 11 groups
  (events, built events, filters, messages, pointers, documents, relay information, relay, ciphers, wallet, encrypted
  messages - there the *plaintext* is mutated and then encrypted, so that mutation reaches the readers behind the MAC);
  (3) inputs of growing size, objects at their limits (each call must end within a time limit); (4) seeds and the inputs the fuzzers kept under
  valgrind memcheck (uninitialised reads). LeakSanitizer's fatal "cannot run" under restricted ptrace is recognised and the run repeated
  without leak detection (counted in the evidence).
* **C30** (a) *Fault*: each operation is run with its k-th allocation failing (every k for short ones, sampled for long
  ones); it must report failure or give exactly the undisturbed answer, leak nothing, and the object afterwards must
  answer as before or (for documented multi-step operations) as after; (b) *Shake*: whole histories with random failures, compared with a twin that skips
  the failed steps. `vf.rngback` rewinds randomness so that the repeated operation draws the same values.
* **C31** scripts from all workloads, eight at a time in threads of one process, answers equal to those alone, TSan and ASan builds,
  two backends; concurrent init/cleanup/configuration with recorded call intervals judged by an offline checker
  (each read configuration must be one whole configuration written before or during the read). Cleanup is not run
  concurrently with in-flight operations (not promised).
* **C34** the library is compiled exactly as a user compiles it (no sanitizer, real `memset`), with linker wrapping. Before a
  call the stack below the caller is painted, after it copied; each freed block is inspected in `free`; statics are
  walked. Foreign libraries (libsecp256k1, OpenSSL, utf8proc) run on an *alternate stack* through assembly trampolines, so
  what they leave behind is not charged to this library. Every 16-byte window of every secret (raw, hex, 5-bit, words, word indices) is a needle; a planted canary call
  proves in each run that each channel is live. Every allocation (the library's and OpenSSL's) and every draw is
  also failed, because error paths are where wiping is forgotten. Three compilers/levels plus mbedTLS, and the noscrypt build (stand-in wrapped like
  the other foreign libraries) for NIP-44/04 encryption, gift wraps with their drawn keys, private lists, wallet and signer messages.
* **C35** the OpenSSL and the mbedTLS build get the same history, randomness and clock; any different byte is a violation.

## 4. Planted bugs

All in `seeded/`, each confirmed (builds, 856 stable tests pass, demo fails only with it, changes original lines only).
Each is caught by the check of the property it was written for; column "also" lists further checks seen to catch it.

| id | what it breaks | needs |
|---|---|---|
'''
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open('/verif/seeded/%s/meta.json' % d))
    s += "| %s | %s | %s |\n" % (d, m['what_it_breaks'].replace("|", "\\|"), m['needs'].replace("|", "\\|"))
s = s.replace('; column "also" lists further checks seen to catch it', '')
s += '''
The table is the confirmed set. Beyond it, mutation campaigns were run while each check was built (single-line changes of the
functions a check covers: comparison, limit, order, missing check, missing unlock, missing wipe); a surviving mutant was
either shown equivalent or led to a stronger generator or oracle. What campaigns taught: filters must share an alphabet with
events or conditions never hit (C20); list growth boundaries need histories longer than the capacity (C16); text of exactly the
buffer size needs exact buffers (C18, C23); concurrency bugs needed injected jitter inside the library's lock and clock
calls (C13, C31, C38).

## 5. Defects found in libnostr-c and repaired

All were shown on the real code by a check, repaired in one `fix:` commit each, and are recorded in `known_findings.json`
("fixed", suppressing nothing).

| property | commit | what failed |
|---|---|---|
'''
for l in json.load(open('/verif/known_findings.json'))['fixed']:
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l, re.S); s += "| %s | %s | %s |\n" % (m[1], m[2], m[3].replace("|", "\\|"))
s += '''
## 6. False alarms corrected

* C37: the libc clock used by the library lags `time` by up to a tick, so time windows got one second of slack; a key collision in the
  generator (sender = recipient) made "another recipient" able to open a wrap.
* C38: cJSON re-prints integers of more than 15 digits inexactly where the library re-prints caller-supplied JSON; numbers are judged up to 15 digits there.
* C30: `ns.create` counts failed attempts towards its documented rate limit, so the twin must count them too. `nip.sweep` makes many calls and lists their
  errors inside its result, which the fault oracle took for a wrong result; like the other composite operations it is not failed as a unit
  (`nip44.enc`/`nip44.dec`/`nip04.*`, the calls it makes, are).
* C29: LeakSanitizer cannot run under some ptrace restrictions; recognised and repeated without it.
* C34: residue left by foreign libraries in frames the library's own frames overlap was charged to the library; solved by the alternate stack.
* C33: a relay destroyed from inside its own callback is documented to do nothing; the model follows.

## 7. Limits and assumptions

* **noscrypt is not installed.** C36-C38 (and the shim parts of C29/C30) run the library's own code over a stand-in with
  noscrypt's interface on libsecp256k1 and OpenSSL. Defects inside noscrypt are out of scope. The normal build does not compile these files.
* **Relay transport is scripted** (`harness/lws_stub.c`): libwebsockets' framing is trusted; the stub reports
  each loss once, on the service thread or while its context is destroyed. `lws_write` is called from user threads by the library; whether real libwebsockets allows that is not judged.
* Pointer arguments are valid and buffer sizes true, as the interface demands.
* C34 searches raw, hex, 5-bit, word and word-index forms; registers and other encodings are not searched.
* C38 does not judge: reset interval 0, behaviour at the exact instant of an expiry or reset, a session that holds both "*" and a
  specific permission for one method (judged one way only: nothing is authorized that no permission allows), extending an expired session, how
  long a connection pointer from a session stays valid, responses without an "encryption" tag.
* C37 does not judge a wrap's own signature on receipt, nor the rumor's id.
* Multi-threaded mining depends on the scheduler; C13 judges its result in both builds and C35 leaves it out.
* Interleavings are sampled (TSan plus jitter), not enumerated; TSan's happens-before detection makes most races visible in any run that executes both accesses.
'''
open('/verif/DESIGN.md', 'w').write(s)
