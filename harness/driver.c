#include "driver.h"
#include <stdarg.h>
#include <ctype.h>
#ifdef VF_ASAN
#include <sanitizer/lsan_interface.h>
#endif
#include <cjson/cJSON.h>
extern void *vf_malloc(size_t); extern void vf_free(void *);

static struct { const char *name; op_fn f; } ops[1024]; static int nops;
#define NOSAN __attribute__((no_sanitize("address", "undefined")))
NOSAN static unsigned op_slot(const char *name) { unsigned h = 2166136261u; for (const char *p = name; *p && *p != ' '; p++) h = (h ^ (unsigned char)*p) * 16777619u; 
  for (h &= 1023;; h = (h + 1) & 1023) { if (!ops[h].name) return h; const char *a = ops[h].name, *b = name; while (*a && *a == *b) { a++; b++; } if (!*a && (!*b || *b == ' ')) return h; } }
void op_register(const char *name, op_fn f) { if (nops++ >= 700) abort(); unsigned h = op_slot(name); ops[h].name = name; ops[h].f = f; }
#include <setjmp.h>
static VFT jmp_buf die_jb; static VFT int tolerant;     /* mutated scripts: an operation the harness cannot perform is skipped */
void die(const char *fmt, ...) { if (tolerant) { vf_end(); longjmp(die_jb, 1); } va_list a; va_start(a, fmt); fprintf(stderr, "DRIVER-PROTOCOL: "); vfprintf(stderr, fmt, a); fprintf(stderr, "\n"); va_end(a); _Exit(3); }

VFT long g_fault, g_rngfault;
void (*reset_hooks[32])(void); int n_reset_hooks;
static VFT int g_argc;

static VFT void *tofree[4096]; static VFT int ntofree;
static void *keep(void *p) { if (ntofree >= 4096) die("too many temporaries"); tofree[ntofree++] = p; return p; }
void *d_alloc(size_t n) { return keep(calloc(1, n ? n : 1)); }
void *b_out(size_t n) { unsigned char *p = malloc(n); if (n) memset(p, 0xA5, n); return keep(p); }
static void chk(int i) { if (i >= g_argc) die("missing argument %d", i); }
int a_null(char **v, int i) { chk(i); return v[i][0] == '-' && !v[i][1]; }
long long a_int(char **v, int i) { chk(i); return strtoll(v[i], NULL, 0); }
unsigned long long a_u64(char **v, int i) { chk(i); return strtoull(v[i], NULL, 0); }
double a_dbl(char **v, int i) { chk(i); return strtod(v[i], NULL); }
NOSAN static int hv(int c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; die("bad hex"); return 0; }
NOSAN static unsigned char *unhex(const char *s, size_t n2, size_t extra, size_t *len) {
  size_t n = n2 / 2; if (n2 & 1) die("odd hex");
  unsigned char *p = malloc(n + extra);
  for (size_t i = 0; i < n; i++) p[i] = hv(s[2*i]) * 16 + hv(s[2*i+1]);
  if (extra) p[n] = 0;
  if (len) *len = n;
  return p;
}
char *a_str(char **v, int i) { if (a_null(v, i)) return NULL; const char *s = v[i]; if (*s == 'x') s++; return keep(unhex(s, strlen(s), 1, NULL)); }
uint8_t *a_buf(char **v, int i, size_t *len) { if (a_null(v, i)) { *len = 0; return NULL; } const char *s = v[i]; if (*s == 'x') s++; return keep(unhex(s, strlen(s), 0, len)); }
void a_fix(char **v, int i, uint8_t *out, size_t n) { size_t l; uint8_t *b = a_buf(v, i, &l); if (!b || l != n) die("argument %d: need %zu bytes", i, n); memcpy(out, b, n); }
int a_list(char **v, int i, char ***out) {
  *out = NULL; if (a_null(v, i)) return 0;
  const char *s = v[i]; int n = 1; if (*s == 'x') s++;
  if (*s == '_' && !s[1]) { *out = keep(malloc(0)); return 0; }
  for (const char *p = s; *p; p++) if (*p == ',') n++;
  char **a = keep(malloc(n * sizeof(char *)));
  for (int k = 0; k < n; k++) {
    size_t l = strcspn(s, ",");
    if (l == 1 && *s == '.') a[k] = NULL; else a[k] = keep(unhex(s, l, 1, NULL));
    s += l; if (*s) s++;
  }
  *out = a; return n;
}

static VFT char *ob; static VFT size_t on, oc; static VFT int first = 1;
static void ow(const char *s, size_t n) { if (on + n + 1 > oc) { oc = (on + n + 1) * 2; ob = realloc(ob, oc); } memcpy(ob + on, s, n); on += n; }
static void ofmt(const char *f, ...) { char b[128]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); ow(b, n); }
static void key(const char *k) { if (!first) ow(",", 1); first = 0; if (k) { ow("\"", 1); ow(k, strlen(k)); ow("\":", 2); } }
void o_int(const char *k, long long x) { key(k); ofmt("%lld", x); }
void o_u64(const char *k, unsigned long long x) { key(k); ofmt("%llu", x); }
void o_hex(const char *k, const void *p, size_t n) {
  key(k); if (!p) { ow("null", 4); return; }
  static const char H[] = "0123456789abcdef"; const unsigned char *b = p;
  ow("\"", 1); if (on + 2*n + 2 > oc) { oc = (on + 2*n + 2) * 2; ob = realloc(ob, oc); }
  for (size_t i = 0; i < n; i++) { ob[on++] = H[b[i] >> 4]; ob[on++] = H[b[i] & 15]; }
  ow("\"", 1);
}
void o_str(const char *k, const char *s) { o_hex(k, s, s ? strlen(s) : 0); }
void o_obj(const char *k) { key(k); ow("{", 1); first = 1; }
void o_end(void) { ow("}", 1); first = 0; }
void o_arr(const char *k) { key(k); ow("[", 1); first = 1; }
void o_aend(void) { ow("]", 1); first = 0; }
void o_ret(long long x) { o_int("r", x); }
void o_strs(const char *k, char *const *s, size_t n) { o_arr(k); for (size_t i = 0; i < n; i++) o_str(NULL, s[i]); o_aend(); }

VFT nostr_event *EV[NSLOT];
nostr_event *ev(char **v, int i) { if (a_null(v, i)) return NULL; long long s = a_int(v, i); if (s < 0 || s >= NSLOT) die("bad slot"); return EV[s]; }
void o_event(const char *k, const nostr_event *e) {
  if (!e) { key(k); ow("null", 4); return; }
  o_obj(k); o_hex("id", e->id, 32); o_hex("pubkey", e->pubkey.data, 32); o_int("created_at", e->created_at); o_int("kind", e->kind);
  o_arr("tags"); for (size_t i = 0; i < e->tags_count; i++) { o_arr(NULL); for (size_t j = 0; j < e->tags[i].count; j++) o_str(NULL, e->tags[i].values[j]); o_aend(); } o_aend();
  o_str("content", e->content); o_hex("sig", e->sig, 64); o_end();
}
static void free_events(void) { for (int i = 0; i < NSLOT; i++) if (EV[i]) { nostr_event_destroy(EV[i]); EV[i] = NULL; } }
RESET_HOOK(free_events)

OP("reset") { UNUSED; for (int i = 0; i < n_reset_hooks; i++) reset_hooks[i](); vf_secret_clear(); vf_rng_mode = vf_rng_fail_all = vf_rng_special = vf_rng_log = 0; vf_rnglog_len = 0; vf_fake_time = 0; vf_time_step = 0; vf_fail_thread = 0; }
OP("leakcheck") { UNUSED;
#ifdef VF_ASAN
  o_int("leak", __lsan_do_recoverable_leak_check());
#else
  o_int("leak", 0);
#endif
}
OP("vf.time") { (void)n; __atomic_store_n(&vf_fake_time, a_int(v, 0), __ATOMIC_RELAXED); if (vf_time_step != a_int(v, 1)) vf_time_step = a_int(v, 1); }
OP("vf.rng") { (void)n; vf_rng_mode = (int)a_int(v, 0); vf_rng_ctr = a_u64(v, 1); vf_rng_fail_all = (int)a_int(v, 2); vf_rng_special = (int)a_int(v, 3); vf_rng_log = (int)a_int(v, 4); vf_rnglog_len = 0; }
OP("vf.rnglog") { UNUSED; o_hex("log", vf_rnglog ? vf_rnglog : (unsigned char *)"", vf_rnglog_len); vf_rnglog_len = 0; }
/* the generator as it was before the last call: that call failed and is repeated */
static VFT uint64_t back_ctr; static VFT size_t back_len;
OP("vf.rngback") { UNUSED; vf_rng_ctr = back_ctr; vf_rnglog_len = back_len; }
OP("vf.secret") { (void)n; size_t l; uint8_t *b = a_buf(v, 0, &l); vf_secret_add(b, l); memset(b, 0, l); }
OP("vf.secret_clear") { UNUSED; vf_secret_clear(); }
OP("vf.secret_report") { UNUSED; o_int("hits", vf_secret_hits); o_str("where", vf_secret_where); o_int("frees", vf_frees_scanned);
#ifdef VF_SEC
  o_int("scans", vf_stack_scans); o_int("deep", vf_stack_deep);
#endif
}
OP("vf.failthread") { (void)n; vf_fail_thread = a_int(v, 0); }

NOSAN int run_line(char *line, int quiet) {
    /* deterministic mode: randomness is a function of the operation's text */
    uint64_t lh = 1469598103934665603u; { const char *p = line; while (*p == '!') { while (*p && *p != ' ') p++; if (*p) p++; } for (; *p; p++) lh = (lh ^ (unsigned char)*p) * 1099511628211u; }
    int c = 0; for (char *p = line; *p; p++) if (*p == ' ') c++;
    char **av = keep(malloc((c + 2) * sizeof *av)); int n = 0;
    for (char *p = line;;) { av[n++] = p; char *q = strchr(p, ' '); if (!q) break; *q = 0; p = q + 1; }
    int a0 = 0; g_fault = 0; g_rngfault = 0; int report = 0;
    while (a0 < n && av[a0][0] == '!') { if (av[a0][1] == 'f') g_fault = atol(av[a0] + 2); else if (av[a0][1] == 'r') g_rngfault = atol(av[a0] + 2); else if (av[a0][1] == 't') vf_fail_thread = atol(av[a0] + 2); else if (av[a0][1] == 'o') break; report = 1; a0++; }
#ifdef VF_SEC
    vf_ofail = 0; while (a0 < n && av[a0][0] == '!') { if (av[a0][1] == 'o') vf_ofail = atol(av[a0] + 2); a0++; }
#endif
    op_fn f = a0 < n ? ops[op_slot(av[a0])].f : NULL;
    if (!f) die("unknown op %s", av[a0]);
    on = 0; first = 1; ow("{", 1); g_argc = n - a0 - 1;
    if (strcmp(av[a0], "vf.rngback")) { back_ctr = vf_rng_ctr; back_len = vf_rnglog_len; }
    vf_op(); int det = vf_det && !vf_rng_mode && strcmp(av[a0], "vf.rng"); if (det) { vf_rng_mode = 1; vf_rng_ctr = lh; }
    f(g_argc, av + a0 + 1);
    if (det && vf_rng_mode == 1) vf_rng_mode = 0;
    vf_end();
#ifdef VF_SEC
    report = 0;
#endif
    if (report) { o_int("_a", vf_allocs); o_int("_ah", vf_alloc_hit); o_int("_d", vf_draws); o_int("_dh", vf_draw_hit); }
#ifdef VF_SEC
    o_int("_a", vf_allocs); o_int("_ah", vf_alloc_hit); o_int("_d", vf_draws); o_int("_dh", vf_draw_hit); o_int("_o", vf_oallocs); o_int("_oh", vf_oalloc_hit);
#endif
    ow("}\n", 2); if (!quiet) { fwrite(ob, 1, on, stdout); fflush(stdout); }
    return 0;
}
void line_end(void) { for (int i = 0; i < ntofree; i++) free(tofree[i]); ntofree = 0; }
void reset_all(void) { for (int i = 0; i < n_reset_hooks; i++) reset_hooks[i](); }

char *take_output(size_t *n) { *n = on; return ob; }
void drop_output(void) { free(ob); ob = NULL; oc = on = 0; first = 1; }
void o_raw(const char *k, const char *s, size_t n) { key(k); ow(s, n); }

#include "fuzz_spec.h"
#ifndef VF_FUZZ
int main(int argc, char **argv) {
  (void)argc; (void)argv;
  cJSON_Hooks h = { vf_malloc, vf_free }; cJSON_InitHooks(&h);
  static char *line; size_t cap = 0; ssize_t len;
  FILE *in = stdin; vf_det = getenv("VF_DET") != NULL; int tol = getenv("VF_TOLERANT") != NULL;
  while ((len = getline(&line, &cap, in)) >= 0) {
    while (len && (line[len-1] == '\n' || line[len-1] == '\r')) line[--len] = 0;
    if (!len || line[0] == '#') continue;
    if (tol) { char *l = line; while (*l == ' ') l++; if (!strcmp(l, "reset")) { reset_all(); puts("{}"); continue; } if (!spec_allows(l)) { puts("{}"); continue; } tolerant = 1; if (setjmp(die_jb) == 0) run_line(l, 0); else puts("{}"); tolerant = 0; }
    else run_line(line, 0);
    line_end();
  }
  reset_all();
  nostr_cleanup();
  free(ob); ob = NULL; free(line); line = NULL; free(vf_rnglog); vf_rnglog = NULL;
  return 0;
}
#else
#include "fuzz_main.h"
#endif
