/* many threads, each running a script of operations, or a mix of the internally synchronised functions */
#include "driver.h"
#ifdef VF_PAR
#include <pthread.h>
#include <time.h>
int run_line(char *line, int quiet); void line_end(void); void reset_all(void); char *take_output(size_t *n); void drop_output(void); void o_raw(const char *k, const char *s, size_t n);
void vf_delay(void);
#define MT 16
extern VFT nostr_filter_t FL[];
typedef struct { char **line; size_t n, cap; char *out; size_t on, oc; pthread_barrier_t *b; nostr_event **ev; nostr_filter_t *fl; unsigned seed; } script;
static script SC[MT];
/* par.t K <operation>: append to the script of thread K */
OP("par.t") { int k = (int)a_int(v, 0); if (k < 0 || k >= MT) die("thread"); script *s = &SC[k]; size_t l = 0; for (int i = 1; i < n; i++) l += strlen(v[i]) + 1; char *p = malloc(l + 1), *q = p;
  for (int i = 1; i < n; i++) { size_t m = strlen(v[i]); memcpy(q, v[i], m); q += m; *q++ = i + 1 < n ? ' ' : 0; }
  if (s->n == s->cap) { s->cap = s->cap ? 2 * s->cap : 64; s->line = realloc(s->line, s->cap * sizeof *s->line); } s->line[s->n++] = p; }
static void *script_run(void *a) { script *s = a;
  if (s->ev) memcpy(EV, s->ev, NSLOT * sizeof *EV);
  if (s->fl) memcpy(FL, s->fl, 4 * sizeof *FL);
  pthread_barrier_wait(s->b);
  for (size_t i = 0; i < s->n; i++) { run_line(s->line[i], 1); line_end(); size_t m; char *o = take_output(&m);
    if (s->on + m + 1 > s->oc) { s->oc = 2 * (s->on + m + 1); s->out = realloc(s->out, s->oc); } if (i) s->out[s->on++] = ','; memcpy(s->out + s->on, o, m - 1); s->on += m - 1; }
  if (s->ev) memset(EV, 0, NSLOT / 2 * sizeof *EV); if (s->fl) memset(FL, 0, 4 * sizeof *FL);
  reset_all(); drop_output(); free(vf_rnglog); vf_rnglog = NULL; return NULL; }
/* par.go JITTER SHARE: run all scripts at once; with SHARE threads start with the event slots 0..31 and filter slots 0..3 of the caller */
OP("par.go") { (void)n; pthread_t t[MT]; pthread_barrier_t b; int k = 0, share = (int)a_int(v, 1); for (int i = 0; i < MT; i++) if (SC[i].n) k++; pthread_barrier_init(&b, NULL, k);
  nostr_event *e[NSLOT]; memcpy(e, EV, sizeof e); memset(e + NSLOT / 2, 0, NSLOT / 2 * sizeof *e); nostr_filter_t f[4]; memcpy(f, FL, sizeof f);
  __atomic_store_n(&vf_jitter, (int)a_int(v, 0), __ATOMIC_RELAXED);
  for (int i = 0; i < MT; i++) if (SC[i].n) { SC[i].b = &b; SC[i].ev = share ? e : NULL; SC[i].fl = share ? f : NULL; if (pthread_create(&t[i], NULL, script_run, &SC[i])) die("thread"); }
  for (int i = 0; i < MT; i++) if (SC[i].n) pthread_join(t[i], NULL);
  __atomic_store_n(&vf_jitter, 0, __ATOMIC_RELAXED); pthread_barrier_destroy(&b);
  o_obj("t"); for (int i = 0; i < MT; i++) if (SC[i].n) { char nm[8]; sprintf(nm, "%d", i); o_arr(nm); o_raw(NULL, SC[i].out, SC[i].on); o_aend(); for (size_t j = 0; j < SC[i].n; j++) free(SC[i].line[j]); free(SC[i].line); free(SC[i].out); memset(&SC[i], 0, sizeof SC[i]); } o_end();
  extern long vf_ctx_made, vf_ctx_live, vf_ctx_bad; o_int("made", vf_ctx_made); o_int("live", vf_ctx_live); o_int("bad", vf_ctx_bad); }

/* configuration number u: every field depends on u, so a mixture of two is recognisable */
static void cfg_of(unsigned u, nostr_config *c) { memset(c, 0, sizeof *c); c->nip44_min_plaintext_size = 1 + u % 30011; c->nip44_max_plaintext_size = 30100 + u % 35401; c->max_sessions = 1 + u % 9973; c->session_timeout_secs = 60 + u; c->max_permissions = 1 + u % 997; c->max_content_size = 1024 + u % 1000003;
  c->max_tags = 1 + u % 991; c->max_tag_values = 1 + u % 983; c->relay_connect_timeout_ms = 1000 + u % 290011; c->relay_response_timeout_ms = 1000 + u % 290021; c->encryption_default_nip = u & 1 ? 4 : 44; c->secure_memory_lock = (u >> 1) & 1; c->debug_mode = (u >> 2) & 1; }
static long cfg_no(const nostr_config *c) { nostr_config x; unsigned u = c->session_timeout_secs - 60; if (u == 3540 && c->max_sessions == 100 && c->max_tags == 100 && c->max_content_size == 65536 && c->nip44_max_plaintext_size == 65535 && c->max_permissions == 32 && c->max_tag_values == 50 && c->nip44_min_plaintext_size == 1 && c->relay_connect_timeout_ms == 30000 && c->relay_response_timeout_ms == 10000 && c->encryption_default_nip == 44 && !c->secure_memory_lock && !c->debug_mode) return 0;   /* the defaults */
  cfg_of(u, &x); return x.nip44_min_plaintext_size == c->nip44_min_plaintext_size && x.nip44_max_plaintext_size == c->nip44_max_plaintext_size && x.max_sessions == c->max_sessions && x.max_permissions == c->max_permissions && x.max_content_size == c->max_content_size && x.max_tags == c->max_tags && x.max_tag_values == c->max_tag_values
    && x.relay_connect_timeout_ms == c->relay_connect_timeout_ms && x.relay_response_timeout_ms == c->relay_response_timeout_ms && x.encryption_default_nip == c->encryption_default_nip && x.secure_memory_lock == c->secure_memory_lock && x.debug_mode == c->debug_mode ? (long)u : -2; }
enum { GET = 0, UPD, BADUPD, SETCB, INITC, INIT, CLEAN, CALLED, SIGN };
typedef struct { int kind; long r, a, b, c; unsigned long long t0, t1; } rec;
typedef struct { int id, iters; unsigned rng; const char *mix; pthread_barrier_t *b; rec *log; size_t n, cap; unsigned base; int nested; } worker;
static __thread worker *W;
static unsigned long long now_ns(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
static rec *add(worker *w, int kind) { if (w->n == w->cap) { w->cap = w->cap ? 2 * w->cap : 256; w->log = realloc(w->log, w->cap * sizeof *w->log); } rec *r = &w->log[w->n++]; memset(r, 0, sizeof *r); r->kind = kind; return r; }
static unsigned rnd(worker *w) { w->rng ^= w->rng << 13; w->rng ^= w->rng >> 17; w->rng ^= w->rng << 5; return w->rng; }
static long current(void) { const nostr_config *c = nostr_config_get_current(); return c ? cfg_no(c) : -1; }
static void par_cb(const nostr_config *o, const nostr_config *nw, void *ud) { worker *w = W; if (!w) return; unsigned long long t = now_ns(); long a = cfg_no(o), b = cfg_no(nw); vf_delay(); rec *r = add(w, CALLED); r->t0 = t; r->a = a; r->b = b; r->c = (long)ud;
  if (w->nested) { w->nested = 0; rec *g = add(w, GET); g->t0 = now_ns(); g->a = current(); g->t1 = now_ns(); w->log[w->n - 1] = *g; } w->log[w->n - 1].t1 = now_ns(); }
static void *worker_run(void *a) { worker *w = a; W = w; pthread_barrier_wait(w->b);
  for (int i = 0; i < w->iters; i++) { char m = w->mix[rnd(w) % strlen(w->mix)]; nostr_config c; rec x; memset(&x, 0, sizeof x); w->base++;
    switch (m) {
    case 'g': x.kind = GET; x.t0 = now_ns(); x.a = current(); x.t1 = now_ns(); break;
    case 'h': { x.kind = GET; const nostr_config *p; x.t0 = now_ns(); p = nostr_config_get_current(); x.t1 = now_ns(); vf_delay(); sched_yield(); x.a = p ? cfg_no(p) : -1; break; }   /* the value obtained stays what it was */
    case 'u': x.kind = UPD; x.a = w->base; cfg_of(w->base, &c); w->nested = !(rnd(w) & 3); x.t0 = now_ns(); x.r = nostr_config_update(&c); x.t1 = now_ns(); break;
    case 'b': x.kind = BADUPD; x.a = w->base; cfg_of(w->base, &c); switch (rnd(w) % 4) { case 0: c.max_tags = 0; break; case 1: c.debug_mode = 2; break; case 2: c.nip44_min_plaintext_size = 0; break; default: c.relay_response_timeout_ms = 999; } x.t0 = now_ns(); x.r = nostr_config_update(&c); x.t1 = now_ns(); break;
    case 's': x.kind = SETCB; x.a = rnd(w) & 3; x.t0 = now_ns(); x.r = nostr_config_set_callback(x.a ? par_cb : NULL, (void *)(x.a ? 5 : 0)); x.t1 = now_ns(); break;
    case 'i': x.kind = INITC; x.a = w->base; cfg_of(w->base, &c); x.t0 = now_ns(); x.r = nostr_init_with_config(rnd(w) & 7 ? &c : (x.a = 0, NULL)); x.t1 = now_ns(); break;
    case 'n': x.kind = INIT; x.t0 = now_ns(); x.r = nostr_init(); x.t1 = now_ns(); break;
    case 'c': x.kind = CLEAN; x.t0 = now_ns(); nostr_cleanup(); x.t1 = now_ns(); break;
    case 'k': { x.kind = SIGN; nostr_privkey k; nostr_key p; x.t0 = now_ns(); x.r = nostr_key_generate(&k, &p); x.t1 = now_ns(); break; }
    case 'f': nostr_feature_nip_supported((int)(rnd(w) % 70)); nostr_feature_list_enabled(); nostr_config_get_defaults(&c); nostr_config_validate(&c); continue;
    default: die("mix"); }
    *add(w, 0) = x; }
  return NULL; }
/* par.mix ITERS JITTER SEED MIX...: one thread per MIX; base numbers are THREAD*4000 */
OP("par.mix") { int T = n - 3; if (T < 1 || T > MT) die("threads"); worker *w = calloc(T, sizeof *w); pthread_t t[MT]; pthread_barrier_t b; pthread_barrier_init(&b, NULL, T); extern long vf_ctx_made, vf_ctx_live, vf_ctx_bad; long made0 = vf_ctx_made;
  __atomic_store_n(&vf_jitter, (int)a_int(v, 1), __ATOMIC_RELAXED);
  for (int i = 0; i < T; i++) { w[i].id = i; w[i].iters = (int)a_int(v, 0); w[i].rng = (unsigned)a_int(v, 2) * 2654435761u + i * 40503u + 1; w[i].mix = v[3 + i]; w[i].b = &b; w[i].base = 5000 + i * 5000; }
  for (int i = 0; i < T; i++) if (pthread_create(&t[i], NULL, worker_run, &w[i])) die("thread");
  for (int i = 0; i < T; i++) pthread_join(t[i], NULL);
  __atomic_store_n(&vf_jitter, 0, __ATOMIC_RELAXED); pthread_barrier_destroy(&b);
  o_arr("t"); for (int i = 0; i < T; i++) { o_arr(NULL); for (size_t j = 0; j < w[i].n; j++) { rec *r = &w[i].log[j]; o_arr(NULL); o_int(NULL, r->kind); o_int(NULL, r->r); o_int(NULL, r->a); o_int(NULL, r->b); o_int(NULL, r->c); o_u64(NULL, r->t0); o_u64(NULL, r->t1); o_aend(); } o_aend(); free(w[i].log); } o_aend(); free(w);
  o_int("final", current()); o_int("made", vf_ctx_made - made0); o_int("live", vf_ctx_live); o_int("bad", vf_ctx_bad); }
OP("par.cb") { (void)n; int r; LIB(r = nostr_config_set_callback(a_int(v, 0) ? par_cb : NULL, (void *)(a_int(v, 0) ? 5L : 0L))); o_ret(r); }
#endif
