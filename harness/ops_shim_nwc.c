/* NIP-46 and NIP-47: remote signer messages, wallet-connect messages and sessions */
#include "driver.h"
#include <pthread.h>
#include <time.h>
#define SENT ((nostr_event*)0x51)
static void give(char **v, int i, int r, nostr_event *e) {
    o_ret(r); int s = (int)a_int(v, i);
    if (r) { o_int("left", e != SENT && e != NULL); return; }
    if (EV[s]) LIB(nostr_event_destroy(EV[s]));
    EV[s] = e; o_event("e", e);
}
#define NC 8
static struct nwc_connection *CN[NC];
static void drop(int i) { if (CN[i]) { LIB(nostr_nip47_free_connection(CN[i])); CN[i] = NULL; } }
static void free_conns(void) { for (int i = 0; i < NC; i++) drop(i); }
RESET_HOOK(free_conns)
static void out(const char *k, int r, char *s) { if (r) { o_int(k, s != NULL); if (s) LIB(free(s)); } else { o_str(k, s); LIB(free(s)); } }
static void outs(const char *k, char **l, size_t n) { if (l) { o_strs(k, l, n); LIB({ for (size_t i = 0; i < n; i++) free(l[i]); free(l); }); } else o_int(k, (long long)n); }
OP("nw.uri") { UNUSED; int s = (int)a_int(v, 0) % NC; char *u = a_str(v, 1); drop(s); struct nwc_connection *c = (void *)SENT; int r; LIB(r = nostr_nip47_parse_connection_uri(u, &c)); o_ret(r); if (!r) CN[s] = c; else o_int("left", c != (void *)SENT && c); }
OP("nw.req") { UNUSED; char *m = a_str(v, 2), *p = a_str(v, 3); nostr_event *e = SENT; int r; LIB(r = nostr_nip47_create_request_event(&e, CN[a_int(v, 1) % NC], m, p, (int)a_int(v, 4))); give(v, 0, r, e); }
OP("nw.info") { UNUSED; char **a = NULL, **b = NULL, **c = NULL; size_t x = 0, y = 0, z = 0; int r; LIB(r = nostr_nip47_parse_info_event(ev(v, 0), &a, &x, &b, &y, &c, &z)); o_ret(r); outs("caps", a, x); outs("notifs", b, y); outs("encs", c, z); }
OP("nw.resp") { UNUSED; nostr_privkey k; a_fix(v, 1, k.data, 32); int m = n > 2 ? (int)a_int(v, 2) : 15; char *o[4] = { 0 }; int r;
    LIB(r = nostr_nip47_parse_response_event(ev(v, 0), &k, m & 1 ? &o[0] : NULL, m & 2 ? &o[1] : NULL, m & 4 ? &o[2] : NULL, m & 8 ? &o[3] : NULL)); o_ret(r); out("type", r, o[0]); out("result", r, o[1]); out("code", r, o[2]); out("message", r, o[3]); }
OP("nw.notif") { UNUSED; nostr_privkey k; a_fix(v, 1, k.data, 32); int m = n > 2 ? (int)a_int(v, 2) : 3; char *o[2] = { 0 }; int r; LIB(r = nostr_nip47_parse_notification_event(ev(v, 0), &k, m & 1 ? &o[0] : NULL, m & 2 ? &o[1] : NULL)); o_ret(r); out("type", r, o[0]); out("notif", r, o[1]); }
#define OPT(T, name, i) T name##_, *name = NULL; if (!a_null(v, i)) { name##_ = (T)a_u64(v, i); name = &name##_; }
OP("nw.pay") { UNUSED; char *o = NULL, *i = a_str(v, 0); OPT(uint64_t, a, 1) int r; LIB(r = nostr_nip47_create_pay_invoice_params(&o, i, a)); o_ret(r); out("p", r, o); }
OP("nw.make") { UNUSED; char *o = NULL, *d = a_str(v, 1), *h = a_str(v, 2); OPT(uint32_t, x, 3) int r; LIB(r = nostr_nip47_create_make_invoice_params(&o, a_u64(v, 0), d, h, x)); o_ret(r); out("p", r, o); }
OP("nw.list") { UNUSED; char *o = NULL, *t = a_str(v, 5); OPT(time_t, f, 0) OPT(time_t, u, 1) OPT(uint32_t, l, 2) OPT(uint32_t, of, 3) OPT(int, un, 4) int r; LIB(r = nostr_nip47_create_list_transactions_params(&o, f, u, l, of, un, t)); o_ret(r); out("p", r, o); }
OP("nw.lookup") { UNUSED; char *o = NULL, *h = a_str(v, 0), *i = a_str(v, 1); int r; LIB(r = nostr_nip47_create_lookup_invoice_params(&o, h, i)); o_ret(r); out("p", r, o); }
OP("nw.keysend") { UNUSED; char *o = NULL, *p = a_str(v, 1), *q = a_str(v, 2), **l; int k = a_list(v, 3, &l), r; LIB(r = nostr_nip47_create_pay_keysend_params(&o, a_u64(v, 0), p, q, (const char **)l, (size_t)k)); o_ret(r); out("p", r, o); }
/* ids, invoices, then one amount per invoice (or none) */
OP("nw.multi") { char *o = NULL, **d, **l; int k0 = a_list(v, 0, &d), k = a_list(v, 1, &l), r; uint64_t *a = NULL; if (k0 && k0 != k) die("ids"); if (n > 2) { a = d_alloc(8 * (size_t)k + 1); for (int i = 0; i < k; i++) a[i] = a_u64(v, 2 + i); }
    LIB(r = nostr_nip47_create_multi_pay_invoice_params(&o, k0 ? (const char **)d : NULL, (const char **)l, a, (size_t)k)); o_ret(r); out("p", r, o); }
OP("nw.const") { UNUSED; char *a = NULL, *b = NULL; int r, s; LIB(r = nostr_nip47_create_get_balance_params(&a); s = nostr_nip47_create_get_info_params(&b)); o_ret(r | s); out("balance", r, a); out("info", s, b); }
OP("nw.pbal") { UNUSED; char *j = a_str(v, 0); uint64_t b = 0xA5A5A5A5A5A5A5A5u; int r; LIB(r = nostr_nip47_parse_balance_response(j, &b)); o_ret(r); if (!r) o_u64("balance", b); }
OP("nw.ppay") { UNUSED; char *j = a_str(v, 0), *p = NULL; uint64_t f = 0xA5A5A5A5A5A5A5A5u; int r; LIB(r = nostr_nip47_parse_pay_invoice_response(j, &p, &f)); o_ret(r); out("preimage", r, p); if (!r) o_u64("fees", f); }
OP("nw.pinfo") { UNUSED; char *j = a_str(v, 0), *o[4] = { 0 }, **m = NULL; uint32_t h = 0xA5A5A5A5u; size_t k = 0; int r; LIB(r = nostr_nip47_parse_info_response(j, &o[0], &o[1], &o[2], &o[3], &h, &m, &k)); o_ret(r); out("alias", r, o[0]); out("color", r, o[1]); out("pubkey", r, o[2]); out("network", r, o[3]); if (!r) o_u64("height", h); outs("methods", m, k); }
/* sessions */
OP("ns.init") { UNUSED; int r; LIB(r = nostr_nip47_session_init()); o_ret(r); }
OP("ns.create") { UNUSED; char *u = a_str(v, 0), *id = NULL; int r; LIB(r = nostr_nip47_session_create(u, &id)); o_ret(r); out("id", r, id); }
OP("ns.perm") { UNUSED; char *s = a_str(v, 0), *p = a_str(v, 1); int r; LIB(r = nostr_nip47_session_add_permission(s, p, a_u64(v, 2), (uint32_t)a_u64(v, 3))); o_ret(r); }
OP("ns.check") { UNUSED; char *s = a_str(v, 0), *p = a_str(v, 1); int r; LIB(r = nostr_nip47_session_check_permission(s, p, a_u64(v, 2))); o_ret(r); }
/* the connection of a session, shown by a request made with it */
OP("ns.conn") { UNUSED; char *s = a_str(v, 0); struct nwc_connection *c = NULL; int r; LIB(r = nostr_nip47_session_get_connection(s, &c)); if (r) { o_ret(r); o_int("left", c != NULL); return; } o_ret(c ? 0 : -99); if (!c) return; nostr_event *e = NULL; LIB(r = nostr_nip47_create_request_event(&e, c, "get_info", "{}", 1)); o_int("req", r); if (!r) { o_event("e", e); LIB(nostr_event_destroy(e)); } }
OP("ns.extend") { UNUSED; char *s = a_str(v, 0); int r; LIB(r = nostr_nip47_session_extend(s, (uint32_t)a_u64(v, 1))); o_ret(r); }
OP("ns.destroy") { UNUSED; char *s = a_str(v, 0); int r; LIB(r = nostr_nip47_session_destroy(s)); o_ret(r); }
/* many threads on shared sessions: ns.par THREADS ITERATIONS SEED JITTER MIX URI session... ; every call is recorded: [kind, session, amount, result, begin, end] */
void vf_delay(void);
#define MS 64
static char *SID[MS]; static int nsid; static pthread_mutex_t sidlock = PTHREAD_MUTEX_INITIALIZER; static char *par_uri; static const char *par_mix; static int par_iters;
typedef struct { int kind, s, r; unsigned long long a, t0, t1; } rec;
typedef struct { pthread_t t; unsigned rng; pthread_barrier_t *b; rec *log; int n; } wk;
static unsigned rnd(wk *w) { w->rng ^= w->rng << 13; w->rng ^= w->rng >> 17; w->rng ^= w->rng << 5; return w->rng; }
static unsigned long long ns(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (unsigned long long)t.tv_sec * 1000000000u + (unsigned long long)t.tv_nsec; }
static void *par_run(void *arg) { wk *w = arg; pthread_barrier_wait(w->b);
    for (int i = 0; i < par_iters; i++) { rec x = { par_mix[rnd(w) % strlen(par_mix)], 0, 0, 0, 0, 0 }; pthread_mutex_lock(&sidlock); int k = nsid; x.s = (int)(rnd(w) % (unsigned)(k ? k : 1)); char *id = k ? strdup(SID[x.s]) : NULL; pthread_mutex_unlock(&sidlock); if (!id && x.kind != 'n') continue;
        if (rnd(w) & 1) vf_delay();
        switch (x.kind) {
        case 'c': x.a = 1 + rnd(w) % 50; x.t0 = ns(); x.r = nostr_nip47_session_check_permission(id, "pay", x.a); x.t1 = ns(); break;
        case 'o': x.a = 1 + rnd(w) % 3; x.t0 = ns(); x.r = nostr_nip47_session_check_permission(id, "other", x.a); x.t1 = ns(); break;
        case 'h': x.a = ~0ull - rnd(w) % 60; x.t0 = ns(); x.r = nostr_nip47_session_check_permission(id, "pay", x.a); x.t1 = ns(); break;
        case 'e': x.t0 = ns(); x.r = nostr_nip47_session_extend(id, 1 + rnd(w) % 100); x.t1 = ns(); break;
        case 'g': { struct nwc_connection *c = NULL; x.t0 = ns(); x.r = nostr_nip47_session_get_connection(id, &c); x.t1 = ns(); if (!x.r && !c) x.r = -99; break; }
        case 'p': x.a = 1; x.t0 = ns(); x.r = nostr_nip47_session_add_permission(id, "late", 5, 4000000000u); x.t1 = ns(); break;
        case 'l': x.a = 1 + rnd(w) % 5; x.t0 = ns(); x.r = nostr_nip47_session_check_permission(id, "late", x.a); x.t1 = ns(); break;
        case 'd': x.t0 = ns(); x.r = nostr_nip47_session_destroy(id); x.t1 = ns(); break;
        case 'n': { char *nid = NULL; x.t0 = ns(); x.r = nostr_nip47_session_create(par_uri, &nid); if (!x.r) x.r = nostr_nip47_session_add_permission(nid, "pay", 200, 4000000000u); x.t1 = ns(); pthread_mutex_lock(&sidlock); x.s = -1; if (!x.r && nsid < MS) { x.s = nsid; SID[nsid++] = nid; nid = NULL; } pthread_mutex_unlock(&sidlock); if (nid) { nostr_nip47_session_destroy(nid); free(nid); } break; }
        }
        w->log[w->n++] = x; free(id);
    } return NULL; }
OP("ns.par") { int T = (int)a_int(v, 0); par_iters = (int)a_int(v, 1); unsigned seed = (unsigned)a_u64(v, 2); int j = (int)a_int(v, 3); par_mix = a_str(v, 4); par_uri = a_str(v, 5); nsid = 0; for (int i = 6; i < n && nsid < MS; i++) SID[nsid++] = strdup(a_str(v, i));
    if (T > 16) die("threads"); wk W[16]; pthread_barrier_t b; pthread_barrier_init(&b, NULL, (unsigned)T); __atomic_store_n(&vf_jitter, j, __ATOMIC_RELAXED);
    for (int i = 0; i < T; i++) { W[i] = (wk){ .rng = seed * 2654435761u + (unsigned)i * 40503u + 1, .b = &b, .log = calloc((size_t)par_iters, sizeof(rec)) }; if (pthread_create(&W[i].t, NULL, par_run, &W[i])) die("thread"); }
    for (int i = 0; i < T; i++) pthread_join(W[i].t, NULL); __atomic_store_n(&vf_jitter, 0, __ATOMIC_RELAXED); pthread_barrier_destroy(&b);
    o_arr("log"); for (int i = 0; i < T; i++) { for (int k = 0; k < W[i].n; k++) { rec *x = &W[i].log[k]; o_arr(NULL); o_int(NULL, x->kind); o_int(NULL, x->s); o_u64(NULL, x->a); o_int(NULL, x->r); o_u64(NULL, x->t0); o_u64(NULL, x->t1); o_int(NULL, i); o_aend(); } free(W[i].log); } o_aend();
    o_int("ids", nsid); for (int i = 0; i < nsid; i++) { nostr_nip47_session_destroy(SID[i]); free(SID[i]); SID[i] = NULL; } nsid = 0; }
/* remote signer */
OP("n46.parse") { UNUSED; nostr_privkey k; a_fix(v, 1, k.data, 32); nostr_nip46_request_t q; memset(&q, 0xA5, sizeof q); int r; LIB(r = nostr_nip46_parse_request(ev(v, 0), &k, &q)); o_ret(r); if (!r) { o_int("term", memchr(q.id, 0, sizeof q.id) && memchr(q.method, 0, sizeof q.method)); o_str("id", q.id); o_str("method", q.method); o_str("params", q.params); o_int("len", q.params ? (long long)(q.params_len - strlen(q.params)) : 0); o_hex("sender", q.sender_pubkey.data, 32); LIB(nostr_nip46_request_free(&q)); } }
OP("n46.resp") { UNUSED; nostr_nip46_response_t q; memset(&q, 0, sizeof q); char *id = a_str(v, 1); if (strlen(id) >= sizeof q.id) die("id"); strcpy(q.id, id); q.result = a_null(v, 2) ? NULL : strdup(a_str(v, 2)); q.error = a_null(v, 3) ? NULL : strdup(a_str(v, 3)); nostr_privkey k; nostr_key p; a_fix(v, 4, k.data, 32); a_fix(v, 5, p.data, 32); nostr_event *e = SENT; int r;
    LIB(r = nostr_nip46_create_response(&q, &k, &p, &e)); give(v, 0, r, e); LIB(nostr_nip46_response_free(&q)); }
