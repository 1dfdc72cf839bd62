/* relay connections over the scripted transport: every callback is recorded */
#include "driver.h"
#include "lws_stub.h"
#include <pthread.h>
#include <unistd.h>
#include <time.h>
#define NR 24
typedef struct note { char k; int a; char *s, *t; size_t n; nostr_event *e; long ret; struct note *next; } note;
typedef struct { nostr_relay *r; void *ctx; int gone, late; pthread_mutex_t m; note *head, *tail; size_t nn;
  /* script: act when the cnt-th callback of the given kind comes */
  struct { char on; int act; char *id, *filters; int tok; int left; } sc[4]; } slot;
static slot S[NR];
typedef struct { int i, tok; } tokn;
static tokn TK[NR][64];
__attribute__((constructor)) static void init(void) { for (int i = 0; i < NR; i++) { pthread_mutex_init(&S[i].m, NULL); for (int j = 0; j < 64; j++) { TK[i][j].i = i; TK[i][j].tok = j; } } }
static void note_free(note *x) { free(x->s); free(x->t); free(x); }
static note *note_add(slot *s, char k, int a, const char *str, const char *str2) {
  note *x = calloc(1, sizeof *x); x->k = k; x->a = a; if (str) x->s = strdup(str); if (str2) x->t = strdup(str2); x->ret = -1;
  pthread_mutex_lock(&s->m); if (s->gone) s->late++; if (s->tail) s->tail->next = x; else s->head = x; s->tail = x; s->nn++; pthread_mutex_unlock(&s->m); return x; }
static void on_event(const nostr_event *e, void *u); static void on_msg(const char *t, const char *d, void *u); static void on_state(nostr_relay *r, nostr_relay_state st, void *u);
/* what a callback may do itself */
static void script(slot *s, char k) {
  for (int j = 0; j < 4; j++) {
    pthread_mutex_lock(&s->m); int go = s->sc[j].on == k && s->sc[j].left > 0 && --s->sc[j].left == 0; int act = s->sc[j].act, tok = s->sc[j].tok; char *id = s->sc[j].id, *fl = s->sc[j].filters; nostr_relay *r = s->r; pthread_mutex_unlock(&s->m);
    if (!go || !r) continue;
    int i = (int)(s - S); long ret = -2;
    switch (act) {
      case 'd': ret = nostr_relay_disconnect(r); break;
      case 'u': ret = nostr_subscribe(r, id, fl, on_event, &TK[i][tok]); break;
      case 'U': ret = nostr_relay_unsubscribe(r, id); break;
      case 'c': ret = nostr_relay_connect(r, on_state, &TK[i][tok]); break;
      case 'x': nostr_relay_destroy(r); ret = 0; break;
      case 'm': ret = nostr_relay_set_message_callback(r, on_msg, &TK[i][tok]); break;
      case 's': if (EV[0]) ret = nostr_relay_send_event(r, EV[0]); break;
    }
    note *x = note_add(s, 'A', act, NULL, NULL); x->ret = ret;
  }
}
static char *evtext(const nostr_event *e) { char *j = NULL; if (nostr_event_to_json(e, &j) != NOSTR_OK || !j) return NULL; char *c = strdup(j); free(j); return c; }
static void on_event(const nostr_event *e, void *u) { tokn *t = u; slot *s = &S[t->i]; char *j = evtext(e); note_add(s, 'E', t->tok, j, NULL); free(j); script(s, 'E'); }
static void on_msg(const char *ty, const char *d, void *u) { tokn *t = u; slot *s = &S[t->i]; note_add(s, 'M', t->tok, ty, d); script(s, 'M'); }
static void on_state(nostr_relay *r, nostr_relay_state st, void *u) { tokn *t = u; slot *s = &S[t->i]; note *x = note_add(s, 'S', t->tok, NULL, NULL); x->ret = (long)st + (r == s->r ? 0 : 100) + ((int)r->state == (int)st ? 0 : 1000); script(s, 'S'); }
static void clear(slot *s) { while (s->head) { note *n = s->head->next; note_free(s->head); s->head = n; } s->tail = NULL; s->nn = 0;
  for (int j = 0; j < 4; j++) { free(s->sc[j].id); free(s->sc[j].filters); memset(&s->sc[j], 0, sizeof s->sc[j]); } }
static void rl_reset(void) {
  stub_fail_context = stub_fail_connect = stub_fail_write = stub_connect_cce = stub_autoconnect = 0; vf_jitter = 0;
  for (int i = 0; i < NR; i++) { for (int j = 0; j < 4; j++) S[i].sc[j].left = 0; if (S[i].r) { LIB(nostr_relay_destroy(S[i].r)); S[i].r = NULL; } S[i].ctx = NULL; S[i].gone = S[i].late = 0; clear(&S[i]); }
  stub_log_clear(); stub_forget_ids(); }
#ifndef VF_PAR
RESET_HOOK(rl_reset)
#endif
static slot *sl(char **v) { int i = a_int(v, 0); if (i < 0 || i >= NR) die("bad relay slot"); return &S[i]; }
static int st(slot *s) { return (int)__atomic_load_n(&s->r->state, __ATOMIC_ACQUIRE); }
OP("rl.new") { (void)n; slot *s = sl(v); char *u = a_str(v, 1); nostr_relay *r = (void *)8; int e; LIB(e = nostr_relay_create(&r, u)); o_ret(e); if (!e) { s->r = r; s->gone = 0; s->ctx = NULL; o_int("state", r->state); o_str("url", r->url); if (r->url == u) o_int("alias", 1); } }
OP("rl.nulls") { UNUSED; int bad = 0; nostr_relay *r = NULL; nostr_event *e = NULL; nostr_event_create(&e);
  LIB({ bad += nostr_relay_create(NULL, "ws://x") == 0; bad += nostr_relay_create(&r, NULL) == 0; nostr_relay_destroy(NULL); bad += nostr_relay_connect(NULL, on_state, NULL) == 0; bad += nostr_relay_disconnect(NULL) == 0; bad += nostr_relay_send_event(NULL, e) == 0; bad += nostr_publish_event(NULL, e) == 0; bad += nostr_subscribe(NULL, "a", "{}", on_event, NULL) == 0; bad += nostr_relay_unsubscribe(NULL, "a") == 0; bad += nostr_relay_set_message_callback(NULL, on_msg, NULL) == 0; });
  nostr_event_destroy(e); if (r) nostr_relay_destroy(r); o_ret(bad); }
OP("rl.connect") { slot *s = sl(v); int tok = a_int(v, 1), i = a_int(v, 0), e; if (!s->r) die("no relay");
  LIB(e = nostr_relay_connect(s->r, n > 2 ? NULL : on_state, &TK[i][tok])); o_ret(e); if (!e) s->ctx = stub_last_context(); else if (!s->r->ws_handle) s->ctx = NULL; o_int("state", st(s)); o_int("ws", s->r->ws_handle != NULL); }
OP("rl.disconnect") { (void)n; slot *s = sl(v); int e; LIB(e = nostr_relay_disconnect(s->r)); o_ret(e); if (!s->r->ws_handle) s->ctx = NULL; o_int("state", st(s)); o_int("ws", s->r->ws_handle != NULL); }
OP("rl.destroy") { (void)n; slot *s = sl(v); nostr_relay *r = s->r; pthread_mutex_lock(&s->m); for (int j = 0; j < 4; j++) s->sc[j].left = 0; pthread_mutex_unlock(&s->m); LIB(nostr_relay_destroy(r)); pthread_mutex_lock(&s->m); s->r = NULL; s->gone = 1; pthread_mutex_unlock(&s->m); s->ctx = NULL; o_int("live", stub_live_contexts()); }
OP("rl.state") { (void)n; slot *s = sl(v); o_int("state", st(s)); o_int("ws", s->r->ws_handle != NULL); o_int("live", stub_live_contexts()); }
OP("rl.sub") { slot *s = sl(v); int i = a_int(v, 0), tok = a_int(v, 3), e; char *id = a_str(v, 1), *f = a_str(v, 2); LIB(e = nostr_subscribe(s->r, id, f, n > 4 ? NULL : on_event, &TK[i][tok])); o_ret(e); if (id) memset(id, 'Z', strlen(id)); if (f) memset(f, 'Z', strlen(f)); }
OP("rl.unsub") { (void)n; slot *s = sl(v); int e; char *id = a_str(v, 1); LIB(e = nostr_relay_unsubscribe(s->r, id)); o_ret(e); }
OP("rl.send") { (void)n; slot *s = sl(v); int e; nostr_event *x = a_null(v, 1) ? NULL : ev(v, 1); if (a_int(v, 2)) LIB(e = nostr_publish_event(s->r, x)); else LIB(e = nostr_relay_send_event(s->r, x)); o_ret(e); }
OP("rl.cb") { slot *s = sl(v); (void)n; int i = a_int(v, 0), e; LIB(e = nostr_relay_set_message_callback(s->r, a_null(v, 1) ? NULL : on_msg, a_null(v, 1) ? NULL : &TK[i][a_int(v, 1)])); o_ret(e); }
/* stand in for the relay's side; answers once the service thread has handled it */
OP("rl.inj") { (void)n; slot *s = sl(v); size_t l = 0; uint8_t *b = a_buf(v, 2, &l); int e; LIB(e = s->ctx ? stub_inject(s->ctx, a_int(v, 1), b, l, 30000) : -1); o_ret(e); if (s->r) { o_int("state", st(s)); } }
OP("rl.post") { (void)n; slot *s = sl(v); size_t l = 0; uint8_t *b = a_buf(v, 2, &l); o_ret(s->ctx ? stub_post(s->ctx, a_int(v, 1), b, l) : -1); }
OP("rl.script") { (void)n; slot *s = sl(v); int j = a_int(v, 1); char *on = a_str(v, 2), *act = a_str(v, 3), *id = a_str(v, 5), *f = a_str(v, 6);
  pthread_mutex_lock(&s->m); free(s->sc[j].id); free(s->sc[j].filters); s->sc[j].on = on[0]; s->sc[j].act = act[0]; s->sc[j].left = a_int(v, 4); s->sc[j].id = id ? strdup(id) : NULL; s->sc[j].filters = f ? strdup(f) : NULL; s->sc[j].tok = a_int(v, 7); pthread_mutex_unlock(&s->m); }
OP("rl.log") { (void)n; slot *s = sl(v); pthread_mutex_lock(&s->m); note *h = s->head; s->head = s->tail = NULL; s->nn = 0; int late = s->late; pthread_mutex_unlock(&s->m); o_int("late", late); o_arr("log");
  while (h) { o_obj(NULL); char k[2] = { h->k, 0 }; o_str("k", k); o_int("a", h->a); o_str("s", h->s); o_str("t", h->t); o_int("r", h->ret); o_end(); note *x = h->next; note_free(h); h = x; } o_aend(); }
OP("rl.wire") { UNUSED; o_arr("log"); for (size_t i = 0; i < stub_log_count(); i++) { size_t l; char t[2] = { 0, 0 }; int id; const char *p = stub_log_get(i, &l, t, &id); o_obj(NULL); o_str("k", t); o_int("c", id); o_hex("s", p, l); o_end(); } o_aend(); stub_log_clear(); }
OP("rl.fail") { (void)n; stub_fail_context = a_int(v, 0); stub_fail_connect = a_int(v, 1); stub_fail_write = a_int(v, 2); stub_connect_cce = a_int(v, 3); }
/* several relays, each driven by its own thread */
typedef struct { int i, rounds; unsigned seed; nostr_event *e; char **msgs; int nmsgs; long sent, got, bad; char why[160]; } par;
static unsigned rnd(unsigned *s) { *s ^= *s << 13; *s ^= *s >> 17; *s ^= *s << 5; return *s; }
#define PBAD(...) do { if (!p->bad++) snprintf(p->why, sizeof p->why, __VA_ARGS__); } while (0)
static void *par_main(void *arg) {
  par *p = arg; slot *s = &S[p->i];
  for (int k = 0; k < p->rounds; k++) {
    char url[64]; snprintf(url, sizeof url, "ws://relay%d.example:%d/p%d", p->i, 1000 + p->i, k); nostr_relay *r = NULL;
    if (nostr_relay_create(&r, url)) { PBAD("create"); continue; }
    pthread_mutex_lock(&s->m); s->r = r; s->gone = 0; pthread_mutex_unlock(&s->m);
    nostr_relay_set_message_callback(r, on_msg, &TK[p->i][1]);
    if (nostr_relay_connect(r, on_state, &TK[p->i][0])) { PBAD("connect"); nostr_relay_destroy(r); continue; }
    void *c = stub_last_context();
    if (rnd(&p->seed) & 7) {
      if (rnd(&p->seed) & 1) stub_inject(c, ACT_ESTABLISHED, NULL, 0, 30000);
      else { stub_post(c, ACT_ESTABLISHED, NULL, 0); for (int q = 0; q < 30000 && (nostr_relay_unsubscribe(r, "none") != NOSTR_OK); q++) usleep(200); }
      if (st(s) != NOSTR_RELAY_CONNECTED) PBAD("not connected");
      if (nostr_subscribe(r, "sub", "{\"kinds\":[1]}", on_event, &TK[p->i][2])) PBAD("subscribe");
      for (int j = 0; j < p->nmsgs; j++) {
        const char *m = p->msgs[j]; size_t l = strlen(m);
        while (l) { size_t q = 1 + rnd(&p->seed) % l; stub_post(c, q == l ? ACT_RECEIVE : ACT_RECEIVE_PART, m, q); m += q; l -= q; }
        p->sent++;
        switch (rnd(&p->seed) % 6) {
          case 0: if (nostr_relay_send_event(r, p->e)) PBAD("send"); break;
          case 1: { char id[8]; snprintf(id, sizeof id, "s%u", rnd(&p->seed) % 5); if (nostr_subscribe(r, id, "{}", on_event, &TK[p->i][3])) PBAD("subscribe again"); break; }
          case 2: { char id[8]; snprintf(id, sizeof id, "s%u", rnd(&p->seed) % 5); if (nostr_relay_unsubscribe(r, id)) PBAD("unsubscribe"); break; }
          case 3: nostr_relay_set_message_callback(r, on_msg, &TK[p->i][1]); break;
          case 4: if (st(s) != NOSTR_RELAY_CONNECTED) PBAD("state changed"); break;
        }
      }
      stub_inject(c, ACT_NOP, NULL, 0, 60000);
      switch (rnd(&p->seed) % 5) { case 2: case 3: /* requests meet the loss of the connection: they may fail, nothing else */
        stub_post(c, ACT_CLOSED, NULL, 0); for (int q = 0; q < 25; q++) { switch (q % 3) { case 0: nostr_relay_send_event(r, p->e); break; case 1: nostr_subscribe(r, "z", "{}", on_event, &TK[p->i][3]); break; default: nostr_relay_unsubscribe(r, "z"); } } break;
      case 0: stub_post(c, ACT_CLOSED, NULL, 0); break; case 1: stub_inject(c, ACT_CLOSED, NULL, 0, 30000); if (st(s) == NOSTR_RELAY_CONNECTED) PBAD("still connected"); if (nostr_subscribe(r, "x", "{}", on_event, NULL) == NOSTR_OK) PBAD("subscribed when closed"); break; }
    } else if (rnd(&p->seed) & 1) stub_post(c, ACT_CONNERR, NULL, 0);
    if (rnd(&p->seed) & 1) { if (nostr_relay_disconnect(r)) PBAD("disconnect"); }
    nostr_relay_destroy(r); pthread_mutex_lock(&s->m); s->gone = 1; s->r = NULL; pthread_mutex_unlock(&s->m);
    note *x = note_add(s, '|', (int)p->sent, NULL, NULL); (void)x; pthread_mutex_lock(&s->m); s->late--; pthread_mutex_unlock(&s->m); p->sent = 0;
  }
  return NULL;
}
OP("rl.par") { (void)n; int nt = a_int(v, 0), rounds = a_int(v, 1); char **m; int nm = a_list(v, 3, &m); static par P[NR]; pthread_t t[NR]; vf_jitter = a_int(v, 4);
  for (int i = 0; i < nt; i++) { memset(&P[i], 0, sizeof P[i]); P[i].i = i; P[i].rounds = rounds; P[i].seed = (unsigned)a_int(v, 2) * 2654435761u + (unsigned)i * 97 + 1; P[i].msgs = m; P[i].nmsgs = nm; P[i].e = EV[0]; }
  LIB({ for (int i = 0; i < nt; i++) pthread_create(&t[i], NULL, par_main, &P[i]); for (int i = 0; i < nt; i++) pthread_join(t[i], NULL); }); vf_jitter = 0;
  o_int("live", stub_live_contexts()); o_arr("bad"); for (int i = 0; i < nt; i++) if (P[i].bad) o_str(NULL, P[i].why); o_aend(); }
