/* Threads that each encrypt, wrap and read back with keys of their own, or all with the same keys (read only). */
#include "driver.h"
#include <pthread.h>
typedef struct { pthread_t t; pthread_barrier_t *b; unsigned rng; int iters, share, id; nostr_privkey a, c; nostr_key A, C; long done; char bad[200]; } ew;
static unsigned er(ew *w) { w->rng ^= w->rng << 13; w->rng ^= w->rng >> 17; w->rng ^= w->rng << 5; return w->rng; }
#define BAD(...) do { if (!*w->bad) snprintf(w->bad, sizeof w->bad, __VA_ARGS__); } while (0)
static void *enc_run(void *p) { ew *w = p; pthread_barrier_wait(w->b);
  for (int i = 0; i < w->iters && !*w->bad; i++) {
    size_t l = 1 + er(w) % (er(w) % 8 ? 200 : 3000); char *t = malloc(l + 1); for (size_t j = 0; j < l; j++) t[j] = (char)('a' + er(w) % 26); t[l] = 0;
    char *c = NULL, *q = NULL; size_t n = 0; int r; unsigned k = er(w) % 8;
    if (k < 3) {
        if ((r = nostr_nip44_encrypt(&w->a, &w->C, t, l, &c))) BAD("nip44 encrypt: %d", r);
        else if ((r = nostr_nip44_decrypt(&w->c, &w->A, c, &q, &n)) || n != l || memcmp(q, t, l)) BAD("nip44 decrypt: %d, %zu of %zu bytes", r, n, l);
    } else if (k < 5) {
        if ((r = nostr_nip04_encrypt(&w->a, &w->C, t, &c))) BAD("nip04 encrypt: %d", r);
        else if ((r = nostr_nip04_decrypt(&w->c, &w->A, c, &q)) || strcmp(q, t)) BAD("nip04 decrypt: %d", r);
    } else if (k == 5) {
        nostr_event *e = NULL, *x = NULL; nostr_key s; memset(&s, 0, sizeof s);
        if ((r = nostr_nip17_send_dm(&e, t, &w->a, &w->C, er(w) & 1 ? "subject" : NULL, NULL, 0))) BAD("send: %d", r);
        else if ((r = nostr_nip17_unwrap_dm(e, &w->c, &x, &s)) || strcmp(x->content, t) || memcmp(&s, &w->A, 32) || memcmp(&x->pubkey, &w->A, 32)) BAD("unwrap_dm: %d", r);
        if (e) nostr_event_destroy(e);
        if (x) nostr_event_destroy(x);
    } else if (k == 6) {
        nostr_event *u = NULL, *e = NULL, *x = NULL; nostr_key s; memset(&s, 0, sizeof s);
        if ((r = nostr_nip59_create_rumor(&u, 1, &w->A, t)) || (r = nostr_nip59_wrap_event(&e, u, &w->a, &w->C))) BAD("wrap: %d", r);
        else if ((r = nostr_nip59_unwrap_event(e, &w->c, &x, &s)) || strcmp(x->content, t) || memcmp(&s, &w->A, 32) || memcmp(x->id, u->id, 32)) BAD("unwrap: %d", r);
        if (u) nostr_event_destroy(u);
        if (e) nostr_event_destroy(e);
        if (x) nostr_event_destroy(x);
    } else {
        nostr_nip46_response_t s; memset(&s, 0, sizeof s); snprintf(s.id, sizeof s.id, "%d-%d", w->id, i); s.result = strdup(t); nostr_event *e = NULL;
        if ((r = nostr_nip46_create_response(&s, &w->a, &w->C, &e))) BAD("nip46: %d", r);
        else { char want[64]; snprintf(want, sizeof want, "\"id\":\"%s\"", s.id); if ((r = nostr_nip44_decrypt(&w->c, &w->A, e->content, &q, &n)) || !strstr(q, want) || !strstr(q, t)) BAD("nip46 content: %d", r); }
        if (e) nostr_event_destroy(e);
        nostr_nip46_response_free(&s);
    }
    free(t); free(c); free(q); w->done++;
  }
  return NULL; }
/* enc.par THREADS ITERATIONS SEED JITTER SHARE: with SHARE every thread uses the first one's keys */
OP("enc.par") { UNUSED; int T = (int)a_int(v, 0), it = (int)a_int(v, 1); unsigned seed = (unsigned)a_u64(v, 2); int j = (int)a_int(v, 3), share = (int)a_int(v, 4); if (T > 16) die("threads"); ew W[16]; pthread_barrier_t b; pthread_barrier_init(&b, NULL, (unsigned)T);
  memset(W, 0, sizeof W);
  for (int i = 0; i < T; i++) { ew *w = &W[i]; w->id = i; w->rng = (seed * 2654435761u + (unsigned)i * 40503u) | 1; w->iters = it; w->b = &b; w->share = share;
    if (share && i) { w->a = W[0].a; w->c = W[0].c; w->A = W[0].A; w->C = W[0].C; } else if (nostr_key_generate(&w->a, &w->A) || nostr_key_generate(&w->c, &w->C)) die("keys"); }
  __atomic_store_n(&vf_jitter, j, __ATOMIC_RELAXED);
  for (int i = 0; i < T; i++) if (pthread_create(&W[i].t, NULL, enc_run, &W[i])) die("thread");
  for (int i = 0; i < T; i++) pthread_join(W[i].t, NULL);
  __atomic_store_n(&vf_jitter, 0, __ATOMIC_RELAXED); pthread_barrier_destroy(&b);
  long d = 0; o_arr("bad"); for (int i = 0; i < T; i++) { d += W[i].done; if (*W[i].bad) o_str(NULL, W[i].bad); } o_aend(); o_int("done", d); }
