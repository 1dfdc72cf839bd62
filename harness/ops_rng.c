#include "driver.h"
#include <pthread.h>
#include <sys/mman.h>
/* a request far larger than any chunk: the draws must tile the buffer exactly */
OP("rng.big") { (void)n; unsigned long long m = a_u64(v, 0); unsigned char *p = mmap(NULL, m + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { o_int("nomap", 1); return; }
  int old = vf_rng_mode; vf_rng_mode = 3; vf_tile_next = p; vf_tile_total = 0; vf_tile_bad = 0;
  int r; LIB(r = nostr_random_bytes(p, m)); vf_rng_mode = old; munmap(p, m + 4096);
  o_ret(r); o_u64("total", vf_tile_total); o_int("bad", vf_tile_bad); }
struct rt { int n, len, how; unsigned char *out; long fail; pthread_barrier_t *b; };
static void *rt_run(void *a) { struct rt *t = a; pthread_barrier_wait(t->b);
  for (int i = 0; i < t->n; i++) { unsigned char *o = t->out + (size_t)i * t->len;
    if (t->how == 0) { if (nostr_random_bytes(o, t->len) != 1) t->fail++; }
    else { nostr_privkey k; nostr_key q; if (nostr_key_generate(&k, &q) != NOSTR_OK) t->fail++; memcpy(o, k.data, 32); } }
  return NULL; }
/* threads, draws per thread, bytes per draw, how: 0 nostr_random_bytes, 1 key generation. Reports duplicate outputs. */
static int cmplen; static int cmpf(const void *a, const void *b) { return memcmp(*(void *const *)a, *(void *const *)b, cmplen); }
OP("rng.threads") { (void)n; int T = a_int(v, 0), N = a_int(v, 1), L = a_int(v, 2), how = a_int(v, 3); if (how) L = 32;
  struct rt *t = calloc(T, sizeof *t); pthread_t *th = calloc(T, sizeof *th); pthread_barrier_t b; pthread_barrier_init(&b, NULL, T); long fail = 0, dup = 0;
  for (int i = 0; i < T; i++) { t[i] = (struct rt){ N, L, how, calloc(N, L), 0, &b }; pthread_create(&th[i], NULL, rt_run, &t[i]); }
  for (int i = 0; i < T; i++) { pthread_join(th[i], NULL); fail += t[i].fail; }
  void **p = malloc(sizeof *p * T * N); for (int i = 0; i < T; i++) for (int j = 0; j < N; j++) p[i * N + j] = t[i].out + (size_t)j * L;
  cmplen = L; qsort(p, (size_t)T * N, sizeof *p, cmpf); for (int i = 1; i < T * N; i++) if (!memcmp(p[i-1], p[i], L)) dup++;
  for (int i = 0; i < T; i++) free(t[i].out); free(t); free(th); free(p); pthread_barrier_destroy(&b);
  o_int("fail", fail); o_int("dup", dup); o_int("draws", (long)T * N); }
