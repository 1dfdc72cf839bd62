#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <malloc.h>
#include <pthread.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/random.h>
#include <unistd.h>
#include <sched.h>
#ifdef VF_MBEDTLS
#include <mbedtls/entropy.h>
#include <mbedtls/ctr_drbg.h>
#endif
#include <openssl/rand.h>
#include <openssl/sha.h>
#ifdef VF_SEC
extern void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t); extern char *__real_strdup(const char *), *__real_strndup(const char *, size_t);
extern void __real_free(void *); extern time_t __real_time(time_t *); extern int __real_RAND_bytes(unsigned char *, int);
#undef strdup
#undef strndup
#define malloc __real_malloc
#define calloc __real_calloc
#define realloc __real_realloc
#define free __real_free
#define strdup __real_strdup
#define strndup __real_strndup
#define time __real_time
#define RAND_bytes __real_RAND_bytes
#endif

VFT long vf_allocs, vf_alloc_hit, vf_draws, vf_draw_hit;
static VFT long fail_alloc_at, fail_rng_at;
static VFT int active;
int vf_det;                     /* deterministic clock when no fake time is set */
static VFT long time_calls;
static __thread int in_hook;
VFT int vf_rng_mode, vf_rng_fail_all, vf_rng_special, vf_rng_log;
VFT uint64_t vf_rng_ctr;
VFT unsigned char *vf_rnglog; VFT size_t vf_rnglog_len;
static VFT size_t rnglog_cap;
VFT long long vf_fake_time, vf_time_step;
VFT long vf_fail_thread; static VFT long thread_no;
VFT long vf_secret_hits, vf_frees_scanned; VFT char vf_secret_where[256];
static pthread_mutex_t rl = PTHREAD_MUTEX_INITIALIZER;
#ifdef VF_PAR               /* a lock of the monitor would order the library's threads */
#define rl_lock() ((void)0)
#define rl_unlock() ((void)0)
#else
#define rl_lock() pthread_mutex_lock(&rl)
#define rl_unlock() pthread_mutex_unlock(&rl)
#endif

#ifdef VF_SEC
extern long vf_oallocs, vf_oalloc_hit, vf_ofail;
#endif
void vf_op(void) {
#ifdef VF_SEC
  vf_oallocs = vf_oalloc_hit = 0;
#endif
  vf_allocs = vf_alloc_hit = vf_draws = vf_draw_hit = 0; thread_no = 0; time_calls = 0; }
void vf_begin(long fa, long fr) {
  fail_alloc_at = fa; fail_rng_at = fr; active = 1; }
void vf_end(void) { active = 0; fail_alloc_at = 0; fail_rng_at = 0; vf_fail_thread = 0; }

#ifdef VF_NOCOUNT           /* TSan builds: no shared counters in the allocator */
static int afail(void) { return 0; }
#else
static int afail(void) {
  if (!active) return 0;
  long n = __atomic_add_fetch(&vf_allocs, 1, __ATOMIC_RELAXED);
  if (fail_alloc_at && n == fail_alloc_at) { vf_alloc_hit = 1; errno = ENOMEM; return 1; }
  return 0;
}
#endif
#ifdef VF_SEC
void *vf_malloc(size_t n) { if (afail()) return NULL; void *p = malloc(n); if (p && active) memset(p, 0xA5, malloc_usable_size(p)); return p; }
#else
void *vf_malloc(size_t n) { if (afail()) return NULL; return malloc(n); }
#endif
void *vf_calloc(size_t a, size_t b) { if (afail()) return NULL; return calloc(a, b); }
#ifdef VF_SEC
#define VF_NSEC 600
#else
#define VF_NSEC 32
#endif
struct vf_sec { unsigned char b[128]; size_t n; };
#ifdef VF_SEC               /* in the heap: static memory is scanned */
static struct vf_sec *sec; static int nsec;
#else
static VFT struct vf_sec sec[VF_NSEC]; static VFT int nsec;
#endif
void vf_secret_clear(void) { nsec = 0; vf_secret_hits = 0; vf_secret_where[0] = 0; vf_frees_scanned = 0; }
void vf_secret_add(const void *p, size_t n) { if (nsec < VF_NSEC && n >= 8) { if (n > 128) n = 128; memcpy(sec[nsec].b, p, n); sec[nsec].n = n; nsec++; } }
int vf_scan(const void *p, size_t n) {
  for (int i = 0; i < nsec; i++) if (n >= sec[i].n && memmem(p, n, sec[i].b, sec[i].n)) return i;
  return -1;
}
static void scan_free(void *p, const char *how) {
  if (!p || !nsec || in_hook) return;
#ifdef VF_SEC
  if (!active) return;          /* the harness' own */
#endif
  in_hook = 1;
  size_t n = malloc_usable_size(p);
  vf_frees_scanned++;
  int i = vf_scan(p, n);
  if (i >= 0) { vf_secret_hits++; if (!vf_secret_where[0]) snprintf(vf_secret_where, sizeof vf_secret_where, "%s of %zu bytes contains secret #%d", how, n, i); }
  in_hook = 0;
}
void *vf_realloc(void *p, size_t n) {
  if (afail()) return NULL;
  if (p && nsec) { /* always move, so the old block's content is what the allocator gets back */
    size_t old = malloc_usable_size(p); void *q = malloc(n); if (!q) return NULL;
    memcpy(q, p, old < n ? old : n); scan_free(p, "realloc"); free(p); return q; }
  return realloc(p, n);
}
char *vf_strdup(const char *s) { if (afail()) return NULL; return strdup(s); }
char *vf_strndup(const char *s, size_t n) { if (afail()) return NULL; return strndup(s, n); }
#ifdef VF_SEC
/* nothing the harness or the library frees may turn up again in an uninitialised block */
void vf_free(void *p) { scan_free(p, "free"); if (p && !in_hook) explicit_bzero(p, malloc_usable_size(p)); free(p); }
unsigned char *vf_stack_copy; long vf_stack_scans, vf_stack_deep;
#include <sys/mman.h>
char *vf_alt_lo, *vf_alt_hi;       /* stack of the other libraries' functions */
__attribute__((constructor)) static void sec_init(void) { vf_alt_lo = mmap(NULL, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); vf_alt_hi = vf_alt_lo + (1 << 20); vf_stack_copy = calloc(1, VF_STACK); sec = calloc(VF_NSEC, sizeof *sec); }
/* failures inside OpenSSL: its allocator is replaced before it makes its first allocation */
#include <openssl/crypto.h>
long vf_oallocs, vf_oalloc_hit, vf_ofail;
static int ofail(void) { if (!active) return 0; if (++vf_oallocs == vf_ofail) { vf_oalloc_hit = 1; return 1; } return 0; }
static void *om(size_t n, const char *f, int l) { (void)f; (void)l; return ofail() ? NULL : malloc(n); }
static void *orl(void *p, size_t n, const char *f, int l) { (void)f; (void)l; return ofail() ? NULL : realloc(p, n); }
static void of(void *p, const char *f, int l) { (void)f; (void)l; free(p); }
__attribute__((constructor)) static void ossl_init(void) { CRYPTO_set_mem_functions(om, orl, of); }
extern char __data_start[], _end[];
void vf_scan_residue(void) {
  if (!nsec) return;
  vf_stack_scans++;
  size_t k = 0; while (k < VF_STACK && !vf_stack_copy[k]) k++;
  if ((long)(VF_STACK - k) > vf_stack_deep) vf_stack_deep = VF_STACK - k;
  int i = vf_scan(vf_stack_copy + k, VF_STACK - k);
  if (i >= 0) { unsigned char *h = memmem(vf_stack_copy + k, VF_STACK - k, sec[i].b, sec[i].n);
    vf_secret_hits++; if (!vf_secret_where[0]) snprintf(vf_secret_where, sizeof vf_secret_where, "stack %ld bytes below the caller contains secret #%d", (long)(vf_stack_copy + VF_STACK - h), i); }
  i = vf_scan(__data_start, (size_t)(_end - __data_start));
  if (i >= 0) { vf_secret_hits++; if (!vf_secret_where[0]) snprintf(vf_secret_where, sizeof vf_secret_where, "static memory contains secret #%d", i); }
}
#else
void vf_free(void *p) { scan_free(p, "free"); free(p); }
#endif

time_t vf_time(time_t *t) {
  time_t v;
  long long f = __atomic_load_n(&vf_fake_time, __ATOMIC_RELAXED);
  if (f && vf_det) v = (time_t)(f + vf_time_step * (__atomic_add_fetch(&time_calls, 1, __ATOMIC_RELAXED) - 1));
  else if (f) { v = (time_t)f; if (vf_time_step) __atomic_add_fetch(&vf_fake_time, vf_time_step, __ATOMIC_RELAXED); }
  else if (vf_det) v = (time_t)(1700000000 + __atomic_add_fetch(&time_calls, 1, __ATOMIC_RELAXED) / 64);
  else v = time(NULL);
  if (t) *t = v;
  return v;
}
int vf_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
#ifndef VF_NOCOUNT
  long n = __atomic_add_fetch(&thread_no, 1, __ATOMIC_RELAXED);
  if (vf_fail_thread && n == vf_fail_thread) return EAGAIN;
#endif
  return pthread_create(t, a, f, arg);
}
int vf_jitter; static __thread unsigned jst;
void vf_delay(void) {
  int j = __atomic_load_n(&vf_jitter, __ATOMIC_RELAXED); if (!j) return;
  if (!jst) jst = (unsigned)(uintptr_t)&jst * 2654435761u + 12345u;
  jst ^= jst << 13; jst ^= jst >> 17; jst ^= jst << 5;
  switch (jst & 7) { case 0: case 1: sched_yield(); break; case 2: if (!(jst & 0x700)) usleep(1 + (jst >> 12) % (unsigned)j); break; default: break; }
}
int vf_mutex_lock(pthread_mutex_t *m) { vf_delay(); int r = pthread_mutex_lock(m); vf_delay(); return r; }
int vf_mutex_unlock(pthread_mutex_t *m) { int r = pthread_mutex_unlock(m); vf_delay(); return r; }
static void det_bytes(unsigned char *b, size_t n) {
  while (n) {
    unsigned char h[32], in[16] = "vfrng"; memcpy(in + 8, &vf_rng_ctr, 8); vf_rng_ctr++;
    SHA256(in, 16, h); size_t k = n < 32 ? n : 32; memcpy(b, h, k); b += k; n -= k;
    explicit_bzero(h, sizeof h);
  }
}
static void log_draw(const unsigned char *b, size_t n) {
  if (!vf_rng_log) return;
  if (vf_rnglog_len + n > rnglog_cap) { rnglog_cap = (vf_rnglog_len + n) * 2; vf_rnglog = realloc(vf_rnglog, rnglog_cap); }
  memcpy(vf_rnglog + vf_rnglog_len, b, n); vf_rnglog_len += n;
}
/* tiling monitor: every draw must start where the previous one ended (no memory is written) */
VFT const unsigned char *vf_tile_next; VFT unsigned long long vf_tile_total; VFT int vf_tile_bad;
/* 1 = ok */
static int draw(unsigned char *b, size_t n) {
  if (vf_rng_mode == 3) { if (b != vf_tile_next) vf_tile_bad = 1; vf_tile_next = b + n; vf_tile_total += n; return 1; }
  rl_lock();
  int ok = 1;
  if (active) { vf_draws++; if (fail_rng_at && vf_draws == fail_rng_at) { vf_draw_hit = 1; ok = 0; } }
  if (vf_rng_fail_all) { vf_draw_hit = 1; ok = 0; }
  if (ok) {
    if (vf_rng_special && n) { memset(b, vf_rng_special == 1 ? 0xff : 0, n); vf_rng_special = 0; }
    else if (vf_rng_mode) det_bytes(b, n);
    else if (RAND_bytes(b, (int)n) != 1) ok = 0;
    if (ok) log_draw(b, n);
  }
  rl_unlock();
  return ok;
}
int vf_RAND_bytes(unsigned char *b, int n) { if (n < 0) return 0; return draw(b, (size_t)n) ? 1 : ((vf_draws & 1) ? 0 : -1); }
int vf_RAND_priv_bytes(unsigned char *b, int n) { return vf_RAND_bytes(b, n); }
ssize_t vf_getrandom(void *b, size_t n, unsigned f) { (void)f; return draw(b, n) ? (ssize_t)n : -1; }
int vf_getentropy(void *b, size_t n) { return draw(b, n) ? 0 : -1; }
#ifdef VF_PAR
#include <secp256k1.h>
volatile int vf_ctx_word; long vf_ctx_made, vf_ctx_live, vf_ctx_bad; static void *live_ctx[8];
secp256k1_context *vf_ctx_new(unsigned flags) { vf_ctx_word = 1; secp256k1_context *c = secp256k1_context_create(flags); vf_delay();
  __atomic_add_fetch(&vf_ctx_made, 1, __ATOMIC_RELAXED); long n = __atomic_add_fetch(&vf_ctx_live, 1, __ATOMIC_RELAXED); if (n > 1) __atomic_store_n(&vf_ctx_bad, 1, __ATOMIC_RELAXED);
  for (int i = 0; i < 8; i++) { void *z = NULL; if (__atomic_compare_exchange_n(&live_ctx[i], &z, (void *)c, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) break; } return c; }
void vf_ctx_end(secp256k1_context *c) { int ok = 0; vf_ctx_word = 2; vf_delay();
  for (int i = 0; i < 8; i++) { void *z = c; if (c && __atomic_compare_exchange_n(&live_ctx[i], &z, NULL, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { ok = 1; break; } }
  if (!ok) { if (c) __atomic_store_n(&vf_ctx_bad, 2, __ATOMIC_RELAXED); return; }
  __atomic_sub_fetch(&vf_ctx_live, 1, __ATOMIC_RELAXED); secp256k1_context_destroy(c); }
int vf_ctx_rand(secp256k1_context *c, const unsigned char *s) { vf_ctx_word = 3; return secp256k1_context_randomize(c, s); }
#endif
#ifdef VF_MBEDTLS
int vf_mbedtls_ctr_drbg_random(void *c, unsigned char *b, size_t n) {
  (void)c; if (n > MBEDTLS_CTR_DRBG_MAX_REQUEST) return MBEDTLS_ERR_CTR_DRBG_REQUEST_TOO_BIG;
  if (vf_rng_mode == 2) { /* a generator without internal locking, as mbedTLS is without MBEDTLS_THREADING_C */
    static volatile uint64_t state; uint64_t x = state; unsigned char h[32];
    while (n) { sched_yield(); SHA256((unsigned char *)&x, 8, h); x++; size_t k = n < 32 ? n : 32; memcpy(b, h, k); b += k; n -= k; }
    state = x; return 0; }
#ifdef VF_PAR
  static volatile int drbg; drbg = 1;      /* a draw changes the generator */
#endif
  return draw(b, n) ? 0 : MBEDTLS_ERR_CTR_DRBG_ENTROPY_SOURCE_FAILED; }
int vf_mbedtls_ctr_drbg_seed(mbedtls_ctr_drbg_context *c, int (*f)(void *, unsigned char *, size_t), void *p, const unsigned char *cu, size_t l) {
  int ok; rl_lock();
  ok = 1; if (active) { vf_draws++; if (fail_rng_at && vf_draws == fail_rng_at) { vf_draw_hit = 1; ok = 0; } }
  if (vf_rng_fail_all) { vf_draw_hit = 1; ok = 0; }
  rl_unlock();
  if (!ok) return MBEDTLS_ERR_CTR_DRBG_ENTROPY_SOURCE_FAILED;
#ifdef VF_SEC
  extern int __real_mbedtls_ctr_drbg_seed(mbedtls_ctr_drbg_context *, int (*)(void *, unsigned char *, size_t), void *, const unsigned char *, size_t);
  return __real_mbedtls_ctr_drbg_seed(c, f, p, cu, l); }
#else
  return mbedtls_ctr_drbg_seed(c, f, p, cu, l); }
#endif
#endif

#ifdef VF_SEC
void *__wrap_malloc(size_t n) { return vf_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return vf_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return vf_realloc(p, n); }
char *__wrap_strdup(const char *s) { return vf_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { return vf_strndup(s, n); }
void __wrap_free(void *p) { vf_free(p); }
time_t __wrap_time(time_t *t) { return vf_time(t); }
int __wrap_RAND_bytes(unsigned char *b, int n) { return vf_RAND_bytes(b, n); }
int __wrap_RAND_priv_bytes(unsigned char *b, int n) { return vf_RAND_priv_bytes(b, n); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { return vf_getrandom(b, n, f); }
int __wrap_getentropy(void *b, size_t n) { return vf_getentropy(b, n); }
#ifdef VF_MBEDTLS
int __wrap_mbedtls_ctr_drbg_random(void *c, unsigned char *b, size_t n) { return vf_mbedtls_ctr_drbg_random(c, b, n); }
int __wrap_mbedtls_ctr_drbg_seed(mbedtls_ctr_drbg_context *c, int (*f)(void *, unsigned char *, size_t), void *p, const unsigned char *cu, size_t l) { return vf_mbedtls_ctr_drbg_seed(c, f, p, cu, l); }
#endif
#endif
