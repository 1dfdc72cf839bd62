/* Force-included into every library source (never into /repo): redirects the library's
 * allocator, randomness, clock and thread-creation calls to monitored versions. */
#ifndef VF_INTER_H
#define VF_INTER_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/types.h>
#include <sys/random.h>
void *vf_malloc(size_t n) __attribute__((malloc));
void *vf_calloc(size_t a, size_t b) __attribute__((malloc));
void *vf_realloc(void *p, size_t n);
char *vf_strdup(const char *s);
char *vf_strndup(const char *s, size_t n);
void vf_free(void *p);
time_t vf_time(time_t *t);
int vf_gettimeofday_dummy(void);
int vf_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg);
int vf_mutex_lock(pthread_mutex_t *m);
int vf_mutex_unlock(pthread_mutex_t *m);
ssize_t vf_getrandom(void *b, size_t n, unsigned f);
int vf_getentropy(void *b, size_t n);
/* the prototypes of these come from the crypto headers, renamed */
#define RAND_bytes vf_RAND_bytes
#define RAND_priv_bytes vf_RAND_priv_bytes
#define mbedtls_ctr_drbg_random vf_mbedtls_ctr_drbg_random
#define mbedtls_ctr_drbg_seed vf_mbedtls_ctr_drbg_seed
#define getrandom vf_getrandom
#define getentropy vf_getentropy
#undef strdup
#undef strndup
#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define strdup vf_strdup
#define strndup vf_strndup
#define free vf_free
#define time vf_time
#ifdef VF_FUZZ            /* the cost parameter of scrypt is not what is fuzzed */
#include <openssl/evp.h>
#define EVP_PBE_scrypt(p, pl, s, sl, N, r, pp, m, k, kl) (EVP_PBE_scrypt)((p), (pl), (s), (sl), 16, (r), (pp), (m), (k), (kl))
#endif
#ifdef VF_PAR             /* libsecp256k1 is not instrumented: a shadow word per process stands for its context */
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
#include <secp256k1_ecdh.h>
extern volatile int vf_ctx_word;
static inline const secp256k1_context *vf_ctx_use(const secp256k1_context *c) { (void)vf_ctx_word; return c; }
secp256k1_context *vf_ctx_new(unsigned flags);
void vf_ctx_end(secp256k1_context *c);
int vf_ctx_rand(secp256k1_context *c, const unsigned char *s);
#define secp256k1_context_create(f) vf_ctx_new(f)
#define secp256k1_context_destroy(c) vf_ctx_end(c)
#define secp256k1_context_randomize(c, s) vf_ctx_rand(c, s)
#define secp256k1_ec_seckey_verify(c, ...) (secp256k1_ec_seckey_verify)(vf_ctx_use(c), __VA_ARGS__)
#define secp256k1_ec_pubkey_create(c, ...) (secp256k1_ec_pubkey_create)(vf_ctx_use(c), __VA_ARGS__)
#define secp256k1_ec_pubkey_parse(c, ...) (secp256k1_ec_pubkey_parse)(vf_ctx_use(c), __VA_ARGS__)
#define secp256k1_ec_pubkey_serialize(c, ...) (secp256k1_ec_pubkey_serialize)(vf_ctx_use(c), __VA_ARGS__)
#define secp256k1_ec_seckey_tweak_add(c, ...) (secp256k1_ec_seckey_tweak_add)(vf_ctx_use(c), __VA_ARGS__)
#define secp256k1_ecdh(c, ...) (secp256k1_ecdh)(vf_ctx_use(c), __VA_ARGS__)
#define secp256k1_keypair_create(c, ...) (secp256k1_keypair_create)(vf_ctx_use(c), __VA_ARGS__)
#define secp256k1_keypair_xonly_pub(c, ...) (secp256k1_keypair_xonly_pub)(vf_ctx_use(c), __VA_ARGS__)
#define secp256k1_xonly_pubkey_parse(c, ...) (secp256k1_xonly_pubkey_parse)(vf_ctx_use(c), __VA_ARGS__)
#define secp256k1_xonly_pubkey_serialize(c, ...) (secp256k1_xonly_pubkey_serialize)(vf_ctx_use(c), __VA_ARGS__)
#define secp256k1_xonly_pubkey_from_pubkey(c, ...) (secp256k1_xonly_pubkey_from_pubkey)(vf_ctx_use(c), __VA_ARGS__)
#define secp256k1_schnorrsig_sign32(c, ...) (secp256k1_schnorrsig_sign32)(vf_ctx_use(c), __VA_ARGS__)
#define secp256k1_schnorrsig_verify(c, ...) (secp256k1_schnorrsig_verify)(vf_ctx_use(c), __VA_ARGS__)
#endif
#define pthread_create vf_pthread_create
#define pthread_mutex_lock vf_mutex_lock
#define pthread_mutex_unlock vf_mutex_unlock
#endif
