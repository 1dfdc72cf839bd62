/* noscrypt's behaviour over libsecp256k1 (curve) and OpenSSL (ChaCha20, HMAC-SHA256). */
#include "noscrypt.h"
#include <string.h>
#include <secp256k1.h>
#include <secp256k1_ecdh.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/crypto.h>
struct nc_ctx_struct { secp256k1_context* secp; };
static struct nc_ctx_struct shared;
NCContext* NCGetSharedContext(void) { return &shared; }
NCResult NCInitContext(NCContext* c, const uint8_t e[32]) {
    if (!c || !e) return E_NULL_PTR;
    if (!c->secp) c->secp = secp256k1_context_create(SECP256K1_CONTEXT_NONE);
    return c->secp && secp256k1_context_randomize(c->secp, e) ? NC_SUCCESS : E_OPERATION_FAILED;
}
NCResult NCDestroyContext(NCContext* c) { if (!c || !c->secp) return E_INVALID_CONTEXT; secp256k1_context_destroy(c->secp); c->secp = NULL; return NC_SUCCESS; }
#define NEED(c) do { if (!(c)) return E_NULL_PTR; if (!(c)->secp) return E_INVALID_CONTEXT; } while (0)
NCResult NCValidateSecretKey(const NCContext* c, const NCSecretKey* k) { NEED(c); if (!k) return E_NULL_PTR; return secp256k1_ec_seckey_verify(c->secp, k->key) ? NC_SUCCESS : E_OPERATION_FAILED; }
NCResult NCGetPublicKey(const NCContext* c, const NCSecretKey* k, NCPublicKey* p) {
    secp256k1_keypair kp; secp256k1_xonly_pubkey x; NEED(c); if (!k || !p) return E_NULL_PTR;
    if (!secp256k1_keypair_create(c->secp, &kp, k->key) || !secp256k1_keypair_xonly_pub(c->secp, &x, NULL, &kp)) return E_INVALID_ARG;
    secp256k1_xonly_pubkey_serialize(c->secp, p->key, &x); return NC_SUCCESS;
}
static int copyx(unsigned char* o, const unsigned char* x, const unsigned char* y, void* d) { (void)y; (void)d; memcpy(o, x, 32); return 1; }
NCResult NCGetSharedSecret(const NCContext* c, const NCSecretKey* k, const NCPublicKey* p, uint8_t out[32]) {
    secp256k1_pubkey q; uint8_t b[33] = {2}; NEED(c); if (!k || !p || !out) return E_NULL_PTR;
    memcpy(b + 1, p->key, 32);
    if (!secp256k1_ec_pubkey_parse(c->secp, &q, b, 33)) return E_INVALID_ARG;
    return secp256k1_ecdh(c->secp, out, &q, k->key, copyx, NULL) ? NC_SUCCESS : E_OPERATION_FAILED;
}
NCResult NCSignDigest(const NCContext* c, const NCSecretKey* k, const uint8_t r[32], const uint8_t d[32], uint8_t s[64]) {
    secp256k1_keypair kp; NEED(c); if (!k || !r || !d || !s) return E_NULL_PTR;
    if (!secp256k1_keypair_create(c->secp, &kp, k->key)) return E_INVALID_ARG;
    return secp256k1_schnorrsig_sign32(c->secp, s, d, &kp, r) ? NC_SUCCESS : E_OPERATION_FAILED;
}
NCResult NCVerifyDigest(const NCContext* c, const NCPublicKey* p, const uint8_t d[32], const uint8_t s[64]) {
    secp256k1_xonly_pubkey x; NEED(c); if (!p || !d || !s) return E_NULL_PTR;
    if (!secp256k1_xonly_pubkey_parse(c->secp, &x, p->key)) return E_INVALID_ARG;
    return secp256k1_schnorrsig_verify(c->secp, s, d, 32, &x) ? NC_SUCCESS : E_INVALID_ARG;
}
uint32_t NCEncryptionGetIvSize(uint32_t v) { return v == NC_ENC_VERSION_NIP44 ? NC_NIP44_IV_SIZE : v == NC_ENC_VERSION_NIP04 ? 16 : 0; }
NCResult NCEncryptionSetData(NCEncryptionArgs* a, const uint8_t* in, uint8_t* out, uint32_t n) {
    if (!a || !in || !out) return E_NULL_PTR;
    if (!n) return E_ARGUMENT_OUT_OF_RANGE;
    a->inputData = in; a->outputData = out; a->dataSize = n; return NC_SUCCESS;
}
NCResult NCEncryptionSetProperty(NCEncryptionArgs* a, uint32_t p, uint32_t v) {
    if (!a) return E_NULL_PTR;
    if (p != NC_ENC_SET_VERSION) return E_INVALID_ARG;
    if (v != NC_ENC_VERSION_NIP44) return E_VERSION_NOT_SUPPORTED;
    a->version = v; return NC_SUCCESS;
}
NCResult NCEncryptionSetPropertyEx(NCEncryptionArgs* a, uint32_t p, uint8_t* v, uint32_t n) {
    if (!a || !v) return E_NULL_PTR;
    if (p == NC_ENC_SET_IV) { if (n != NCEncryptionGetIvSize(a->version)) return E_ARGUMENT_OUT_OF_RANGE; a->ivData = v; return NC_SUCCESS; }
    if (p == NC_ENC_SET_NIP44_MAC_KEY) { if (n != NC_HMAC_KEY_SIZE) return E_ARGUMENT_OUT_OF_RANGE; a->keyData = v; return NC_SUCCESS; }
    return E_INVALID_ARG;
}
static void hm(const uint8_t* k, size_t kn, const uint8_t* m, size_t n, uint8_t o[32]) { unsigned l = 32; HMAC(EVP_sha256(), k, (int)kn, m, n, o, &l); }
/* conversation key, then the 76 message key bytes of the nonce */
static NCResult keys(const NCContext* c, const NCSecretKey* k, const NCPublicKey* p, const uint8_t nonce[32], uint8_t mk[96]) {
    uint8_t x[32], ck[32], t[65]; NCResult r = NCGetSharedSecret(c, k, p, x);
    if (r != NC_SUCCESS) return r;
    hm((const uint8_t*)"nip44-v2", 8, x, 32, ck);
    for (int i = 0; i < 3; i++) { size_t n = 0; if (i) { memcpy(t, mk + 32 * (i - 1), 32); n = 32; } memcpy(t + n, nonce, 32); t[n + 32] = (uint8_t)(i + 1); hm(ck, 32, t, n + 33, mk + 32 * i); }
    OPENSSL_cleanse(x, 32); OPENSSL_cleanse(ck, 32); OPENSSL_cleanse(t, sizeof t); return NC_SUCCESS;
}
static NCResult crypt(const NCContext* c, const NCSecretKey* k, const NCPublicKey* p, NCEncryptionArgs* a, int enc) {
    uint8_t mk[96], iv[16] = {0}; int n = 0; NCResult r;
    NEED(c); if (!k || !p || !a || !a->inputData || !a->outputData || !a->ivData) return E_NULL_PTR;
    if (a->version != NC_ENC_VERSION_NIP44) return E_VERSION_NOT_SUPPORTED;
    if (enc && !a->keyData) return E_NULL_PTR;
    if (NCValidateSecretKey(c, k) != NC_SUCCESS) return E_INVALID_ARG;
    if ((r = keys(c, k, p, a->ivData, mk)) != NC_SUCCESS) return r;
    if (enc) memcpy(a->keyData, mk + 44, 32);
    memcpy(iv + 4, mk + 32, 12);
    EVP_CIPHER_CTX* e = EVP_CIPHER_CTX_new(); r = E_OPERATION_FAILED;
    if (e && EVP_EncryptInit_ex(e, EVP_chacha20(), NULL, mk, iv) == 1 && EVP_EncryptUpdate(e, a->outputData, &n, a->inputData, (int)a->dataSize) == 1 && (uint32_t)n == a->dataSize) r = NC_SUCCESS;
    EVP_CIPHER_CTX_free(e); OPENSSL_cleanse(mk, sizeof mk); return r;
}
NCResult NCEncrypt(const NCContext* c, const NCSecretKey* k, const NCPublicKey* p, NCEncryptionArgs* a) { return crypt(c, k, p, a, 1); }
NCResult NCDecrypt(const NCContext* c, const NCSecretKey* k, const NCPublicKey* p, NCEncryptionArgs* a) { return crypt(c, k, p, a, 0); }
NCResult NCComputeMac(const NCContext* c, const uint8_t key[32], const uint8_t* m, uint32_t n, uint8_t out[32]) { NEED(c); if (!key || !m || !out) return E_NULL_PTR; if (!n) return E_ARGUMENT_OUT_OF_RANGE; hm(key, 32, m, n, out); return NC_SUCCESS; }
NCResult NCVerifyMac(const NCContext* c, const NCSecretKey* k, const NCPublicKey* p, NCMacVerifyArgs* a) {
    uint8_t mk[96], m[32]; NCResult r; NEED(c); if (!k || !p || !a || !a->mac32 || !a->nonce32 || !a->payload) return E_NULL_PTR;
    if (!a->payloadSize) return E_ARGUMENT_OUT_OF_RANGE;
    if (NCValidateSecretKey(c, k) != NC_SUCCESS) return E_INVALID_ARG;
    if ((r = keys(c, k, p, a->nonce32, mk)) != NC_SUCCESS) return r;
    hm(mk + 44, 32, a->payload, a->payloadSize, m); OPENSSL_cleanse(mk, sizeof mk);
    return CRYPTO_memcmp(m, a->mac32, 32) == 0 ? NC_SUCCESS : E_OPERATION_FAILED;
}
