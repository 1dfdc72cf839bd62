/* The part of noscrypt's public interface that libnostr uses. noscrypt itself is not installed in this sandbox; the
 * functions are implemented in noscrypt_shim.c over libsecp256k1 and OpenSSL, as its documentation describes them. */
#ifndef VF_NOSCRYPT_H
#define VF_NOSCRYPT_H
#include <stdint.h>
#include <stddef.h>
typedef int64_t NCResult;
#define NC_SUCCESS 0
#define E_NULL_PTR (-1)
#define E_INVALID_ARG (-2)
#define E_INVALID_CONTEXT (-3)
#define E_ARGUMENT_OUT_OF_RANGE (-4)
#define E_OPERATION_FAILED (-5)
#define E_VERSION_NOT_SUPPORTED (-6)
#define NC_SEC_KEY_SIZE 32
#define NC_PUBKEY_SIZE 32
#define NC_SHARED_SEC_SIZE 32
#define NC_CONTEXT_ENTROPY_SIZE 32
#define NC_ENCRYPTION_MAC_SIZE 32
#define NC_HMAC_KEY_SIZE 32
#define NC_CONV_KEY_SIZE 32
#define NC_MESSAGE_KEY_SIZE 76
#define NC_NIP44_IV_SIZE 32
#define NC_ENC_VERSION_NIP04 0x04u
#define NC_ENC_VERSION_NIP44 0x2cu
#define NC_ENC_SET_VERSION 0x01u
#define NC_ENC_SET_NIP44_MAC_KEY 0x02u
#define NC_ENC_SET_IV 0x03u
typedef struct nc_ctx_struct NCContext;
typedef struct { uint8_t key[NC_SEC_KEY_SIZE]; } NCSecretKey;
typedef struct { uint8_t key[NC_PUBKEY_SIZE]; } NCPublicKey;
typedef struct { const uint8_t* ivData; uint8_t* keyData; const uint8_t* inputData; uint8_t* outputData; uint32_t dataSize; uint32_t version; } NCEncryptionArgs;
typedef struct { const uint8_t* mac32; const uint8_t* nonce32; const uint8_t* payload; uint32_t payloadSize; } NCMacVerifyArgs;
NCContext* NCGetSharedContext(void);
NCResult NCInitContext(NCContext* ctx, const uint8_t entropy[NC_CONTEXT_ENTROPY_SIZE]);
NCResult NCDestroyContext(NCContext* ctx);
NCResult NCGetPublicKey(const NCContext* ctx, const NCSecretKey* sk, NCPublicKey* pk);
NCResult NCValidateSecretKey(const NCContext* ctx, const NCSecretKey* sk);
NCResult NCGetSharedSecret(const NCContext* ctx, const NCSecretKey* sk, const NCPublicKey* pk, uint8_t out[NC_SHARED_SEC_SIZE]);
NCResult NCSignDigest(const NCContext* ctx, const NCSecretKey* sk, const uint8_t random32[32], const uint8_t digest32[32], uint8_t sig64[64]);
NCResult NCVerifyDigest(const NCContext* ctx, const NCPublicKey* pk, const uint8_t digest32[32], const uint8_t sig64[64]);
uint32_t NCEncryptionGetIvSize(uint32_t version);
NCResult NCEncryptionSetData(NCEncryptionArgs* args, const uint8_t* input, uint8_t* output, uint32_t size);
NCResult NCEncryptionSetProperty(NCEncryptionArgs* args, uint32_t property, uint32_t value);
NCResult NCEncryptionSetPropertyEx(NCEncryptionArgs* args, uint32_t property, uint8_t* value, uint32_t len);
NCResult NCEncrypt(const NCContext* ctx, const NCSecretKey* sk, const NCPublicKey* pk, NCEncryptionArgs* args);
NCResult NCDecrypt(const NCContext* ctx, const NCSecretKey* sk, const NCPublicKey* pk, NCEncryptionArgs* args);
NCResult NCComputeMac(const NCContext* ctx, const uint8_t hmacKey[NC_HMAC_KEY_SIZE], const uint8_t* payload, uint32_t size, uint8_t out[NC_ENCRYPTION_MAC_SIZE]);
NCResult NCVerifyMac(const NCContext* ctx, const NCSecretKey* sk, const NCPublicKey* pk, NCMacVerifyArgs* args);
#endif
