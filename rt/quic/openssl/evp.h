#pragma once
#include <cstddef>
#include <cstdint>
typedef struct evp_md_st EVP_MD; typedef struct evp_aead_st EVP_AEAD; typedef struct evp_aead_ctx_st EVP_AEAD_CTX; struct aes_key_st { unsigned char opaque[256]; }; typedef aes_key_st AES_KEY;
#define EVP_AEAD_DEFAULT_TAG_LENGTH 0
#define AES_ENCRYPT 1
extern "C" {
const EVP_MD *EVP_sha256(); const EVP_MD *EVP_sha384();
const EVP_AEAD *EVP_aead_aes_128_gcm(); const EVP_AEAD *EVP_aead_aes_256_gcm(); const EVP_AEAD *EVP_aead_chacha20_poly1305();
size_t EVP_AEAD_max_overhead(const EVP_AEAD *); size_t EVP_AEAD_key_length(const EVP_AEAD *); size_t EVP_AEAD_nonce_length(const EVP_AEAD *); size_t EVP_MD_size(const EVP_MD *);
EVP_AEAD_CTX *EVP_AEAD_CTX_new(const EVP_AEAD *, const uint8_t *key, size_t, size_t tag); void EVP_AEAD_CTX_free(EVP_AEAD_CTX *);
int EVP_AEAD_CTX_seal(const EVP_AEAD_CTX *, uint8_t *out, size_t *out_len, size_t max, const uint8_t *nonce, size_t, const uint8_t *in, size_t, const uint8_t *ad, size_t);
int EVP_AEAD_CTX_open(const EVP_AEAD_CTX *, uint8_t *out, size_t *out_len, size_t max, const uint8_t *nonce, size_t, const uint8_t *in, size_t, const uint8_t *ad, size_t);
int HKDF_extract(uint8_t *out, size_t *out_len, const EVP_MD *, const uint8_t *secret, size_t, const uint8_t *salt, size_t);
int HKDF_expand(uint8_t *out, size_t, const EVP_MD *, const uint8_t *prk, size_t, const uint8_t *info, size_t);
int AES_set_encrypt_key(const uint8_t *key, unsigned bits, AES_KEY *); void AES_ecb_encrypt(const uint8_t *in, uint8_t *out, const AES_KEY *, int enc);
void CRYPTO_chacha_20(uint8_t *out, const uint8_t *in, size_t, const uint8_t key[32], const uint8_t nonce[12], uint32_t counter);
}
