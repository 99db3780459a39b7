#pragma once
#include "os.h"
typedef uint32_t cx_err_t;
#define CX_OK 0x00000000u
#define CX_INTERNAL_ERROR 0xFFFFFF85u
#define CX_INVALID_PARAMETER 0xFFFFFF88u
#define CX_LAST (1 << 0)
#define CX_NO_REINIT (1 << 15)
#define CX_BLAKE2B_256_SIZE 32
#define CX_SHA256_SIZE 32
typedef enum { CX_CURVE_SECP256K1 = 0x21, CX_CURVE_256K1 = 0x21, CX_CURVE_SECP256R1 = 0x22, CX_CURVE_256R1 = 0x22 } cx_curve_t;
typedef enum cx_md_e { CX_BLAKE2B = 9 } cx_md_t;
typedef struct cx_hash_header_s {
    uint32_t md_type;
} cx_hash_t;
// the absorbed bytes themselves
typedef struct cx_blake2b_s {
    struct cx_hash_header_s header;
    uint32_t n;
    uint8_t *bytes;
} cx_blake2b_t;
typedef struct {
    cx_curve_t curve;
    size_t d_len;
    uint8_t d[32];
} cx_ecfp_256_private_key_t;
typedef struct {
    cx_curve_t curve;
    size_t W_len;
    uint8_t W[65];
} cx_ecfp_256_public_key_t;
cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *hash, size_t out_len_bits);
cx_err_t cx_hash_no_throw(cx_hash_t *hash, uint32_t mode, const uint8_t *in, size_t len, uint8_t *out, size_t out_len);
cx_err_t cx_blake2b_256_hash(const uint8_t *in, size_t in_len, uint8_t *out);
size_t cx_hmac_sha256(const uint8_t *key, size_t key_len, const uint8_t *in, size_t len, uint8_t *mac, size_t mac_len);
void cx_rng(uint8_t *buf, size_t len);
uint8_t cx_rng_u8(void);
void cx_rng_no_throw(uint8_t *buf, size_t len);
cx_err_t os_derive_bip32_no_throw(cx_curve_t curve, const unsigned int *path, size_t path_len, unsigned char raw_privkey[static 64], unsigned char *chain_code);
cx_err_t cx_ecfp_init_private_key_no_throw(cx_curve_t curve, const uint8_t *raw, size_t len, cx_ecfp_256_private_key_t *key);
cx_err_t cx_ecfp_generate_pair_no_throw(cx_curve_t curve, cx_ecfp_256_public_key_t *pub, cx_ecfp_256_private_key_t *priv, bool keep);
cx_err_t cx_ecfp_scalar_mult_no_throw(cx_curve_t curve, uint8_t *P, const uint8_t *k, size_t k_len);
bool cx_math_is_zero(const uint8_t *a, size_t len);
cx_err_t cx_math_cmp_no_throw(const uint8_t *a, const uint8_t *b, size_t length, int *diff);
cx_err_t cx_math_multm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len);
cx_err_t cx_math_addm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len);
