#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

typedef uint32_t cx_err_t;
#define CX_OK             0x00000000
#define CX_INTERNAL_ERROR 0xFFFFFF85
#define WARN_UNUSED_RESULT
#define CX_INVALID_PARAMETER       0xFFFFFF84
#define CX_INVALID_PARAMETER_SIZE  0xFFFFFF83
#define CX_INVALID_PARAMETER_VALUE 0xFFFFFF82
#define CX_OVERFLOW                0xFFFFFF8F
#define CX_CHECK(call) do { error = call; if (error) goto end; } while (0)
#define CX_CHECK_IGN_PARAM(call) do { error = call; if (error && error != CX_INVALID_PARAMETER) goto end; } while (0)
#define CX_SHA512_SIZE             64
#define CX_BLAKE2B_512_SIZE        64

typedef enum { CX_NONE = 0, CX_SHA256 = 3, CX_SHA512 = 5, CX_BLAKE2B = 9 } cx_md_t;
typedef enum { CX_CURVE_NONE = 0, CX_CURVE_SECP256K1 = 0x21, CX_CURVE_256K1 = 0x21 } cx_curve_t;
#define CX_LAST             (1 << 0)
#define CX_NO_REINIT        (1 << 15)
#define CX_SHA256_SIZE      32
#define CX_BLAKE2B_256_SIZE 32

typedef struct cx_hash_header_s {
    cx_md_t md_type;
    size_t output_size;
} cx_hash_t;

// The stand-in keeps a persistent transcript node, so that contexts can be copied like the real one.
typedef struct cx_blake2b_s {
    struct cx_hash_header_s info;
    uint64_t magic;
    uint64_t node;
    uint8_t pad[208];
} cx_blake2b_t;

cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *hash, size_t size);
cx_err_t cx_blake2b_init2_no_throw(cx_blake2b_t *hash, size_t size, uint8_t *salt, size_t salt_len,
                                   uint8_t *perso, size_t perso_len);
cx_err_t cx_hash_no_throw(cx_hash_t *hash, uint32_t mode, const uint8_t *in, size_t len,
                          uint8_t *out, size_t out_len);
cx_err_t cx_hash_init(cx_hash_t *hash, cx_md_t hash_id);
cx_err_t cx_hash_init_ex(cx_hash_t *hash, cx_md_t hash_id, size_t output_size);
cx_err_t cx_hash_update(cx_hash_t *hash, const uint8_t *in, size_t in_len);
cx_err_t cx_hash_final(cx_hash_t *hash, uint8_t *digest);
size_t cx_hash_get_size(const cx_hash_t *ctx);
cx_err_t cx_blake2b_256_hash(const uint8_t *in, size_t in_len, uint8_t digest[static 32]);

size_t cx_hmac_sha256(const uint8_t *key, size_t key_len, const uint8_t *in, size_t len,
                      uint8_t *mac, size_t mac_len);
size_t cx_hash_sha256(const uint8_t *in, size_t len, uint8_t *out, size_t out_len);

void cx_rng_no_throw(uint8_t *buffer, size_t len);
uint8_t *cx_rng(uint8_t *buffer, size_t len);
uint8_t cx_rng_u8(void);
uint32_t cx_rng_u32(void);

typedef struct {
    cx_curve_t curve;
    size_t d_len;
    uint8_t d[32];
} cx_ecfp_256_private_key_t;
typedef struct {
    cx_curve_t curve;
    size_t d_len;
    uint8_t d[64];
} cx_ecfp_512_private_key_t;
typedef cx_ecfp_256_private_key_t cx_ecfp_private_key_t;
typedef struct {
    cx_curve_t curve;
    size_t W_len;
    uint8_t W[65];
} cx_ecfp_256_public_key_t;
typedef cx_ecfp_256_public_key_t cx_ecfp_public_key_t;

cx_err_t cx_ecfp_init_private_key_no_throw(cx_curve_t curve, const uint8_t *rawkey, size_t key_len,
                                           cx_ecfp_private_key_t *pvkey);
cx_err_t cx_ecfp_generate_pair_no_throw(cx_curve_t curve, cx_ecfp_public_key_t *pubkey,
                                        cx_ecfp_private_key_t *privkey, bool keepprivate);
cx_err_t cx_ecfp_scalar_mult_no_throw(cx_curve_t curve, uint8_t *P, const uint8_t *k, size_t k_len);
bool cx_math_is_zero(const uint8_t *a, size_t len);
cx_err_t cx_math_cmp_no_throw(const uint8_t *a, const uint8_t *b, size_t length, int *diff);
cx_err_t cx_math_multm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m,
                                size_t len);
cx_err_t cx_math_addm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m,
                               size_t len);
cx_err_t cx_math_subm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m,
                               size_t len);
cx_err_t cx_math_modm_no_throw(uint8_t *v, size_t len_v, const uint8_t *m, size_t len_m);
cx_err_t os_derive_bip32_no_throw(cx_curve_t curve, const unsigned int *path, size_t path_len,
                                  unsigned char raw_privkey[static 64], unsigned char *chain_code);
