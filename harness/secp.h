// Small secp256k1, SHA-256 and HMAC used by the SDK stand-in (not constant time, test use only).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
void t_sha256(const uint8_t *in, size_t len, uint8_t out[32]);
void t_hmac_sha256(const uint8_t *key, size_t klen, const uint8_t *in, size_t len, uint8_t out[32]);
// P (65 bytes, 04|x|y) := k*P, false when the result is the point at infinity or P is not a point
bool t_scalar_mult(uint8_t P[65], const uint8_t k[32]);
void t_mulm(uint8_t r[32], const uint8_t a[32], const uint8_t b[32], const uint8_t m[32]);
void t_addm(uint8_t r[32], const uint8_t a[32], const uint8_t b[32], const uint8_t m[32]);
void t_subm(uint8_t r[32], const uint8_t a[32], const uint8_t b[32], const uint8_t m[32]);
void t_modm(uint8_t *v, size_t len_v, const uint8_t *m, size_t len_m);
extern const uint8_t T_G[65];
extern const uint8_t T_N[32];
