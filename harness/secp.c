#include "secp.h"
#include <string.h>
#include <stdlib.h>
typedef unsigned __int128 u128;
typedef struct { uint64_t v[4]; } fe;  // little-endian limbs
const uint8_t T_G[65] = {4,
    0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07,
    0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98,
    0x48, 0x3a, 0xda, 0x77, 0x26, 0xa3, 0xc4, 0x65, 0x5d, 0xa4, 0xfb, 0xfc, 0x0e, 0x11, 0x08, 0xa8,
    0xfd, 0x17, 0xb4, 0x48, 0xa6, 0x85, 0x54, 0x19, 0x9c, 0x47, 0xd0, 0x8f, 0xfb, 0x10, 0xd4, 0xb8};
const uint8_t T_N[32] = {
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe,
    0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41};
static const fe P = {{0xFFFFFFFEFFFFFC2FULL, ~0ULL, ~0ULL, ~0ULL}};
static fe rd(const uint8_t *b) {
    fe r;
    for (int i = 0; i < 4; i++) {
        uint64_t x = 0;
        for (int j = 0; j < 8; j++) x = x << 8 | b[(3 - i) * 8 + j];
        r.v[i] = x;
    }
    return r;
}
static void wr(uint8_t *b, fe a) {
    for (int i = 0; i < 4; i++)
        for (int j = 0; j < 8; j++) b[(3 - i) * 8 + j] = (uint8_t) (a.v[i] >> (56 - 8 * j));
}
static int cmp(const fe *a, const fe *b) {
    for (int i = 3; i >= 0; i--)
        if (a->v[i] != b->v[i]) return a->v[i] < b->v[i] ? -1 : 1;
    return 0;
}
static int add_raw(fe *r, const fe *a, const fe *b) {
    u128 c = 0;
    for (int i = 0; i < 4; i++) {
        c += (u128) a->v[i] + b->v[i];
        r->v[i] = (uint64_t) c;
        c >>= 64;
    }
    return (int) c;
}
static int sub_raw(fe *r, const fe *a, const fe *b) {
    uint64_t br = 0;
    for (int i = 0; i < 4; i++) {
        u128 d = (u128) a->v[i] - b->v[i] - br;
        r->v[i] = (uint64_t) d;
        br = (uint64_t) (d >> 64) & 1;
    }
    return (int) br;
}
static fe addm(fe a, fe b, const fe *m) {
    fe r;
    int c = add_raw(&r, &a, &b);
    if (c || cmp(&r, m) >= 0) sub_raw(&r, &r, m);
    return r;
}
static fe subm(fe a, fe b, const fe *m) {
    fe r;
    if (sub_raw(&r, &a, &b)) add_raw(&r, &r, m);
    return r;
}
// generic reduction of a 512-bit value (little-endian limbs) modulo m, bitwise
static fe red_slow(const uint64_t w[8], const fe *m) {
    fe r = {{0}};
    for (int i = 511; i >= 0; i--) {
        int top = (int) (r.v[3] >> 63);
        for (int j = 3; j > 0; j--) r.v[j] = r.v[j] << 1 | r.v[j - 1] >> 63;
        r.v[0] = r.v[0] << 1 | (w[i / 64] >> (i % 64) & 1);
        if (top || cmp(&r, m) >= 0) sub_raw(&r, &r, m);
    }
    return r;
}
static void mul_raw(uint64_t w[8], const fe *a, const fe *b) {
    memset(w, 0, 64);
    for (int i = 0; i < 4; i++) {
        u128 c = 0;
        for (int j = 0; j < 4; j++) {
            c += (u128) a->v[i] * b->v[j] + w[i + j];
            w[i + j] = (uint64_t) c;
            c >>= 64;
        }
        w[i + 4] = (uint64_t) c;
    }
}
static fe mulp(fe a, fe b) {  // modulo P = 2^256 - 0x1000003D1
    uint64_t w[8];
    mul_raw(w, &a, &b);
    const uint64_t K = 0x1000003D1ULL;
    fe lo;
    u128 c = 0;
    for (int i = 0; i < 4; i++) {
        c += (u128) w[i + 4] * K + w[i];
        lo.v[i] = (uint64_t) c;
        c >>= 64;
    }
    u128 d = (u128) (uint64_t) c * K;
    for (int i = 0; i < 4; i++) {
        d += lo.v[i];
        lo.v[i] = (uint64_t) d;
        d >>= 64;
    }
    if (d) {
        u128 e = K;
        for (int i = 0; i < 4; i++) {
            e += lo.v[i];
            lo.v[i] = (uint64_t) e;
            e >>= 64;
        }
    }
    while (cmp(&lo, &P) >= 0) sub_raw(&lo, &lo, &P);
    return lo;
}
static fe invp(fe a) {
    fe e = P, r = {{1, 0, 0, 0}};
    e.v[0] -= 2;
    for (int i = 255; i >= 0; i--) {
        r = mulp(r, r);
        if (e.v[i / 64] >> (i % 64) & 1) r = mulp(r, a);
    }
    return r;
}
static int zero(const fe *a) { return !(a->v[0] | a->v[1] | a->v[2] | a->v[3]); }
typedef struct { fe x, y, z; } pt;
static pt dbl(pt p) {
    if (zero(&p.z)) return p;
    fe a = mulp(p.x, p.x), b = mulp(p.y, p.y), c = mulp(b, b);
    fe t = addm(p.x, b, &P);
    t = mulp(t, t);
    fe d = subm(subm(t, a, &P), c, &P);
    d = addm(d, d, &P);
    fe e = addm(addm(a, a, &P), a, &P), f = mulp(e, e);
    pt r;
    r.x = subm(f, addm(d, d, &P), &P);
    fe c8 = addm(c, c, &P);
    c8 = addm(c8, c8, &P);
    c8 = addm(c8, c8, &P);
    r.y = subm(mulp(e, subm(d, r.x, &P)), c8, &P);
    r.z = mulp(p.y, p.z);
    r.z = addm(r.z, r.z, &P);
    return r;
}
static pt addpt(pt p, pt q) {
    if (zero(&p.z)) return q;
    if (zero(&q.z)) return p;
    fe z1 = mulp(p.z, p.z), z2 = mulp(q.z, q.z);
    fe u1 = mulp(p.x, z2), u2 = mulp(q.x, z1);
    fe s1 = mulp(p.y, mulp(z2, q.z)), s2 = mulp(q.y, mulp(z1, p.z));
    if (!cmp(&u1, &u2)) {
        if (!cmp(&s1, &s2)) return dbl(p);
        pt o = {{{1}}, {{1}}, {{0}}};
        return o;
    }
    fe h = subm(u2, u1, &P), rr = subm(s2, s1, &P);
    fe h2 = mulp(h, h), h3 = mulp(h2, h), v = mulp(u1, h2);
    pt r;
    r.x = subm(subm(mulp(rr, rr), h3, &P), addm(v, v, &P), &P);
    r.y = subm(mulp(rr, subm(v, r.x, &P)), mulp(s1, h3), &P);
    r.z = mulp(mulp(p.z, q.z), h);
    return r;
}
bool t_scalar_mult(uint8_t B[65], const uint8_t k[32]) {
    if (B[0] != 4) return false;
    pt p = {rd(B + 1), rd(B + 33), {{1, 0, 0, 0}}}, r = {{{1}}, {{1}}, {{0}}};
    if (cmp(&p.x, &P) >= 0 || cmp(&p.y, &P) >= 0) return false;
    fe seven = {{7, 0, 0, 0}};
    fe l = mulp(p.y, p.y), q = addm(mulp(mulp(p.x, p.x), p.x), seven, &P);
    if (cmp(&l, &q)) return false;
    for (int i = 0; i < 256; i++) {
        r = dbl(r);
        if (k[i / 8] >> (7 - i % 8) & 1) r = addpt(r, p);
    }
    if (zero(&r.z)) return false;
    fe zi = invp(r.z), zi2 = mulp(zi, zi);
    wr(B + 1, mulp(r.x, zi2));
    wr(B + 33, mulp(r.y, mulp(zi2, zi)));
    return true;
}
void t_mulm(uint8_t r[32], const uint8_t a[32], const uint8_t b[32], const uint8_t m[32]) {
    fe x = rd(a), y = rd(b), n = rd(m);
    uint64_t w[8];
    mul_raw(w, &x, &y);
    wr(r, red_slow(w, &n));
}
static fe redm(fe a, const fe *n) {
    uint64_t w[8] = {a.v[0], a.v[1], a.v[2], a.v[3]};
    return red_slow(w, n);
}
void t_addm(uint8_t r[32], const uint8_t a[32], const uint8_t b[32], const uint8_t m[32]) {
    fe n = rd(m);
    wr(r, addm(redm(rd(a), &n), redm(rd(b), &n), &n));
}
void t_subm(uint8_t r[32], const uint8_t a[32], const uint8_t b[32], const uint8_t m[32]) {
    fe n = rd(m);
    wr(r, subm(redm(rd(a), &n), redm(rd(b), &n), &n));
}
void t_modm(uint8_t *v, size_t lv, const uint8_t *m, size_t lm) {
    if (lv > 64 || lm != 32) return;
    uint64_t w[8] = {0};
    for (size_t i = 0; i < lv; i++) w[i / 8] |= (uint64_t) v[lv - 1 - i] << (8 * (i % 8));
    fe n = rd(m), r = red_slow(w, &n);
    uint8_t o[32];
    wr(o, r);
    memset(v, 0, lv);
    if (lv >= 32) memcpy(v + lv - 32, o, 32);
    else memcpy(v, o + 32 - lv, lv);
}
#define ROR(x, n) ((x) >> (n) | (x) << (32 - (n)))
static const uint32_t K256[64] = {
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
void t_sha256(const uint8_t *in, size_t len, uint8_t out[32]) {
    uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
    size_t tot = (len + 9 + 63) / 64 * 64;
    uint8_t *m = calloc(1, tot);
    if (len) memcpy(m, in, len);
    m[len] = 0x80;
    for (int i = 0; i < 8; i++) m[tot - 1 - i] = (uint8_t) ((uint64_t) len * 8 >> (8 * i));
    for (size_t o = 0; o < tot; o += 64) {
        uint32_t w[64];
        for (int i = 0; i < 16; i++)
            w[i] = (uint32_t) m[o + 4 * i] << 24 | m[o + 4 * i + 1] << 16 | m[o + 4 * i + 2] << 8 | m[o + 4 * i + 3];
        for (int i = 16; i < 64; i++) {
            uint32_t s0 = ROR(w[i - 15], 7) ^ ROR(w[i - 15], 18) ^ w[i - 15] >> 3;
            uint32_t s1 = ROR(w[i - 2], 17) ^ ROR(w[i - 2], 19) ^ w[i - 2] >> 10;
            w[i] = w[i - 16] + s0 + w[i - 7] + s1;
        }
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], k = h[7];
        for (int i = 0; i < 64; i++) {
            uint32_t t1 = k + (ROR(e, 6) ^ ROR(e, 11) ^ ROR(e, 25)) + ((e & f) ^ (~e & g)) + K256[i] + w[i];
            uint32_t t2 = (ROR(a, 2) ^ ROR(a, 13) ^ ROR(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
            k = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += k;
    }
    memset(m, 0, tot);
    free(m);
    for (int i = 0; i < 8; i++)
        for (int j = 0; j < 4; j++) out[4 * i + j] = (uint8_t) (h[i] >> (24 - 8 * j));
}
void t_hmac_sha256(const uint8_t *key, size_t klen, const uint8_t *in, size_t len, uint8_t out[32]) {
    uint8_t k[64] = {0}, *b = malloc(64 + len + 32), t[32];
    if (klen > 64) t_sha256(key, klen, k);
    else memcpy(k, key, klen);
    for (int i = 0; i < 64; i++) b[i] = k[i] ^ 0x36;
    if (len) memcpy(b + 64, in, len);
    t_sha256(b, 64 + len, t);
    for (int i = 0; i < 64; i++) b[i] = k[i] ^ 0x5c;
    memcpy(b + 64, t, 32);
    t_sha256(b, 96, out);
    free(b);
}
