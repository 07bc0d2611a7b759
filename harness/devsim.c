// Device simulator: the SDK stand-in and the host loop around the application's app_main().
// Protocol (one line in, one JSON line out):
//   apdu <hex> | left | right | both | restart | rng <hex> | fault <kind> <n> | quit
// "rng" queues bytes for the next draws of exactly that length; "fault" makes the n-th next call of
// a kind fail. Every line is answered with one JSON object describing everything observable.
#include <stdarg.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <setjmp.h>
#include <os.h>
#include <ux.h>
#include <io.h>
#include <parser.h>
#include <format.h>
#include <bip32.h>
#include "blake2b-ref.h"
#include "secp.h"
#ifdef SCAN
#include <ucontext.h>
#include <sys/mman.h>
#endif

void app_main(void);

unsigned char G_io_apdu_buffer[IO_APDU_BUFFER_SIZE];
ux_state_t G_ux;
const bagl_icon_details_t C_icon_eye, C_icon_processing, C_icon_warning, C_icon_validate_14,
    C_icon_crossmark, C_icon_certificate, C_icon_dashboard_x, C_icon_back, C_app_logo,
    C_icon_back_x, C_icon_left, C_icon_right, C_icon_up, C_icon_down, C_icon_validate, C_icon_hourglass, C_icon_info, C_icon_coggle, C_icon_dashboard;

// ---------------------------------------------------------------- host-side state (kept on the heap)
typedef struct {
    char *p;
    size_t n, cap;
    int items;
} sb_t;
typedef struct node_s {
    struct node_s *parent;
    size_t len;
    uint8_t data[];
} node_t;
typedef struct {
    uint8_t v[32];
    int kind;  // 0 private key, 1 random draw
    int id;
} secret_t;
typedef struct {
    sb_t resp, page, hash, derive, hmac, rng, leak, sig, out;
    int has_page, died, exited, pages;
    int fault_hit;
    int apdu_pending;   // an APDU is being processed (synchronously)
    int sync_sent;
    size_t apdu_len;
    uint8_t *line;
    size_t line_cap;
    // forced randomness
    uint8_t *forced[256];
    size_t forced_len[256];
    int n_forced;
    uint64_t rng_state[4];
    // faults
    int fault_n[8];
    // secrets
    secret_t sec[4096];
    int n_sec;
    jmp_buf top;
    int boot;
} host_t;
static host_t *H;

static void sb_raw(sb_t *s, const char *t, size_t n) {
    if (s->n + n + 1 > s->cap) {
        s->cap = (s->n + n + 1) * 2;
        s->p = realloc(s->p, s->cap);
    }
    memcpy(s->p + s->n, t, n);
    s->n += n;
    s->p[s->n] = 0;
}
static void sb_str(sb_t *s, const char *t) { sb_raw(s, t, strlen(t)); }
static void sb_sep(sb_t *s) {
    if (s->items++) sb_str(s, ",");
}
static void sb_hex(sb_t *s, const uint8_t *d, size_t n) {
    static const char h[] = "0123456789abcdef";
    for (size_t i = 0; i < n; i++) {
        char c[2] = {h[d[i] >> 4], h[d[i] & 15]};
        sb_raw(s, c, 2);
    }
}
static void sb_q(sb_t *s, const char *t, size_t max) {
    sb_str(s, "\"");
    for (size_t i = 0; i < max && t[i]; i++) {
        unsigned char c = (unsigned char) t[i];
        if (c < 0x20 || c > 0x7e || c == '"' || c == '\\') {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            sb_str(s, b);
        } else {
            sb_raw(s, (char *) &c, 1);
        }
    }
    sb_str(s, "\"");
}
static void sb_clr(sb_t *s) {
    s->n = 0;
    s->items = 0;
    if (s->p) s->p[0] = 0;
}
static const char *sb_get(sb_t *s) { return s->p ? s->p : ""; }

enum { F_DERIVE = 0, F_HASH, F_MULT, F_PAIR, F_ADDM, F_MULM, F_KEY };
static const char *const FAULTS[] = {"derive", "hash", "mult", "pair", "addm", "mulm", "key", NULL};
static int fault(int k) {
    if (H->fault_n[k] > 0 && --H->fault_n[k] == 0) {
        H->fault_hit = 1;
        return 1;
    }
    return 0;
}

// ---------------------------------------------------------------- switching between app and host
// With SCAN the application runs on a stack of its own and every stand-in runs on the host's, so
// that the application's (also dead) stack holds only what the application's own code left there.
typedef void (*host_fn)(void *);
#ifdef SCAN
static ucontext_t *C_app, *C_host;
static host_fn *X_fn;
static void **X_arg;
static uint8_t *app_stack;
#define APP_STACK (256 * 1024)
static void host_call(host_fn f, void *a) {
    *X_fn = f;
    *X_arg = a;
    swapcontext(C_app, C_host);
}
#else
static void host_call(host_fn f, void *a) { f(a); }
#endif

static void add_secret(const uint8_t *v, int kind, int id) {
    if (H->n_sec >= 4096) return;
    secret_t *s = &H->sec[H->n_sec++];
    memcpy(s->v, v, 32);
    s->kind = kind;
    s->id = id;
}

// ---------------------------------------------------------------- hashing
#define MAGIC 0xB1A4E2B0C0FFEE01ULL
static void digest(const uint8_t *p, size_t n, size_t size, uint8_t *out) {
    blake2b_state st;
    blake2b_ref_init(&st, size);
    blake2b_ref_update(&st, p, n);
    blake2b_ref_final(&st, out, size);
    sb_sep(&H->hash);
    sb_str(&H->hash, "[\"");
    sb_hex(&H->hash, p, n);
    sb_str(&H->hash, "\",\"");
    sb_hex(&H->hash, out, size);
    sb_str(&H->hash, "\"]");
}
struct hash_arg {
    cx_blake2b_t *h;
    size_t size;
    uint32_t mode;
    const uint8_t *in;
    size_t len;
    uint8_t *out;
    size_t out_len;
    cx_err_t r;
};
static void h_init(void *v) {
    struct hash_arg *a = v;
    if (fault(F_HASH)) {
        a->r = CX_INTERNAL_ERROR;
        return;
    }
    memset(a->h, 0, sizeof *a->h);
    a->h->info.md_type = CX_BLAKE2B;
    a->h->info.output_size = a->size / 8;
    a->h->magic = MAGIC;
    a->h->node = 0;
    a->r = CX_OK;
}
static void h_hash(void *v) {
    struct hash_arg *a = v;
    a->r = CX_INTERNAL_ERROR;
    if (fault(F_HASH)) return;
    if (a->h->magic != MAGIC) return;
    if (a->len) {
        node_t *n = malloc(sizeof *n + a->len);
        n->parent = (node_t *) (uintptr_t) a->h->node;
        n->len = a->len;
        memcpy(n->data, a->in, a->len);
        a->h->node = (uint64_t) (uintptr_t) n;
    }
    if (a->mode & CX_LAST) {
        if (a->out == NULL || a->out_len < a->h->info.output_size) return;
        size_t tot = 0;
        for (node_t *n = (node_t *) (uintptr_t) a->h->node; n; n = n->parent) tot += n->len;
        uint8_t *p = malloc(tot + 1);
        size_t o = tot;
        for (node_t *n = (node_t *) (uintptr_t) a->h->node; n; n = n->parent) {
            o -= n->len;
            memcpy(p + o, n->data, n->len);
        }
        digest(p, tot, a->h->info.output_size, a->out);
        free(p);
    }
    a->r = CX_OK;
}
cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *hash, size_t size) {
    struct hash_arg a = {.h = hash, .size = size};
    host_call(h_init, &a);
    return a.r;
}
cx_err_t cx_blake2b_init2_no_throw(cx_blake2b_t *hash, size_t size, uint8_t *salt, size_t salt_len,
                                   uint8_t *perso, size_t perso_len) {
    (void) salt;
    (void) perso;
    if (salt_len || perso_len) return CX_INTERNAL_ERROR;
    return cx_blake2b_init_no_throw(hash, size);
}
cx_err_t cx_hash_no_throw(cx_hash_t *hash, uint32_t mode, const uint8_t *in, size_t len,
                          uint8_t *out, size_t out_len) {
    struct hash_arg a = {.h = (cx_blake2b_t *) hash, .mode = mode, .in = in, .len = len, .out = out, .out_len = out_len};
    host_call(h_hash, &a);
    return a.r;
}
cx_err_t cx_hash_init_ex(cx_hash_t *hash, cx_md_t id, size_t n) {
    if (id != CX_BLAKE2B) return CX_INTERNAL_ERROR;
    return cx_blake2b_init_no_throw((cx_blake2b_t *) hash, n * 8);
}
cx_err_t cx_hash_init(cx_hash_t *hash, cx_md_t id) { return cx_hash_init_ex(hash, id, 32); }
cx_err_t cx_hash_update(cx_hash_t *hash, const uint8_t *in, size_t n) {
    return cx_hash_no_throw(hash, 0, in, n, NULL, 0);
}
cx_err_t cx_hash_final(cx_hash_t *hash, uint8_t *d) {
    return cx_hash_no_throw(hash, CX_LAST, NULL, 0, d, hash->output_size);
}
size_t cx_hash_get_size(const cx_hash_t *ctx) { return ctx->output_size; }
static void h_b256(void *v) {
    struct hash_arg *a = v;
    a->r = CX_INTERNAL_ERROR;
    if (fault(F_HASH)) return;
    digest(a->in, a->len, 32, a->out);
    a->r = CX_OK;
}
cx_err_t cx_blake2b_256_hash(const uint8_t *in, size_t in_len, uint8_t d[static 32]) {
    struct hash_arg a = {.in = in, .len = in_len, .out = d};
    host_call(h_b256, &a);
    return a.r;
}
struct hmac_arg {
    const uint8_t *k;
    size_t kl;
    const uint8_t *in;
    size_t len;
    uint8_t *mac;
    size_t ml;
};
static void h_hmac(void *v) {
    struct hmac_arg *a = v;
    uint8_t t[32];
    t_hmac_sha256(a->k, a->kl, a->in, a->len, t);
    if (a->ml > 32) a->ml = 32;
    memcpy(a->mac, t, a->ml);
    sb_sep(&H->hmac);
    sb_str(&H->hmac, "[\"");
    sb_hex(&H->hmac, a->k, a->kl);
    sb_str(&H->hmac, "\",\"");
    sb_hex(&H->hmac, a->in, a->len);
    sb_str(&H->hmac, "\",\"");
    sb_hex(&H->hmac, t, 32);
    sb_str(&H->hmac, "\"]");
}
size_t cx_hmac_sha256(const uint8_t *key, size_t kl, const uint8_t *in, size_t len, uint8_t *mac, size_t ml) {
    struct hmac_arg a = {key, kl, in, len, mac, ml};
    host_call(h_hmac, &a);
    return a.ml;
}
size_t cx_hash_sha256(const uint8_t *in, size_t len, uint8_t *out, size_t out_len) {
    uint8_t t[32];
    t_sha256(in, len, t);
    if (out_len > 32) out_len = 32;
    memcpy(out, t, out_len);
    return out_len;
}

// ---------------------------------------------------------------- randomness
static uint64_t rng_next(void) {
    uint64_t *s = H->rng_state, r = s[0] + s[3], t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t;
    s[3] = s[3] << 45 | s[3] >> 19;
    return r;
}
struct buf_arg {
    uint8_t *b;
    size_t n;
};
static void h_rng(void *v) {
    struct buf_arg *a = v;
    int hit = -1;
    for (int i = 0; i < H->n_forced && hit < 0; i++)
        if (H->forced_len[i] == a->n) hit = i;
    if (hit >= 0) {
        memcpy(a->b, H->forced[hit], a->n);
        free(H->forced[hit]);
        for (int i = hit; i + 1 < H->n_forced; i++) {
            H->forced[i] = H->forced[i + 1];
            H->forced_len[i] = H->forced_len[i + 1];
        }
        H->n_forced--;
    } else {
        for (size_t i = 0; i < a->n; i++) a->b[i] = (uint8_t) (rng_next() >> 32);
    }
    int unusable = 1;  // nothing to keep secret about zero or values at and above the group order
    for (size_t i = 0; i < a->n && i < 15; i++) unusable &= a->b[i] == a->b[0] && (a->b[0] == 0 || a->b[0] == 0xff);
    if (a->n == 32 && !unusable) add_secret(a->b, 1, 0);
    sb_sep(&H->rng);
    sb_str(&H->rng, "\"");
    sb_hex(&H->rng, a->b, a->n);
    sb_str(&H->rng, "\"");
}
void cx_rng_no_throw(uint8_t *b, size_t n) {
    struct buf_arg a = {b, n};
    host_call(h_rng, &a);
}
uint8_t *cx_rng(uint8_t *b, size_t n) {
    cx_rng_no_throw(b, n);
    return b;
}
uint8_t cx_rng_u8(void) {
    uint8_t v;
    cx_rng_no_throw(&v, 1);
    return v;
}
uint32_t cx_rng_u32(void) {
    uint32_t v;
    cx_rng_no_throw((uint8_t *) &v, 4);
    return v;
}

// ---------------------------------------------------------------- keys
struct derive_arg {
    const unsigned int *path;
    size_t n;
    uint8_t *key, *cc;
    cx_err_t r;
};
static void h_derive(void *v) {
    struct derive_arg *a = v;
    int bad = fault(F_DERIVE) || a->n == 0 || a->n > MAX_BIP32_PATH;
    uint8_t m[3 + 4 * MAX_BIP32_PATH], d[32];
    size_t n = a->n > MAX_BIP32_PATH ? MAX_BIP32_PATH : a->n;
    for (size_t i = 0; i < n; i++)
        for (int j = 0; j < 4; j++) m[3 + 4 * i + j] = (uint8_t) (a->path[i] >> (24 - 8 * j));
    sb_sep(&H->derive);
    sb_str(&H->derive, "[\"");
    sb_hex(&H->derive, m + 3, 4 * n);
    sb_str(&H->derive, bad ? "\",0]" : "\",1]");
    a->r = CX_INTERNAL_ERROR;
    if (bad) return;
    memcpy(m, "key", 3);
    t_sha256(m, 3 + 4 * n, d);
    add_secret(d, 0, 0);
    memcpy(a->key, d, 32);
    memset(a->key + 32, 0, 32);
    if (a->cc) {
        memcpy(m, "cc_", 3);
        t_sha256(m, 3 + 4 * n, a->cc);
    }
    a->r = CX_OK;
}
cx_err_t os_derive_bip32_no_throw(cx_curve_t curve, const unsigned int *path, size_t n,
                                  unsigned char raw[static 64], unsigned char *cc) {
    if (curve != CX_CURVE_256K1) return CX_INTERNAL_ERROR;
    struct derive_arg a = {path, n, raw, cc, 0};
    host_call(h_derive, &a);
    return a.r;
}
struct key_arg {
    const uint8_t *raw;
    size_t n;
    cx_ecfp_private_key_t *k;
    cx_ecfp_public_key_t *p;
    uint8_t *pt;
    bool keep;
    cx_err_t r;
};
static void h_initkey(void *v) {
    struct key_arg *a = v;
    a->r = CX_INTERNAL_ERROR;
    if (fault(F_KEY)) return;
    a->k->curve = CX_CURVE_256K1;
    a->k->d_len = a->n;
    if (a->raw) memcpy(a->k->d, a->raw, a->n);
    a->r = CX_OK;
}
cx_err_t cx_ecfp_init_private_key_no_throw(cx_curve_t curve, const uint8_t *raw, size_t n, cx_ecfp_private_key_t *k) {
    if (curve != CX_CURVE_256K1 || n != 32) return CX_INTERNAL_ERROR;
    struct key_arg a = {.raw = raw, .n = n, .k = k};
    host_call(h_initkey, &a);
    return a.r;
}
static void h_pair(void *v) {
    struct key_arg *a = v;
    a->r = CX_INTERNAL_ERROR;
    if (fault(F_PAIR)) return;
    if (!a->keep) {
        a->k->d_len = 32;
        for (int i = 0; i < 32; i++) a->k->d[i] = (uint8_t) (rng_next() >> 32);
    }
    a->p->curve = CX_CURVE_256K1;
    a->p->W_len = 65;
    memcpy(a->p->W, T_G, 65);
    if (!t_scalar_mult(a->p->W, a->k->d)) return;
    a->r = CX_OK;
}
cx_err_t cx_ecfp_generate_pair_no_throw(cx_curve_t curve, cx_ecfp_public_key_t *p, cx_ecfp_private_key_t *k, bool keep) {
    if (curve != CX_CURVE_256K1) return CX_INTERNAL_ERROR;
    struct key_arg a = {.k = k, .p = p, .keep = keep};
    host_call(h_pair, &a);
    return a.r;
}
static void h_mult(void *v) {
    struct key_arg *a = v;
    a->r = CX_INTERNAL_ERROR;
    if (fault(F_MULT)) return;
    uint8_t k[32] = {0};
    if (a->n > 32) return;
    memcpy(k + 32 - a->n, a->raw, a->n);
    if (t_scalar_mult(a->pt, k)) a->r = CX_OK;
}
cx_err_t cx_ecfp_scalar_mult_no_throw(cx_curve_t curve, uint8_t *pt, const uint8_t *k, size_t n) {
    if (curve != CX_CURVE_SECP256K1) return CX_INTERNAL_ERROR;
    struct key_arg a = {.raw = k, .n = n, .pt = pt};
    host_call(h_mult, &a);
    return a.r;
}
bool cx_math_is_zero(const uint8_t *a, size_t n) {
    uint8_t x = 0;
    for (size_t i = 0; i < n; i++) x |= a[i];
    return x == 0;
}
cx_err_t cx_math_cmp_no_throw(const uint8_t *a, const uint8_t *b, size_t n, int *diff) {
    *diff = memcmp(a, b, n);
    return CX_OK;
}
struct math_arg {
    uint8_t *r;
    const uint8_t *a, *b, *m;
    int op;
    cx_err_t e;
};
static void h_math(void *v) {
    struct math_arg *x = v;
    uint8_t t[32];
    x->e = CX_INTERNAL_ERROR;
    if (fault(x->op == 0 ? F_MULM : F_ADDM)) return;
    if (x->op == 0) t_mulm(t, x->a, x->b, x->m);
    if (x->op == 1) t_addm(t, x->a, x->b, x->m);
    if (x->op == 2) t_subm(t, x->a, x->b, x->m);
    memcpy(x->r, t, 32);
    x->e = CX_OK;
}
static cx_err_t math(int op, uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t n) {
    if (n != 32) return CX_INTERNAL_ERROR;
    struct math_arg x = {r, a, b, m, op, 0};
    host_call(h_math, &x);
    return x.e;
}
cx_err_t cx_math_multm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t n) {
    return math(0, r, a, b, m, n);
}
cx_err_t cx_math_addm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t n) {
    return math(1, r, a, b, m, n);
}
cx_err_t cx_math_subm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t n) {
    return math(2, r, a, b, m, n);
}
cx_err_t cx_math_modm_no_throw(uint8_t *v, size_t lv, const uint8_t *m, size_t lm) {
    t_modm(v, lv, m, lm);
    return CX_OK;
}

// ---------------------------------------------------------------- text formatting (standard library of the SDK)
bool format_u64(char *out, size_t outLength, uint64_t in) {
    uint8_t i = 0;
    if (outLength == 0) return false;
    outLength--;
    while (in > 9) {
        out[i] = (char) (in % 10 + '0');
        in /= 10;
        i++;
        if (i + 1 > (int) outLength) return false;
    }
    out[i] = (char) (in + '0');
    out[i + 1] = '\0';
    for (uint8_t j = 0, k = i; j < k; j++, k--) {
        char tmp = out[j];
        out[j] = out[k];
        out[k] = tmp;
    }
    return true;
}
bool format_i64(char *dst, size_t dst_len, const int64_t value) {
    if (value < 0) {
        if (dst_len < 1) return false;
        *dst++ = '-';
        return format_u64(dst, dst_len - 1, 0 - (uint64_t) value);
    }
    return format_u64(dst, dst_len, (uint64_t) value);
}
bool format_fpu64(char *dst, size_t dst_len, const uint64_t value, uint8_t decimals) {
    char b[21] = {0};
    if (!format_u64(b, sizeof b, value)) return false;
    size_t digits = strlen(b);
    if (digits <= decimals) {
        if (dst_len <= (size_t) 2 + decimals - digits) return false;
        *dst++ = '0';
        *dst++ = '.';
        for (size_t i = 0; i < decimals - digits; i++, dst++) *dst = '0';
        dst_len -= 2 + decimals - digits;
        strncpy(dst, b, dst_len);
    } else {
        if (dst_len <= digits + 1 + decimals) return false;
        const size_t shift = digits - decimals;
        memmove(dst, b, shift);
        dst[shift] = '.';
        strncpy(dst + shift + 1, b + shift, decimals);
        dst[shift + 1 + decimals] = 0;
    }
    return true;
}
int format_hex(const uint8_t *in, size_t in_len, char *out, size_t out_len) {
    static const char hex[] = "0123456789abcdef";
    if (out_len < 2 * in_len + 1) return -1;
    size_t i = 0;
    for (; i < in_len; i++) {
        out[2 * i] = hex[in[i] >> 4];
        out[2 * i + 1] = hex[in[i] & 15];
    }
    out[2 * i] = 0;
    return (int) (2 * i + 1);
}

// ---------------------------------------------------------------- flow engine
static void page_begin(void) {
    sb_clr(&H->page);
    H->has_page = 1;
    H->pages++;
}
static void page_line(const char *t) {
    sb_sep(&H->page);
    sb_q(&H->page, t ? t : "", 4096);
}
struct page_arg {
    const char *a, *b, *c;
    int n;
};
static void h_page(void *v) {
    struct page_arg *p = v;
    page_begin();
    if (p->n > 0) page_line(p->a);
    if (p->n > 1) page_line(p->b);
    if (p->n > 2) page_line(p->c);
}
static void show(int n, const char *a, const char *b, const char *c) {
    struct page_arg p = {a, b, c, n};
    host_call(h_page, &p);
}
static const void *cur_params(unsigned int slot) {
    ux_flow_state_t *f = &G_ux.flow_stack[slot];
    return f->steps[f->index]->params;
}
void ux_layout_bn_init(unsigned int s) {
    const ux_layout_bn_params_t *p = cur_params(s);
    show(2, p->line1, p->line2, NULL);
}
void ux_layout_nn_init(unsigned int s) {
    const ux_layout_nn_params_t *p = cur_params(s);
    show(2, p->line1, p->line2, NULL);
}
void ux_layout_bnn_init(unsigned int s) {
    const ux_layout_bnn_params_t *p = cur_params(s);
    show(3, p->line1, p->line2, p->line3);
}
void ux_layout_pn_init(unsigned int s) {
    const ux_layout_pn_params_t *p = cur_params(s);
    show(1, p->line1, NULL, NULL);
}
void ux_layout_pb_init(unsigned int s) {
    const ux_layout_pb_params_t *p = cur_params(s);
    show(1, p->line1, NULL, NULL);
}
void ux_layout_pnn_init(unsigned int s) {
    const ux_layout_pnn_params_t *p = cur_params(s);
    show(2, p->line1, p->line2, NULL);
}
void ux_layout_pbb_init(unsigned int s) {
    const ux_layout_pbb_params_t *p = cur_params(s);
    show(2, p->line1, p->line2, NULL);
}
void ux_layout_bnnn_paging_init(unsigned int s) {
    const ux_layout_bnnn_paging_params_t *p = cur_params(s);
    show(2, p->title, p->text, NULL);
}
unsigned int ux_stack_push(void) {
    if (G_ux.stack_count < 2) {
        memset(&G_ux.flow_stack[G_ux.stack_count], 0, sizeof G_ux.flow_stack[0]);
        G_ux.stack_count++;
    }
    return G_ux.stack_count - 1u;
}
static int is_meta(const ux_flow_step_t *s) {
    return s == FLOW_END_STEP || s == FLOW_BARRIER || s == FLOW_START || s == FLOW_LOOP;
}
static int flow_ok(void) {
    if (!G_ux.stack_count) return 0;
    ux_flow_state_t *f = &G_ux.flow_stack[G_ux.stack_count - 1];
    return f->steps && f->length && f->index < f->length && f->steps[f->index] && !is_meta(f->steps[f->index]);
}
static void init_step(unsigned int slot) {
    ux_flow_state_t *f = &G_ux.flow_stack[slot];
    if (f->steps[f->index]->init) f->steps[f->index]->init(slot);
}
void ux_flow_init(unsigned int slot, const ux_flow_step_t *const *steps, const ux_flow_step_t *start) {
    if (slot >= 2) return;
    ux_flow_state_t *f = &G_ux.flow_stack[slot];
    memset(f, 0, sizeof *f);
    f->steps = steps;
    if (!steps) return;
    while (steps[f->length] != FLOW_END_STEP) f->length++;
    if (start)
        while (f->index < f->length && steps[f->index] != start) f->index++;
    f->prev_index = f->index;
    if (f->length == 0 || f->index >= f->length || is_meta(steps[f->index])) return;
    init_step(slot);
}
void ux_flow_next(void) {
    if (!flow_ok()) return;
    unsigned int s = G_ux.stack_count - 1u;
    ux_flow_state_t *f = &G_ux.flow_stack[s];
    const ux_flow_step_t *n = f->steps[f->index + 1];
    if (n == FLOW_END_STEP || n == FLOW_BARRIER) return;
    if (n == FLOW_LOOP) {
        f->prev_index = 0;
        f->index = 0;
    } else {
        f->prev_index = f->index;
        f->index++;
    }
    if (flow_ok()) init_step(s);
}
void ux_flow_prev(void) {
    if (!flow_ok()) return;
    unsigned int s = G_ux.stack_count - 1u;
    ux_flow_state_t *f = &G_ux.flow_stack[s];
    if (f->index == 0) {
        if (f->length < 2 || f->steps[f->length - 1] != FLOW_LOOP) return;
        f->index = f->length - 2u;
        f->prev_index = f->index;
    } else {
        if (is_meta(f->steps[f->index - 1])) return;
        f->prev_index = f->index;
        f->index--;
    }
    if (flow_ok()) init_step(s);
}
void ux_flow_relayout(void) {
    if (flow_ok()) init_step(G_ux.stack_count - 1u);
}
void ux_flow_validate(void) {
    if (!flow_ok()) return;
    unsigned int s = G_ux.stack_count - 1u;
    ux_flow_state_t *f = &G_ux.flow_stack[s];
    if (f->steps[f->index]->validate_flow) ux_flow_init(s, f->steps[f->index]->validate_flow, NULL);
}

// ---------------------------------------------------------------- transport
bool apdu_parser(command_t *cmd, uint8_t *buf, size_t n) {
    if (n < 5 || n - 5 != buf[4]) return false;
    cmd->cla = buf[0];
    cmd->ins = buf[1];
    cmd->p1 = buf[2];
    cmd->p2 = buf[3];
    cmd->lc = buf[4];
    cmd->data = cmd->lc > 0 ? buf + 5 : NULL;
    return true;
}
struct send_arg {
    const buffer_t *l;
    size_t n;
    uint16_t sw;
    int r;
};
static void h_send(void *v) {
    struct send_arg *a = v;
    size_t tot = 0;
    sb_sep(&H->resp);
    sb_str(&H->resp, "\"");
    for (size_t i = 0; i < a->n; i++) {
        const buffer_t *b = &a->l[i];
        tot += b->size - b->offset;
        sb_hex(&H->resp, b->ptr + b->offset, b->size - b->offset);
    }
    uint8_t sw[2] = {(uint8_t) (a->sw >> 8), (uint8_t) a->sw};
    sb_hex(&H->resp, sw, 2);
    sb_str(&H->resp, "\"");
    a->r = 0;
    if (tot + 2 > IO_APDU_BUFFER_SIZE) a->r = -1;
    if (H->apdu_pending && H->sync_sent++) a->r = -1;
}
int io_send_response_buffers(const buffer_t *l, size_t n, uint16_t sw) {
    struct send_arg a = {l, n, sw, 0};
    host_call(h_send, &a);
    return a.r;
}
int io_send_response_buffer(const buffer_t *b, uint16_t sw) { return io_send_response_buffers(b, b ? 1 : 0, sw); }
int io_send_response_pointer(const uint8_t *p, size_t n, uint16_t sw) {
    buffer_t b = {p, n, 0};
    return io_send_response_buffer(&b, sw);
}
int io_send_sw(uint16_t sw) { return io_send_response_buffers(NULL, 0, sw); }
void io_init(void) {}

static void finish_event(const char *ev);
enum { DO_NONE, DO_APDU, DO_LEFT, DO_RIGHT, DO_BOTH };
struct recv_arg {
    int what, len;
};
static size_t hexdec(const char *s, uint8_t *o, size_t cap) {
    size_t n = 0;
    unsigned b;
    while (n < cap && s[0] && s[1] && sscanf(s, "%2x", &b) == 1) {
        o[n++] = (uint8_t) b;
        s += 2;
    }
    return n;
}
static char *read_line(void) {
    static char **buf = NULL;
    static size_t *cap = NULL;
    if (!buf) {
        buf = calloc(1, sizeof *buf);
        cap = calloc(1, sizeof *cap);
    }
    ssize_t n = getline(buf, cap, stdin);
    if (n <= 0) exit(0);
    while (n > 0 && ((*buf)[n - 1] == '\n' || (*buf)[n - 1] == '\r')) (*buf)[--n] = 0;
    return *buf;
}
static int restart_wanted;
static void h_recv(void *v) {
    struct recv_arg *a = v;
    for (;;) {
        char *l = read_line();
        a->what = DO_NONE;
        H->apdu_pending = 0;
        H->sync_sent = 0;
        if (!strncmp(l, "apdu ", 5)) {
            memset(G_io_apdu_buffer, 0, sizeof G_io_apdu_buffer);
            a->len = (int) hexdec(l + 5, G_io_apdu_buffer, sizeof G_io_apdu_buffer);
            a->what = DO_APDU;
            H->apdu_pending = 1;
            return;
        }
        if (!strcmp(l, "left")) a->what = DO_LEFT;
        if (!strcmp(l, "right")) a->what = DO_RIGHT;
        if (!strcmp(l, "both")) a->what = DO_BOTH;
        if (a->what) return;
        if (!strncmp(l, "rng ", 4)) {
            if (H->n_forced < 256) {
                uint8_t *b = malloc(512);
                H->forced_len[H->n_forced] = hexdec(l + 4, b, 512);
                H->forced[H->n_forced++] = b;
            }
            continue;
        }
        if (!strncmp(l, "fault ", 6)) {
            char k[16];
            int n;
            if (sscanf(l + 6, "%15s %d", k, &n) == 2)
                for (int i = 0; FAULTS[i]; i++)
                    if (!strcmp(k, FAULTS[i])) H->fault_n[i] = n;
            continue;
        }
        if (!strcmp(l, "restart")) {
            restart_wanted = 1;
#ifndef SCAN
            longjmp(H->top, 1);
#endif
            return;
        }
        if (!strcmp(l, "quit")) exit(0);
    }
}
static void h_done(void *v) {
    (void) v;
    finish_event(NULL);
}
int io_recv_command(void) {
    for (;;) {
        host_call(h_done, NULL);
        struct recv_arg a;
        host_call(h_recv, &a);
        switch (a.what) {
            case DO_APDU:
                return a.len;
            case DO_LEFT:
                ux_flow_prev();
                break;
            case DO_RIGHT:
                ux_flow_next();
                break;
            case DO_BOTH:
                ux_flow_validate();
                break;
        }
    }
}
void os_sched_exit(int code) {
    (void) code;
    H->exited = 1;
#ifdef SCAN
    *X_fn = NULL;
    setcontext(C_host);
    abort();
#else
    longjmp(H->top, 1);
#endif
}
void sdk_assert_fail(void) {
    fprintf(stderr, "ASSERT\n");
    abort();
}

// ---------------------------------------------------------------- memory scan
#ifdef SCAN
extern char __data_start, _end;
static int scan_range(const uint8_t *lo, const uint8_t *hi, const uint8_t *half) {
    size_t n = (size_t) (hi - lo);
    return memmem(lo, n, half, 16) != NULL;
}
static void scan(void) {
    for (int i = 0; i < H->n_sec; i++) {
        secret_t *s = &H->sec[i];
        int where = 0;
        for (int h = 0; h < 2; h++) {
            // a half that is mostly the same byte is found anywhere by chance
            int distinct = 0;
            for (int j = 0; j < 16; j++)
                if (!memchr(s->v + 16 * h, s->v[16 * h + j], j)) distinct++;
            if (distinct < 8) continue;
            if (scan_range((uint8_t *) &__data_start, (uint8_t *) &_end, s->v + 16 * h)) where |= 1;
            if (scan_range(app_stack, app_stack + APP_STACK, s->v + 16 * h)) where |= 2;
        }
        if (where) {
            char b[64];
            snprintf(b, sizeof b, "[\"%s\",%d,\"", s->kind ? "nonce" : "key", where);
            sb_sep(&H->leak);
            sb_str(&H->leak, b);
            sb_hex(&H->leak, s->v, 32);
            sb_str(&H->leak, "\"]");
        }
    }
}
#else
static void scan(void) {}
#endif

static void finish_event(const char *ev) {
    (void) ev;
    scan();
    sb_t *o = &H->out;
    sb_clr(o);
    char b[160];
    snprintf(b, sizeof b, "{\"died\":%d,\"exit\":%d,\"fault\":%d,\"draws\":%d,\"resp\":[", H->died, H->exited, H->fault_hit, H->pages);
    sb_str(o, b);
    sb_str(o, sb_get(&H->resp));
    sb_str(o, "],\"page\":[");
    sb_str(o, sb_get(&H->page));
    sb_str(o, "],\"hash\":[");
    sb_str(o, sb_get(&H->hash));
    sb_str(o, "],\"derive\":[");
    sb_str(o, sb_get(&H->derive));
    sb_str(o, "],\"hmac\":[");
    sb_str(o, sb_get(&H->hmac));
    sb_str(o, "],\"rng\":[");
    sb_str(o, sb_get(&H->rng));
    sb_str(o, "],\"leak\":[");
    sb_str(o, sb_get(&H->leak));
    sb_str(o, "]}\n");
    fwrite(o->p, 1, o->n, stdout);
    fflush(stdout);
    sb_clr(&H->resp);
    sb_clr(&H->hash);
    sb_clr(&H->derive);
    sb_clr(&H->hmac);
    sb_clr(&H->rng);
    sb_clr(&H->leak);
    H->died = H->exited = H->fault_hit = H->pages = 0;
}

static void app_entry(void) {
    app_main();
    H->died = 1;
#ifdef SCAN
    *X_fn = NULL;
    setcontext(C_host);
#endif
}
static void boot_reset(void) {
    memset(&G_ux, 0, sizeof G_ux);
    memset(G_io_apdu_buffer, 0, sizeof G_io_apdu_buffer);
    H->apdu_pending = 0;
    H->sync_sent = 0;
    memset(H->fault_n, 0, sizeof H->fault_n);
    sb_clr(&H->page);
}
#ifdef LIBDRV
#include "libdrv.c"
#endif
int main(int argc, char **argv) {
    H = calloc(1, sizeof *H);
#ifdef LIBDRV
    return lib_main();
#endif
    uint64_t seed = argc > 1 ? strtoull(argv[1], NULL, 10) : 1;
    for (int i = 0; i < 4; i++) {
        seed += 0x9E3779B97F4A7C15ULL;
        uint64_t z = seed;
        z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ z >> 27) * 0x94D049BB133111EBULL;
        H->rng_state[i] = z ^ z >> 31;
    }
#ifdef SCAN
    C_app = mmap(NULL, sizeof *C_app, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    C_host = mmap(NULL, sizeof *C_host, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    X_fn = mmap(NULL, 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    X_arg = (void **) (X_fn + 1);
    app_stack = mmap(NULL, APP_STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (;;) {
        boot_reset();
        // as on the device, starting the application clears its memory
        memset(app_stack, 0, APP_STACK);
        getcontext(C_app);
        C_app->uc_stack.ss_sp = app_stack;
        C_app->uc_stack.ss_size = APP_STACK;
        C_app->uc_link = NULL;
        makecontext(C_app, app_entry, 0);
        restart_wanted = 0;
        *X_fn = NULL;
        swapcontext(C_host, C_app);
        for (;;) {
            host_fn f = *X_fn;
            *X_fn = NULL;
            if (!f) break;
            f(*X_arg);
            if (restart_wanted) break;
            swapcontext(C_host, C_app);
        }
    }
#else
    for (;;) {
        if (!setjmp(H->top)) {
            boot_reset();
            restart_wanted = 0;
            app_entry();
        }
    }
#endif
}
