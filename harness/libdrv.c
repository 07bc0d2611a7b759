// Drives the modules of the application directly: one command per line, one JSON line in reply.
// Included by devsim.c (kind "lib"), so that the modules run on the same stand-ins.
// Every buffer handed to the code is a heap block of exactly its size: AddressSanitizer sees any access outside.
#include "common/gve.h"
#include "common/rwbuffer.h"
#include "common/safeint.h"
#include "common/bip32_ext.h"
#include "ergo/address.h"
#include "ergo/ergo_tree.h"
#include "ergo/tx_ser_full.h"
#include "helpers/input_frame.h"

#define MAXARG 16
static char *A[MAXARG];
static int NA;
static const char *arg(int i) { return i < NA ? A[i] : "-"; }
static long long num(int i) { return strtoll(arg(i), NULL, 10); }
static uint64_t hex64(int i) { return strtoull(arg(i), NULL, 16); }
typedef struct { uint8_t *p; size_t n; } bytes_t;
static bytes_t hexarg(int i) {
    const char *s = arg(i);
    size_t n = strcmp(s, "-") ? strlen(s) / 2 : 0;
    bytes_t b = {malloc(n), n};
    for (size_t k = 0; k < n; k++) {
        char t[3] = {s[2 * k], s[2 * k + 1], 0};
        b.p[k] = (uint8_t) strtoul(t, NULL, 16);
    }
    return b;
}
static void out_hex(const char *k, const uint8_t *p, size_t n) {
    printf(",\"%s\":\"", k);
    for (size_t i = 0; i < n; i++) printf("%02x", p[i]);
    printf("\"");
}
static int is(const char *s) { return !strcmp(arg(0), s); }

// ---------------------------------------------------------------- integers
static void codec(void) {
    const char *t = arg(1);
    if (is("dec")) {  // dec TYPE SKIP HEX: decode after SKIP bytes of the block
        bytes_t b = hexarg(3);
        buffer_t in = {.ptr = b.p, .size = b.n, .offset = (size_t) num(2)};
        uint64_t v = 0;
        int r = -1;
#define D(T, C, F) else if (!strcmp(t, #T)) { C x; r = F(&in, &x); v = (uint64_t) x; }
        if (0) {}
        D(u8, uint8_t, gve_get_u8) D(i8, int8_t, gve_get_i8) D(u16, uint16_t, gve_get_u16) D(i16, int16_t, gve_get_i16)
        D(u32, uint32_t, gve_get_u32) D(i32, int32_t, gve_get_i32) D(u64, uint64_t, gve_get_u64) D(i64, int64_t, gve_get_i64)
        printf("{\"ok\":%d,\"used\":%ld,\"v\":\"%016llx\"}\n", r == GVE_OK, (long) in.offset - (long) num(2), (unsigned long long) v);
        free(b.p);
    } else {  // enc TYPE VALUE USED CAP
        size_t used = (size_t) num(3), cap = (size_t) num(4);
        uint8_t *p = malloc(cap);
        memset(p, 0xa5, cap);
        rw_buffer_t w;
        rw_buffer_init(&w, p, cap, used);
        uint64_t v = hex64(2);
        int r = -1;
#define E(T, C, F) else if (!strcmp(t, #T)) r = F(&w, (C) v);
        if (0) {}
        E(u8, uint8_t, gve_put_u8) E(i8, int8_t, gve_put_i8) E(u16, uint16_t, gve_put_u16) E(i16, int16_t, gve_put_i16)
        E(u32, uint32_t, gve_put_u32) E(i32, int32_t, gve_put_i32) E(u64, uint64_t, gve_put_u64) E(i64, int64_t, gve_put_i64)
        printf("{\"ok\":%d,\"rd\":%zu", r == GVE_OK, rw_buffer_read_position(&w));
        size_t e = rw_buffer_write_position(&w);
        int kept = 1;
        for (size_t i = 0; i < used && i < cap; i++) kept &= p[i] == 0xa5;
        printf(",\"kept\":%d", kept);
        out_hex("b", p + used, e >= used && e <= cap ? e - used : 0);
        printf(",\"wr\":%zu}\n", e);
        free(p);
    }
}
static void arith(void) {  // ar OP L R OLD
    uint64_t l = hex64(2), r = hex64(3), o = hex64(4);
    bool ok = false;
    if (!strcmp(arg(1), "addu")) ok = checked_add_u64(l, r, &o);
    if (!strcmp(arg(1), "subu")) ok = checked_sub_u64(l, r, &o);
    if (!strcmp(arg(1), "addi")) ok = checked_add_i64((int64_t) l, r, (int64_t *) &o);
    if (!strcmp(arg(1), "subi")) ok = checked_sub_i64((int64_t) l, r, (int64_t *) &o);
    // the result may be stored over the left operand
    uint64_t o2 = l;
    bool ok2 = false;
    if (!strcmp(arg(1), "addu")) ok2 = checked_add_u64(o2, r, &o2);
    if (!strcmp(arg(1), "subu")) ok2 = checked_sub_u64(o2, r, &o2);
    if (!strcmp(arg(1), "addi")) ok2 = checked_add_i64((int64_t) o2, r, (int64_t *) &o2);
    if (!strcmp(arg(1), "subi")) ok2 = checked_sub_i64((int64_t) o2, r, (int64_t *) &o2);
    printf("{\"ok\":%d,\"o\":\"%016llx\",\"ok2\":%d,\"o2\":\"%016llx\"}\n", ok, (unsigned long long) o, ok2, (unsigned long long) o2);
}

// ---------------------------------------------------------------- buffers
static rw_buffer_t *Q;
static uint8_t *Qmem;
static size_t Qcap;
static void queue(void) {  // q OP N BYTES
    const char *op = arg(1);
    long long n = num(2);
    size_t z = (size_t) n;
    bytes_t b = hexarg(3);
    uint8_t *out = NULL;
    size_t on = 0;
    int r = -1;
    if (!strcmp(op, "new")) {  // q new CAP DATA USED: storage filled with DATA, of which USED bytes are content
        free(Qmem);
        free(Q);
        Qcap = z;
        Qmem = malloc(Qcap);
        memset(Qmem, 0xa5, Qcap);
        memcpy(Qmem, b.p, b.n < Qcap ? b.n : Qcap);
        Q = malloc(sizeof *Q);
        memset(Q, 0xa5, sizeof *Q);
        rw_buffer_init(Q, Qmem, Qcap, (size_t) num(4));
        r = 1;
    }
    uint64_t v = strtoull(arg(3), NULL, 16);
#define W(NAME, F) else if (!strcmp(op, NAME)) r = F;
#define SMALL(z) ((z) <= 64 ? (z) : 64)
    if (0) {}
    W("w8", rw_buffer_write_u8(Q, (uint8_t) v))
    W("w16be", rw_buffer_write_u16(Q, (uint16_t) v, BE)) W("w16le", rw_buffer_write_u16(Q, (uint16_t) v, LE))
    W("w32be", rw_buffer_write_u32(Q, (uint32_t) v, BE)) W("w32le", rw_buffer_write_u32(Q, (uint32_t) v, LE))
    W("w64be", rw_buffer_write_u64(Q, v, BE)) W("w64le", rw_buffer_write_u64(Q, v, LE))
    W("wb", rw_buffer_write_bytes(Q, b.p, n < 0 ? z : b.n))
    W("srs", rw_buffer_seek_read_set(Q, z)) W("src", rw_buffer_seek_read_cur(Q, z)) W("sre", rw_buffer_seek_read_end(Q, z))
    W("sws", rw_buffer_seek_write_set(Q, z)) W("swc", rw_buffer_seek_write_cur(Q, z)) W("swe", rw_buffer_seek_write_end(Q, z))
    W("cr", rw_buffer_can_read(Q, z)) W("cw", rw_buffer_can_write(Q, z))
    W("empty", (rw_buffer_empty(Q), 1)) W("shift", (rw_buffer_shift_data(Q), 1))
#define R(NAME, C, F) else if (!strcmp(op, NAME)) { C x = 0; r = F; if (r) { v = x; on = sizeof x; out = malloc(8); for (size_t i = 0; i < on; i++) out[i] = (uint8_t) (v >> 8 * (on - 1 - i)); } }
    R("r8", uint8_t, rw_buffer_read_u8(Q, &x))
    R("r16be", uint16_t, rw_buffer_read_u16(Q, &x, BE)) R("r16le", uint16_t, rw_buffer_read_u16(Q, &x, LE))
    R("r32be", uint32_t, rw_buffer_read_u32(Q, &x, BE)) R("r32le", uint32_t, rw_buffer_read_u32(Q, &x, LE))
    R("r64be", uint64_t, rw_buffer_read_u64(Q, &x, BE)) R("r64le", uint64_t, rw_buffer_read_u64(Q, &x, LE))
    else if (!strcmp(op, "rb") || !strcmp(op, "cb")) {
        on = n < 0 ? 0 : SMALL(z);
        out = malloc(on);
        r = op[0] == 'r' ? rw_buffer_read_bytes(Q, out, z) : rw_buffer_copy_bytes(Q, out, z);
        if (!r) on = 0;
    } else if (!strcmp(op, "bip")) {
        size_t k = SMALL(z);
        uint32_t *x = malloc(4 * k);
        r = rw_buffer_read_bip32_path(Q, x, k);
        if (r) {
            on = 4 * k;
            out = malloc(on + 1);
            for (size_t i = 0; i < on; i++) out[i] = (uint8_t) (x[i / 4] >> 8 * (3 - i % 4));
        }
        free(x);
    }
    size_t rd = rw_buffer_read_position(Q), wr = rw_buffer_write_position(Q);
    printf("{\"ok\":%d,\"rd\":%lld,\"wr\":%lld,\"len\":%lld,\"space\":%lld", r, (long long) rd, (long long) wr,
           (long long) rw_buffer_data_len(Q), (long long) rw_buffer_empty_space_len(Q));
    printf(",\"rp\":%ld,\"wp\":%ld", (long) (rw_buffer_read_ptr(Q) - Qmem), (long) (rw_buffer_write_ptr(Q) - Qmem));
    out_hex("out", out, on);
    out_hex("mem", Qmem, wr <= Qcap ? wr : Qcap);
    printf("}\n");
    free(out);
    free(b.p);
}

// ---------------------------------------------------------------- serializers
static cx_blake2b_t *Hc;
static ergo_tx_serializer_box_context_t *B;
static ergo_tx_serializer_input_context_t *I;
static ergo_tx_serializer_full_context_t *F;
static ergo_tx_serializer_table_context_t *T;
static token_table_t *TT;
static sb_t Cb;
static int cb_fail, cb_failed;
static int cb_result(int bad) {
    if (cb_fail > 0 && --cb_fail == 0) {
        cb_failed = 1;
        return bad;
    }
    return 0x7F;
}
static const char *type_name(int t) {
    return t == ERGO_TX_SERIALIZER_BOX_TYPE_FEE ? "fee" : t == ERGO_TX_SERIALIZER_BOX_TYPE_CHANGE ? "change" : t == ERGO_TX_SERIALIZER_BOX_TYPE_TREE ? "tree" : t == -1 ? "" : "?";
}
static void cb_item(const char *k, int type, const uint8_t *x, const uint8_t *y, uint64_t v) {
    char b[64];
    sb_sep(&Cb);
    snprintf(b, sizeof b, "[\"%s\",\"%s\",\"", k, type_name(type));
    sb_str(&Cb, b);
    if (x) sb_hex(&Cb, x, 32);
    sb_str(&Cb, "\",\"");
    if (y) sb_hex(&Cb, y, 32);
    snprintf(b, sizeof b, "\",\"%016llx\"]", (unsigned long long) v);
    sb_str(&Cb, b);
}
static ergo_tx_serializer_box_result_e on_type(ergo_tx_serializer_box_type_e t, uint64_t v, void *c) {
    cb_item(c == &Cb ? "type" : "?", t, NULL, NULL, v);
    return cb_result(0x09);
}
static ergo_tx_serializer_box_result_e on_token(ergo_tx_serializer_box_type_e t, const uint8_t id[static 32], uint64_t v, void *c) {
    cb_item(c == &Cb ? "token" : "?", t, id, NULL, v);
    return cb_result(0x04);
}
static ergo_tx_serializer_box_result_e on_fin(ergo_tx_serializer_box_type_e t, void *c) {
    cb_item(c == &Cb ? "fin" : "?", t, NULL, NULL, 0);
    return cb_result(0x08);
}
static ergo_tx_serializer_input_result_e on_in(const uint8_t box[static 32], const uint8_t id[static 32], uint64_t v, void *c) {
    cb_item(c == &Cb ? "input" : "?", -1, box, id, v);
    return cb_result(0x0B);
}
static buffer_t chunk(int i, bytes_t *b) {  // the chunk follows a few bytes already read: "skip:hex"
    char *s = strchr(arg(i), ':');
    long skip = strtol(arg(i), NULL, 10);
    A[i] = s ? s + 1 : A[i];
    bytes_t c = hexarg(i);
    b->n = c.n + skip;
    b->p = malloc(b->n);
    memset(b->p, 0x5a, skip);
    memcpy(b->p + skip, c.p, c.n);
    free(c.p);
    buffer_t r = {.ptr = b->p, .size = b->n, .offset = skip};
    return r;
}
static void fed(const char *k) {  // what has been hashed
    size_t tot = 0;
    for (node_t *n = (node_t *) (uintptr_t) Hc->node; n; n = n->parent) tot += n->len;
    uint8_t *p = malloc(tot);
    size_t o = tot;
    for (node_t *n = (node_t *) (uintptr_t) Hc->node; n; n = n->parent) {
        o -= n->len;
        memcpy(p + o, n->data, n->len);
    }
    out_hex(k, p, tot);
    free(p);
}
static void serial(void) {  // s OP ARGS
    const char *op = arg(1);
    int r = -1, fin = 0, what = op[0];
    bytes_t b = {NULL, 0}, c = {NULL, 0};
    uint8_t *id = NULL;
    buffer_t in;
    H->fault_hit = 0;
    cb_failed = 0;
    sb_clr(&Cb);
    sb_clr(&H->hash);
#define OP(n) (!strcmp(op, n))
    if (OP("new")) {  // fresh memory for every object, filled with rubbish
        free(Hc); free(B); free(I); free(F); free(T); free(TT);
        memset(H->fault_n, 0, sizeof H->fault_n);
        cb_fail = 0;
        Hc = malloc(sizeof *Hc);
        r = ergo_tx_serializer_box_id_hash_init(Hc) ? 0x7F : 0;
        memset(B = malloc(sizeof *B), 0x5a, sizeof *B);
        memset(I = malloc(sizeof *I), 0x5a, sizeof *I);
        memset(F = malloc(sizeof *F), 0x5a, sizeof *F);
        memset(T = malloc(sizeof *T), 0x5a, sizeof *T);
        memset(TT = malloc(sizeof *TT), 0x5a, sizeof *TT);
        TT->count = (uint8_t) num(2);
    }
    else if (OP("fault")) { H->fault_n[F_HASH] = (int) num(2); r = 0x7F; }
    else if (OP("cbfail")) { cb_fail = (int) num(2); r = 0x7F; }
    else if (OP("b_init")) r = ergo_tx_serializer_box_init(B, hex64(2), (uint32_t) num(3), (uint32_t) hex64(4), (uint8_t) num(5), (uint32_t) num(6), Hc);
    else if (OP("b_cb")) { ergo_tx_serializer_box_set_callbacks(B, on_type, on_token, on_fin, &Cb); r = 0x7F; }
    else if (OP("b_tree")) { in = chunk(2, &b); r = ergo_tx_serializer_box_add_tree(B, &in); }
    else if (OP("b_fee")) r = ergo_tx_serializer_box_add_miners_fee_tree(B, num(2));
    else if (OP("b_change")) { c = hexarg(2); r = ergo_tx_serializer_box_add_change_tree(B, c.p); }
    else if (OP("b_toks")) { in = chunk(2, &b); r = ergo_tx_serializer_box_add_tokens(B, &in, num(3) ? T : NULL); }
    else if (OP("b_regs")) { in = chunk(2, &b); r = ergo_tx_serializer_box_add_registers(B, &in); }
    else if (OP("b_id")) { c = hexarg(2); id = malloc(32); r = ergo_tx_serializer_box_id_hash(B, c.p, (uint16_t) num(3), id); }
    else if (OP("i_init")) { c = hexarg(2); r = ergo_tx_serializer_input_init(I, c.p, (uint8_t) num(3), (uint32_t) num(4), TT, Hc); memset(c.p, 0xa5, c.n); }
    else if (OP("i_cb")) { ergo_tx_serializer_input_set_callback(I, on_in, &Cb); r = 0x7F; }
    else if (OP("i_toks")) { c = hexarg(2); in = chunk(4, &b); r = ergo_tx_serializer_input_add_tokens(I, c.p, (uint8_t) num(3), &in); }
    else if (OP("i_ext")) { in = chunk(2, &b); r = ergo_tx_serializer_input_add_context_extension(I, &in); }
    else if (OP("t_init")) r = ergo_tx_serializer_table_init(T, (uint8_t) num(2), TT);
    else if (OP("t_add")) { in = chunk(2, &b); r = ergo_tx_serializer_table_add(T, &in); }
    else if (OP("t_hash")) r = ergo_tx_serializer_table_hash(T, Hc);
    else if (OP("f_init")) r = ergo_tx_serializer_full_init(F, (uint16_t) num(2), (uint16_t) num(3), (uint16_t) num(4), (uint8_t) num(5), Hc, TT);
    else if (OP("f_toks")) { in = chunk(2, &b); r = ergo_tx_serializer_full_add_tokens(F, &in); }
    else if (OP("f_in")) { c = hexarg(2); r = ergo_tx_serializer_full_add_input(F, c.p, (uint8_t) num(3), (uint32_t) num(4)); memset(c.p, 0xa5, c.n); }
    else if (OP("f_icb")) r = ergo_tx_serializer_full_set_input_callback(F, on_in, &Cb);
    else if (OP("f_itoks")) { c = hexarg(2); in = chunk(4, &b); r = ergo_tx_serializer_full_add_input_tokens(F, c.p, (uint8_t) num(3), &in); }
    else if (OP("f_ext")) { in = chunk(2, &b); r = ergo_tx_serializer_full_add_input_context_extension(F, &in); }
    else if (OP("f_datas")) { in = chunk(2, &b); r = ergo_tx_serializer_full_add_data_inputs(F, &in); }
    else if (OP("f_box")) r = ergo_tx_serializer_full_add_box(F, hex64(2), (uint32_t) num(3), (uint32_t) hex64(4), (uint8_t) num(5), (uint32_t) num(6));
    else if (OP("f_bcb")) r = ergo_tx_serializer_full_set_box_callbacks(F, on_type, on_token, on_fin, &Cb);
    else if (OP("f_tree")) { in = chunk(2, &b); r = ergo_tx_serializer_full_add_box_ergo_tree(F, &in); }
    else if (OP("f_fee")) r = ergo_tx_serializer_full_add_box_miners_fee_tree(F, num(2));
    else if (OP("f_change")) { c = hexarg(2); r = ergo_tx_serializer_full_add_box_change_tree(F, c.p); }
    else if (OP("f_otoks")) { in = chunk(2, &b); r = ergo_tx_serializer_full_add_box_tokens(F, &in); }
    else if (OP("f_regs")) { in = chunk(2, &b); r = ergo_tx_serializer_full_add_box_registers(F, &in); }
    else if (OP("tt_add")) { c = hexarg(2); r = token_table_add_token(TT, c.p); printf("{\"idx\":%d,\"count\":%d}\n", r, TT->count); free(c.p); return; }
    else if (OP("tt_find")) { c = hexarg(2); r = token_table_find_token_index(TT, c.p); printf("{\"idx\":%d,\"count\":%d}\n", r, TT->count); free(c.p); return; }
    if (what == 'b') fin = ergo_tx_serializer_box_is_finished(B);
    if (what == 'i') fin = ergo_tx_serializer_input_is_finished(I);
    if (what == 'f' && !OP("fault")) fin = ergo_tx_serializer_full_is_finished(F);
    if (what == 't') fin = r == 0x7F && !OP("t_init") && ergo_tx_serializer_table_is_finished(T);
    printf("{\"r\":\"%s\",\"code\":%d,\"fin\":%d,\"fault\":%d,\"cbf\":%d,\"cbs\":[%s]", r == 0x7F ? "ok" : r == 0x7E ? "more" : "err", r,
           fin, H->fault_hit, cb_failed, sb_get(&Cb));
    if ((fin && what != 't') || OP("t_hash")) fed("fed"); else printf(",\"fed\":\"-\"");
    if (id && r == 0x7F) {
        fed("pre");
        out_hex("id", id, 32);
        printf(",\"hash\":[%s]", sb_get(&H->hash));
    }
    printf("}\n");
    free(b.p); free(c.p); free(id);
}

// ---------------------------------------------------------------- paths, addresses, scripts, frames
static void pure(void) {
    const char *op = arg(1);
    sb_clr(&H->hash);
    H->fault_hit = 0;
    if (OP("path")) {  // p path KIND ELEMENTS-HEX
        static const struct { const char *n; bip32_path_validation_type_e t; } K[] = {
            {"coin", BIP32_PATH_VALIDATE_COIN}, {"hard", BIP32_PATH_VALIDATE_COIN_GE2_HARD},
            {"acc3", BIP32_PATH_VALIDATE_ACCOUNT_E3}, {"accge3", BIP32_PATH_VALIDATE_ACCOUNT_GE3},
            {"adr5", BIP32_PATH_VALIDATE_ADDRESS_E5}, {"adrge5", BIP32_PATH_VALIDATE_ADDRESS_GE5}};
        bytes_t b = hexarg(3);
        size_t n = b.n / 4;
        uint32_t *e = malloc(4 * n);
        for (size_t i = 0; i < n; i++) e[i] = (uint32_t) b.p[4 * i] << 24 | b.p[4 * i + 1] << 16 | b.p[4 * i + 2] << 8 | b.p[4 * i + 3];
        int r = -1;
        for (int i = 0; i < 6; i++) if (!strcmp(arg(2), K[i].n)) r = bip32_path_validate(e, (uint8_t) n, BIP32_HARDENED(44), BIP32_HARDENED(429), K[i].t);
        printf("{\"ok\":%d}\n", r);
        free(e); free(b.p);
    } else if (OP("peq") || OP("psame")) {
        bytes_t b = hexarg(2), c = hexarg(3);
        int r = OP("peq") ? bip32_path_is_equal((uint32_t *) b.p, b.n / 4, (uint32_t *) c.p, c.n / 4)
                          : bip32_path_same_account((uint32_t *) b.p, b.n / 4, (uint32_t *) c.p, c.n / 4);
        printf("{\"ok\":%d}\n", r);
        free(b.p); free(c.p);
    } else if (OP("addr")) {  // p addr KIND NETWORK HEX FAULT
        bytes_t b = hexarg(4);
        H->fault_n[F_HASH] = (int) num(5);
        const char *k = arg(2);
        size_t n = strcmp(k, "sh") ? P2PK_ADDRESS_LEN : P2SH_ADDRESS_LEN;
        uint8_t *o = malloc(n);
        memset(o, 0xa5, n);
        int r = !strcmp(k, "raw") ? ergo_address_from_pubkey((uint8_t) num(3), b.p, o)
              : !strcmp(k, "pk") ? ergo_address_from_compressed_pubkey((uint8_t) num(3), b.p, o)
                                 : ergo_address_from_script_hash((uint8_t) num(3), b.p, o);
        printf("{\"ok\":%d,\"fault\":%d", r, H->fault_hit);
        out_hex("o", o, r ? n : 0);
        printf(",\"hash\":[%s]}\n", sb_get(&H->hash));
        H->fault_n[F_HASH] = 0;
        free(o); free(b.p);
    } else if (OP("p2pk") || OP("p2sh")) {
        bytes_t b = hexarg(2);
        size_t n = OP("p2pk") ? 33 : 24;
        uint8_t *o = malloc(n);
        memset(o, 0xa5, n);
        int r = OP("p2pk") ? ergo_tree_parse_p2pk(b.p, o) : ergo_tree_parse_p2sh(b.p, o);
        printf("{\"ok\":%d", r);
        out_hex("o", o, r ? n : 0);
        printf("}\n");
        free(o); free(b.p);
    } else if (OP("gen")) {
        bytes_t b = hexarg(2);
        uint8_t *o = malloc(ERGO_TREE_P2PK_LEN);
        ergo_tree_generate_p2pk(b.p, o);
        printf("{\"ok\":1");
        out_hex("o", o, ERGO_TREE_P2PK_LEN);
        printf("}\n");
        free(o); free(b.p);
    } else if (OP("fee")) {
        const uint8_t *p;
        size_t n;
        ergo_tree_miners_fee_tree(num(2), &p, &n);
        printf("{\"ok\":1");
        out_hex("o", p, n);
        printf("}\n");
    } else if (OP("frame")) {
        bytes_t b;
        buffer_t in = chunk(2, &b);
        int n = input_frame_data_length(&in);
        const uint8_t *s = input_frame_signature_ptr(&in);
        printf("{\"ok\":%d,\"sig\":%ld}\n", n, s ? (long) (s - (b.p + in.offset)) : -1L);
        free(b.p);
    }
}
static int lib_main(void) {
    char *l = NULL;
    size_t cap = 0;
    ssize_t n;
    setvbuf(stdout, NULL, _IOLBF, 1 << 16);
    while ((n = getline(&l, &cap, stdin)) > 0) {
        if (l[n - 1] == '\n') l[n - 1] = 0;
        NA = 0;
        for (char *t = strtok(l, " "); t && NA < MAXARG; t = strtok(NULL, " ")) A[NA++] = t;
        if (is("dec") || is("enc")) codec();
        else if (is("ar")) arith();
        else if (is("q")) queue();
        else if (is("s")) serial();
        else if (is("p")) pure();
        else printf("{\"what\":\"?\"}\n");
    }
    return 0;
}
