/* P14: decoding of damaged key encodings. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/pem.h>
#include "pk.h"
#include "cpar.h"
static pkset *S; static char N[128];
static BIGNUM *D, *DP; static EC_POINT *Q; static EVP_PKEY *peer;
enum { K_P8, K_SPKI, K_PARAM, NK };
static int kind;
static int gost(int t) { return t == NID_id_GostR3410_2001 || t == NID_id_GostR3410_2001DH || t == NID_id_GostR3410_2012_256 || t == NID_id_GostR3410_2012_512; }
static ecurve *curve_of(int nid) { for (int i = 0; i < NEC; i++) if (EC[i].nid == nid) return &EC[i]; return NULL; }
/* a key that came out of the decoder must be usable and consistent */
static void consistent(EVP_PKEY *k)
{
    int t = EVP_PKEY_base_id(k);
    if (!gost(t)) { mc_count("other_algorithm", 1); return; }
    EC_KEY *e = EVP_PKEY_get0(k);
    const EC_GROUP *g = e ? EC_KEY_get0_group(e) : NULL;
    if (!g) mc_fail(mc_fmt("no-group:%s", S->tname), "decoder returns a key without curve");
    ecurve *c = curve_of(EC_GROUP_get_curve_name(g));
    if (!c) mc_fail(mc_fmt("no-curve:%s", S->tname), "decoder returns a key on %s", OBJ_nid2sn(EC_GROUP_get_curve_name(g)));
    if ((c->size == 64) != (t == NID_id_GostR3410_2012_512)) mc_fail(mc_fmt("wrong-size-curve:%s", S->tname), "a key of type %s on curve %s", OBJ_nid2sn(t), c->name);
    const EC_POINT *P = EC_KEY_get0_public_key(e); const BIGNUM *d = EC_KEY_get0_private_key(e);
    EC_POINT *R = NULL;
    if (kind == K_SPKI && !P) mc_fail(mc_fmt("no-point:%s", S->tname), "a public key without a point");
    if (kind == K_P8 && !d) mc_fail(mc_fmt("no-private:%s", S->tname), "a private key without its number");
    if (P) {
        if (EC_POINT_is_at_infinity(g, P)) mc_fail(mc_fmt("infinity:%s", S->tname), "public key is the zero point");
        if (EC_POINT_is_on_curve(g, P, NULL) != 1) mc_fail(mc_fmt("off-curve:%s", S->tname), "public key is not on the curve");
        R = ec_conv(c, P, c->g);
        BIGNUM *x = BN_new(), *y = BN_new();
        if (!EC_POINT_get_affine_coordinates(c->g, R, x, y, ecbn)) mc_fail(mc_fmt("off-curve:%s", S->tname), "public key has no coordinates");
        BN_free(x); BN_free(y);
    }
    if (d) {
        if (BN_is_zero(d) || BN_is_negative(d) || BN_cmp(d, c->q) >= 0) mc_fail(mc_fmt("private-range:%s", S->tname), "private key %s out of range", bnh(d));
        BIGNUM *dd = BN_dup(d);
        EC_POINT *X = ec_mul(c, dd, NULL);
        if (!P || !ec_eq(c, X, g, P)) mc_fail(mc_fmt("pair:%s", S->tname), "public key does not belong to the private key");
        EC_POINT_free(X); BN_free(dd);
    }
    EC_POINT_free(R);
}
/* whatever it is, using it must not crash */
static void exercise(EVP_PKEY *k)
{
    u8 dg[64], sig[128], o[64]; size_t l = 128;
    int t = EVP_PKEY_base_id(k);
    if (!gost(t)) return;
    fill(dg, 64, 3);
    size_t n = t == NID_id_GostR3410_2012_512 ? 64 : 32;
    EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(k, E);
    if (x && EVP_PKEY_sign_init(x) == 1 && EVP_PKEY_sign(x, sig, &l, dg, n) == 1 && EC_KEY_get0_public_key(EVP_PKEY_get0(k))) {
        EVP_PKEY_verify_init(x);
        if (EVP_PKEY_verify(x, sig, l, dg, n) != 1) mc_fail(mc_fmt("unusable:%s", S->tname), "the decoded key's own signature does not verify");
    }
    EVP_PKEY_CTX_free(x);
    x = EVP_PKEY_CTX_new(k, E);
    if (x && EVP_PKEY_verify_init(x) == 1) EVP_PKEY_verify(x, dg, n, dg, n);
    EVP_PKEY_CTX_free(x);
    x = EVP_PKEY_CTX_new(peer, E);
    l = 64;
    if (x && EVP_PKEY_derive_init(x) == 1 && EVP_PKEY_derive_set_peer(x, k) == 1 && EVP_PKEY_CTX_ctrl(x, -1, -1, EVP_PKEY_CTRL_SET_IV, 8, dg) == 1) EVP_PKEY_derive(x, o, &l);
    EVP_PKEY_CTX_free(x);
    BIO *b = BIO_new(BIO_s_mem());
    EVP_PKEY_print_private(b, k, 0, NULL); EVP_PKEY_print_public(b, k, 0, NULL); EVP_PKEY_print_params(b, k, 0, NULL);
    i2d_PUBKEY_bio(b, k);
    if (EC_KEY_get0_private_key(EVP_PKEY_get0(k))) { u8 p[1600]; EVP_PKEY *r; size_t z = p8_encode(k, p); if (!z) mc_fail(mc_fmt("unusable:%s", S->tname), "a decoded private key cannot be encoded"); r = p8_decode(p, z); if (!r || EVP_PKEY_eq(r, k) != 1) mc_fail(mc_fmt("unusable:%s", S->tname), "a decoded private key does not survive encoding"); EVP_PKEY_free(r); }
    BIO_free(b);
    EVP_PKEY_eq(k, peer);
    EVP_PKEY_parameters_eq(k, peer);
}
/* the same key reached along many ways is judged and used once per case */
static int useit = 1;
static u8 seen[4096][320]; static int nseen;
static int known(EVP_PKEY *k)
{
    u8 b[320]; memset(b, 0, sizeof b);
    int t = EVP_PKEY_base_id(k);
    if (!gost(t)) return 0;
    EC_KEY *e = EVP_PKEY_get0(k); const EC_GROUP *g = e ? EC_KEY_get0_group(e) : NULL;
    if (!g) return 0;
    const BIGNUM *d = EC_KEY_get0_private_key(e); const EC_POINT *P = EC_KEY_get0_public_key(e);
    int nid = EC_GROUP_get_curve_name(g);
    memcpy(b, &t, 4); memcpy(b + 4, &nid, 4); b[8] = kind; b[9] = !!d; b[10] = !!P;
    if (d) { if (BN_num_bytes(d) > 100) return 0; b[11] = BN_is_negative(d); BN_bn2binpad(d, b + 16, 100); }
    if (P && !EC_POINT_point2oct(g, P, POINT_CONVERSION_UNCOMPRESSED, b + 120, 200, NULL)) return 0;
    for (int i = 0; i < nseen; i++) if (!memcmp(seen[i], b, 320)) return 1;
    if (nseen < 4096) memcpy(seen[nseen++], b, 320);
    return 0;
}
static void try(const u8 *b, size_t n)
{
    EVP_PKEY *k = NULL;
    mc_n_execs++; mc_trans(1);
    if (kind == K_P8) k = p8_decode(b, n);
    else if (kind == K_SPKI) k = spki_decode(b, n);
    else { u8 *t = malloc(n ? n : 1); const u8 *p = t; memcpy(t, b, n); k = d2i_KeyParams(S->type, NULL, &p, n); free(t); }
    ERR_clear_error();
    if (!k) { mc_count("refused", 1); return; }
    mc_count("accepted", 1);
    if (!known(k)) { consistent(k); if (useit) exercise(k); mc_count("distinct_keys", 1); }
    EVP_PKEY_free(k);
    ERR_clear_error();
}
/* an encoding as a tree */
typedef struct node { int tag, n, len, bitpad; struct node *c[8]; u8 v[300]; } node;
static node pool[64]; static int npool;
static node *parse(const u8 *b, size_t n)
{
    node *x = &pool[npool++];
    size_t h = 2, l = b[1];
    memset(x, 0, sizeof *x);
    if (l == 0x81) { l = b[2]; h = 3; } else if (l == 0x82) { l = b[2] << 8 | b[3]; h = 4; }
    if (h + l != n || npool > 60) mc_internal("parse");
    x->tag = b[0];
    const u8 *p = b + h; size_t m = l, skip = 0;
    int wrap = 0;
    if (x->tag == 3) { skip = 1; x->bitpad = 1; }
    /* strings holding DER */
    if ((x->tag == 4 || x->tag == 3) && m - skip > 2 && (p[skip] == 0x30 || p[skip] == 4) && p[skip + 1] + 2u == m - skip && p[skip + 1] < 128) wrap = 1;
    if ((x->tag == 3) && !wrap && m - skip > 3 && p[skip] == 4 && p[skip + 1] == 0x81 && p[skip + 2] + 3u == m - skip) wrap = 1;
    if (x->tag & 0x20 || wrap) {
        if (skip) { p++; m--; }
        while (m) {
            size_t hh = 2, ll = p[1];
            if (ll == 0x81) { ll = p[2]; hh = 3; } else if (ll == 0x82) { ll = p[2] << 8 | p[3]; hh = 4; }
            x->c[x->n++] = parse(p, hh + ll);
            p += hh + ll; m -= hh + ll;
        }
    } else { memcpy(x->v, p, m); x->len = m; }
    return x;
}
static size_t emit(node *x, u8 *out)
{
    u8 b[1600]; size_t n = 0;
    if (x->tag < 0) return 0;
    if (x->n || !x->len) { if (x->bitpad && x->n) b[n++] = 0; for (int i = 0; i < x->n; i++) n += emit(x->c[i], b + n); }
    else { memcpy(b, x->v, x->len); n = x->len; }
    return der_put(out, x->tag, b, n);
}
static void tree(const u8 *b, size_t n)
{
    static const int tags[] = { 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0c, 0x30, 0x31, 0x80, 0xa0, 0x24 };
    static const int oids[] = { NID_id_GostR3410_2001, NID_id_GostR3410_2001DH, NID_id_GostR3410_2012_256, NID_id_GostR3410_2012_512, NID_id_GostR3410_94, NID_rsaEncryption, NID_X9_62_id_ecPublicKey, NID_X9_62_prime256v1, NID_id_GostR3411_94, NID_id_GostR3411_2012_512, NID_id_Gost28147_89_MAC, NID_id_Gost28147_89_CryptoPro_A_ParamSet, NID_gost_mac_12, NID_magma_mac, NID_grasshopper_mac, NID_id_GostR3410_94_TestParamSet };
    u8 o[1700], chk[1600];
    npool = 0;
    node *r = parse(b, n);
    if (emit(r, chk) != n || memcmp(chk, b, n)) mc_internal("tree does not reproduce the encoding: %s vs %s", mc_hex(chk, n), mc_hex(b, n));
    int np = npool;
    for (int i = 0; i < np; i++) {
        node *x = &pool[i], sv = *x;
#define T(...) do { mc_reset_trace(); mc_op(__VA_ARGS__); try(o, emit(r, o)); *x = sv; } while (0)
        x->tag = -1; T("element %d dropped", i);
        x->n = 0; x->len = 0; T("element %d emptied", i);
        for (unsigned t = 0; t < sizeof tags / sizeof *tags; t++) { x->tag = tags[t]; T("element %d gets tag %02x", i, tags[t]); }
        /* and becomes a small element of another type */
        static const u8 small[][5] = { { 3, 1, 1, 0xff }, { 3, 1, 1, 0 }, { 2, 5, 0 }, { 3, 2, 1, 0 }, { 3, 2, 1, 0xff }, { 3, 3, 1, 0 }, { 4, 3, 2, 0, 0x80 }, { 3, 4, 1, 0 }, { 3, 6, 1, 0x2a }, { 3, 10, 1, 1 }, { 3, 12, 1, 'a' }, { 2, 0x30, 0 }, { 2, 0x31, 0 }, { 3, 0x80, 1, 0 }, { 3, 23, 1, '0' }, { 3, 9, 1, 0x40 } };
        for (unsigned t = 0; t < sizeof small / sizeof *small; t++) {
            x->n = 0; x->bitpad = 0; x->tag = small[t][1]; x->len = small[t][0] - 2; memcpy(x->v, small[t] + 3, x->len);
            T("element %d is tag %02x with %d bytes", i, small[t][1], x->len);
        }
        if (!x->n) {
            for (int l = 0; l < 140; l++) {
                if (!mc_thorough && l > x->len + 3 && (l & 31) && l % 32 != 1 && l % 32 != 31) continue;
                if (l < x->len) { x->len = l; T("element %d cut to %d bytes", i, l); x->len = l ? l : 1; memmove(x->v, x->v + sv.len - l, l); T("element %d keeps its last %d bytes", i, l); }
                else if (l > x->len) { memset(x->v + x->len, 0, l - x->len); x->len = l; T("element %d padded with zeros to %d bytes", i, l); memset(x->v + x->len, 0xa5, l - x->len); x->len = l; T("element %d padded to %d bytes", i, l); memmove(x->v + l - x->len, x->v, x->len); memset(x->v, 0, l - x->len); x->len = l; T("element %d padded in front to %d bytes", i, l); }
            }
            for (int w = 0; w < 6; w++) {
                u8 t[64]; int l = x->len;
                switch (w) { case 0: memset(x->v, 0, l); break; case 1: memset(x->v, 0xff, l); break; case 2: if (l > 1) { memset(x->v, 0, l); x->v[0] = 1; } break; case 3: if (l > 1) { memset(x->v, 0, l); x->v[l - 1] = 1; } break;
                case 4: BN_bn2lebinpad(S->c->q, t, S->c->size); for (int z = 0; z < l; z++) x->v[z] = t[z % S->c->size]; break;
                case 5: if (l > 1) { memset(x->v, 0, l); BN_bn2lebinpad(S->c->q, x->v, l < S->c->size ? S->c->size : l); } break; }
                T("element %d value class %d", i, w);
            }
            if (x->tag == 6) {
                for (unsigned t = 0; t < sizeof oids / sizeof *oids; t++) { u8 d[40]; size_t l = der_oid(d, oids[t]); memcpy(x->v, d + 2, x->len = l - 2); T("element %d names %s", i, OBJ_nid2sn(oids[t])); }
                for (int c = 0; c < NEC; c++) { u8 d[40]; size_t l = der_oid(d, EC[c].nid); memcpy(x->v, d + 2, x->len = l - 2); T("element %d names %s", i, EC[c].name); }
            }
        } else {
            for (int a = 0; a < x->n; a++) {
                if (x->n < 8) { x->c[x->n] = x->c[a]; x->n++; T("element %d: part %d twice", i, a); }
                for (int c = a + 1; c < x->n; c++) { node *y = x->c[a]; x->c[a] = x->c[c]; x->c[c] = y; T("element %d: parts %d and %d exchanged", i, a, c); }
            }
            static node extra = { .tag = 5 }; if (x->n < 8) { x->c[x->n++] = &extra; T("element %d: NULL appended", i); }
        }
    }
}
static void flat(const u8 *b, size_t n, int deep)
{
    u8 a[1700];
    static const u8 vals[] = { 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x20, 0x30, 0x31, 0x40, 0x7f, 0x80, 0x81, 0x82, 0x84, 0xa0, 0xff };
    for (size_t i = 0; i < n; i++) {
        useit = mc_thorough || i % 8 == 7;
        for (int bit = 0; bit < 8; bit++) { if (!deep && i > 60 && bit != (int)(i & 7)) continue; memcpy(a, b, n); a[i] ^= 1 << bit; mc_reset_trace(); mc_op("bit %d of byte %zu", bit, i); try(a, n); }
        for (unsigned v = 0; v < sizeof vals; v++) { if (!deep && i > 60 && v % 6 != i % 6) continue; memcpy(a, b, n); a[i] = vals[v]; mc_reset_trace(); mc_op("byte %zu is %02x", i, vals[v]); try(a, n); }
        if (mc_thorough && deep && i < 60) for (int v = 0; v < 256; v++) { memcpy(a, b, n); a[i] = v; mc_reset_trace(); mc_op("byte %zu is %02x", i, v); try(a, n); }
        memcpy(a, b, n); mc_reset_trace(); mc_op("cut to %zu bytes", i); try(a, i);
        memmove(a + i, a + i + 1, n - i - 1); mc_reset_trace(); mc_op("byte %zu removed", i); try(a, n - 1);
        memcpy(a, b, n); memmove(a + i + 1, a + i, n - i); mc_reset_trace(); mc_op("byte %zu doubled", i); try(a, n + 1);
    }
    useit = 1;
    memcpy(a, b, n); for (int e = 1; e < 5; e++) { memset(a + n, 0, e); mc_reset_trace(); mc_op("%d bytes appended", e); try(a, n + e); }
}
static size_t base(int f, u8 *b)
{
    u8 p[900];
    if (f < NPF) return ref_p8(S, pk_digest_oid(S), p, ref_priv(S, D, f, p), b);
    if (f == NPF) return ref_spki(S, Q, pk_digest_oid(S), b);
    return der_oid(b, S->c->nid);
}
static void use(pkset *s)
{
    S = s; nseen = 0; snprintf(N, sizeof N, "%s", pk_name(s));
    u8 x[64];
    D = BN_new(); DP = BN_new();
    fill(x, 64, 21); BN_bin2bn(x, S->c->size, D); BN_mod(D, D, S->c->q, ecbn);
    fill(x, 64, 22); BN_bin2bn(x, S->c->size, DP); BN_mod(DP, DP, S->c->q, ecbn);
    Q = ec_mul(s->c, D, NULL); peer = pk_new(s, DP);
}
static void unuse(void) { BN_free(D); BN_free(DP); EC_POINT_free(Q); EVP_PKEY_free(peer); }
/* private keys and points given directly: every edge value */
static void edges(void)
{
    u8 b[1600], p[300];
    int n = S->c->size;
    kind = K_P8;
    for (int v = 0; v < 12; v++) for (int f = 0; f < 3; f++) {
        BIGNUM *d = BN_dup(S->c->q);
        if (v == 0) BN_zero(d); else if (v == 2) BN_add_word(d, 1); else if (v == 3) BN_sub_word(d, 1); else if (v == 4) BN_lshift1(d, d); else if (v == 5) { BN_zero(d); BN_set_bit(d, n * 8); BN_sub_word(d, 1); } else if (v == 6) { BN_zero(d); BN_set_bit(d, n * 8); } else if (v == 7) BN_mul(d, d, d, ecbn); else if (v == 8) BN_one(d); else if (v == 9) BN_add_word(d, 2); else if (v == 10) BN_mul_word(d, 3); else if (v == 11) BN_rshift1(d, d);
        size_t l = BN_num_bytes(d) > n ? BN_num_bytes(d) : n, k;
        u8 t[200]; BN_bn2lebinpad(d, t, l);
        if (f == 0) memcpy(p, t, k = l); else if (f == 1) k = der_put(p, 4, t, l); else { u8 be[200]; be[0] = 0; BN_bn2binpad(d, be + 1, l); k = der_put(p, 2, be, l + 1); }
        mc_reset_trace(); mc_op("private key %s, form %d", bnh(d), f);
        try(b, ref_p8(S, pk_digest_oid(S), p, k, b));
        /* negative INTEGER */
        if (f == 2) { u8 be[200]; BN_bn2binpad(d, be, l); be[0] |= 0x80; k = der_put(p, 2, be, l); try(b, ref_p8(S, pk_digest_oid(S), p, k, b)); }
        BN_free(d);
    }
    /* masks of zero and of the order */
    for (int f = 0; f < 2; f++) for (int v = 0; v < 3; v++) for (int w = 0; w < 2; w++) {
        u8 t[128]; fill(t, 128, 9); t[n - 1] = 0;
        u8 *m = t + (w ? 0 : n);
        if (v == 0) memset(m, 0, n); else if (v == 1) BN_bn2lebinpad(S->c->q, m, n); else memset(m, 0xff, n);
        size_t k = 2 * n; memcpy(p, t, k);
        if (f) { u8 z[300]; size_t zl = der_put(z, 4, t, 2 * n); zl += der_put(z + zl, 4, t, 2 * n); k = der_put(p, 0x30, z, zl); }
        mc_reset_trace(); mc_op("masked key, %s value class %d, form %d", w ? "key" : "mask", v, f);
        try(b, ref_p8(S, pk_digest_oid(S), p, k, b));
    }
    kind = K_SPKI;
    for (int v = 0; v < 9; v++) for (int w = 0; w < 9; w++) {
        u8 q[128], sp[400]; pt_le(S->c, Q, q);
        BIGNUM *c = BN_new();
        for (int h = 0; h < 2; h++) {
            int z = h ? w : v; u8 *m = q + h * n;
            BN_copy(c, S->c->p);
            switch (z) { case 0: continue; case 1: memset(m, 0, n); break; case 2: memset(m, 0xff, n); break; case 3: BN_bn2lebinpad(c, m, n); break; case 4: BN_sub_word(c, 1); BN_bn2lebinpad(c, m, n); break;
            case 5: memset(m, 0, n); m[0] = 1; break; case 6: { BIGNUM *y = BN_lebin2bn(m, n, NULL); BN_sub(y, c, y); BN_bn2lebinpad(y, m, n); BN_free(y); break; } case 7: { BIGNUM *y = BN_lebin2bn(m, n, NULL); BN_add(y, c, y); if (BN_num_bytes(y) <= n) BN_bn2lebinpad(y, m, n); BN_free(y); break; } case 8: for (int i = 0; i < n / 2; i++) { u8 t = m[i]; m[i] = m[n - 1 - i]; m[n - 1 - i] = t; } break; }
        }
        BN_free(c);
        size_t k = ref_spki(S, Q, pk_digest_oid(S), sp);
        memcpy(sp + k - 2 * n, q, 2 * n);
        mc_reset_trace(); mc_op("point, coordinate classes %d %d", v, w);
        try(sp, k);
    }
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(1);
    pk_init();
    for (int i = 0; i < NPK; i++) {
        int deep = mc_thorough || i == 0;
        int sel = mc_thorough || i == 0 || i == NPK - 1;
        for (int f = 0; f < NPF + 2; f++) {
            if (f == NPF + 1 && PK[i].type != NID_id_GostR3410_2001) continue;
            if (!sel && f != PF_RAW && f != NPF) continue;
            MC_CASE("%s form %d, structure", pk_name(&PK[i]), f) {
                u8 b[1600]; use(&PK[i]); kind = f < NPF ? K_P8 : f == NPF ? K_SPKI : K_PARAM;
                tree(b, base(f, b)); unuse(); mc_outcome("refused or consistent"); mc_sample("%s form %d: every element dropped, emptied, retagged, resized", N, f);
            }
            if (sel) MC_CASE("%s form %d, bytes", pk_name(&PK[i]), f) { u8 b[1600]; use(&PK[i]); kind = f < NPF ? K_P8 : f == NPF ? K_SPKI : K_PARAM; flat(b, base(f, b), deep); unuse(); mc_outcome("refused or consistent"); }
        }
        MC_CASE("%s edge values", pk_name(&PK[i])) { use(&PK[i]); edges(); unuse(); mc_outcome("edge values judged"); }
    }
    cpar_init();
    for (int i = 0; i < NPC; i++) MC_CASE("parameters of %s", PC[i].sn) cpar_damage(&PC[i], mc_thorough);
    return mc_finish();
}
