/* P13: encodings of keys and parameters. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/pem.h>
#include "pk.h"
static const char *FN[] = { "raw", "OCTET STRING", "INTEGER", "one mask", "two masks", "three masks", "SEQUENCE", "SEQUENCE one mask", "SEQUENCE two masks" };
static pkset *S; static char N[128];
static void use(pkset *s) { S = s; snprintf(N, sizeof N, "%s", pk_name(s)); }
#define NV 16
static BIGNUM *val(int i)
{
    BIGNUM *b = BN_new(); const BIGNUM *q = S->c->q; u8 x[64]; int n = S->c->size;
    fill(x, 64, 900 + i);
    switch (i) {
    case 0: break;
    case 1: BN_one(b); return b;
    case 2: BN_sub(b, q, BN_value_one()); return b;
    case 3: BN_rshift1(b, q); return b;
    case 4: x[0] = 0x04; break;                     /* first byte looks like a DER tag */
    case 5: x[0] = 0x02; break;
    case 6: x[0] = 0x30; break;
    case 7: x[0] = x[1] = 0; break;                 /* low zero bytes */
    case 8: x[n - 1] = 0; break;                    /* high zero bytes */
    case 9: x[n - 1] = x[n - 2] = x[n - 3] = 0; break;
    case 10: memset(x, 0, n); x[n / 2] = 1; break;
    case 11: x[n - 1] = 0; x[n - 2] = 0x80; break;
    case 12: x[n - 1] = 0x7f; x[n - 2] = 0xff; break;
    case 13: x[0] = 0x04; x[1] = n - 2; break;
    case 14: BN_set_word(b, 0xff); return b;
    case 15: memset(x, 0, n); memset(x, 0xff, n / 2); break;
    }
    BN_lebin2bn(x, n, b);
    while (BN_cmp(b, q) >= 0) BN_clear_bit(b, BN_num_bits(b) - 1);
    return b;
}
/* the object is exactly this key */
static void same(EVP_PKEY *k, pkset *s, const BIGNUM *d, const EC_POINT *Q, const char *how)
{
    EC_KEY *e = k ? EVP_PKEY_get0(k) : NULL;
    if (!k) mc_fail(mc_fmt("refused:%s:%s", s->tname, how), "%s: %s is refused", pk_name(s), how);
    if (EVP_PKEY_base_id(k) != s->type || !e) mc_fail(mc_fmt("type:%s:%s", s->tname, how), "%s: type %s", pk_name(s), OBJ_nid2sn(EVP_PKEY_base_id(k)));
    if (!EC_KEY_get0_group(e) || EC_GROUP_get_curve_name(EC_KEY_get0_group(e)) != s->c->nid) mc_fail(mc_fmt("curve:%s:%s", s->tname, how), "%s: curve is %s", pk_name(s), EC_KEY_get0_group(e) ? OBJ_nid2sn(EC_GROUP_get_curve_name(EC_KEY_get0_group(e))) : "none");
    const BIGNUM *kd = EC_KEY_get0_private_key(e);
    if (!d != !kd || (d && BN_cmp(d, kd))) mc_fail(mc_fmt("private:%s:%s", s->tname, how), "%s: private key is %s, not %s", pk_name(s), bnh(kd), bnh(d));
    if (!Q != !EC_KEY_get0_public_key(e) || (Q && !ec_eq(s->c, Q, EC_KEY_get0_group(e), EC_KEY_get0_public_key(e)))) mc_fail(mc_fmt("public:%s:%s", s->tname, how), "%s: wrong public key", pk_name(s));
    if (EVP_PKEY_get_bits(k) != s->c->size * 8 || EVP_PKEY_get_size(k) != 2 * s->c->size) mc_fail(mc_fmt("size:%s", s->tname), "%d bits, size %d", EVP_PKEY_get_bits(k), EVP_PKEY_get_size(k));
    mc_trans(1); mc_count("keys_compared", 1);
}
/* reads algorithm parameters made by the engine */
static void algparams(der *a, pkset *s)
{
    der o, p;
    u8 b[64]; size_t n;
    n = der_oid(b, s->type);
    if (!der_get(a, 6, &o) || (size_t)(o.e - o.p) != n - 2 || memcmp(o.p, b + 2, n - 2)) mc_fail(mc_fmt("encoded-type:%s", s->tname), "%s: wrong algorithm identifier", pk_name(s));
    if (!der_get(a, 0x30, &p) || a->p != a->e) mc_fail(mc_fmt("encoded-params:%s", s->tname), "%s: parameters ill formed", pk_name(s));
    n = der_oid(b, s->c->nid);
    if (!der_get(&p, 6, &o) || (size_t)(o.e - o.p) != n - 2 || memcmp(o.p, b + 2, n - 2)) mc_fail(mc_fmt("encoded-curve:%s", s->tname), "%s: parameters name another curve: %s", pk_name(s), mc_hex(o.p, o.e - o.p));
    int cp = strstr(s->c->name, "2001") && !strstr(s->c->name, "Test");
    if (p.p == p.e) {
        if (s->dgst == NID_id_GostR3411_94 || cp) mc_fail(mc_fmt("encoded-digest:%s", s->tname), "%s: digest parameters missing", pk_name(s));
        return;
    }
    n = der_oid(b, pk_digest_oid(s));
    if (!der_get(&p, 6, &o) || p.p != p.e || (size_t)(o.e - o.p) != n - 2 || memcmp(o.p, b + 2, n - 2)) mc_fail(mc_fmt("encoded-digest:%s", s->tname), "%s: wrong digest parameters", pk_name(s));
}
static void check_p8(const u8 *b, size_t n, pkset *s, const BIGNUM *d, int wrap)
{
    der t = { b, b + n }, q, v, a, o; u8 x[200];
    if (!n) mc_fail(mc_fmt("encode-refused:%s", s->tname), "%s: private key %s is not encoded", pk_name(s), bnh(d));
    if (!der_get(&t, 0x30, &q) || t.p != t.e || !der_get(&q, 2, &v) || v.e - v.p != 1 || *v.p || !der_get(&q, 0x30, &a) || !der_get(&q, 4, &o) || q.p != q.e) mc_fail(mc_fmt("encoded-form:%s", s->tname), "PKCS#8 ill formed: %s", mc_hex(b, n));
    algparams(&a, s);
    size_t l = ref_priv(s, d, wrap ? PF_OCT : PF_RAW, x);
    if ((size_t)(o.e - o.p) != l || memcmp(o.p, x, l)) mc_fail(mc_fmt("encoded-key:%s:%d", s->tname, wrap), "%s: encoded key %s, expected %s", pk_name(s), mc_hex(o.p, o.e - o.p), mc_hex(x, l));
}
static size_t spki_encode(EVP_PKEY *k, u8 *out) { u8 *b = NULL; int n = i2d_PUBKEY(k, &b); if (n > 600) mc_internal("spki"); if (n > 0) memcpy(out, b, n); OPENSSL_free(b); return n > 0 ? n : 0; }
static void check_spki(const u8 *b, size_t n, pkset *s, const EC_POINT *Q)
{
    der t = { b, b + n }, q, a, k, o; u8 x[200];
    if (!n) mc_fail(mc_fmt("encode-refused:%s:public", s->tname), "%s: public key is not encoded", pk_name(s));
    if (!der_get(&t, 0x30, &q) || t.p != t.e || !der_get(&q, 0x30, &a) || !der_get(&q, 3, &k) || q.p != q.e || k.e - k.p < 2 || *k.p++ || !der_get(&k, 4, &o) || k.p != k.e) mc_fail(mc_fmt("encoded-form:%s:public", s->tname), "SPKI ill formed: %s", mc_hex(b, n));
    algparams(&a, s);
    pt_le(s->c, Q, x);
    if (o.e - o.p != 2 * s->c->size || memcmp(o.p, x, 2 * s->c->size)) mc_fail(mc_fmt("encoded-key:%s:public", s->tname), "%s: encoded point %s, expected %s", pk_name(s), mc_hex(o.p, o.e - o.p), mc_hex(x, 2 * s->c->size));
}
static void encode_all(EVP_PKEY *k, pkset *s, const BIGNUM *d, const EC_POINT *Q)
{
    u8 b[1600]; size_t n;
    EVP_PKEY *r;
    for (int w = 0; w < 2 && d; w++) {
        if (!ENGINE_ctrl_cmd_string(E, "GOST_PK_FORMAT", w ? "LEGACY_PK_WRAP" : "", 0)) mc_fail("pk-format", "private-key format refused");
        n = p8_encode(k, b);
        ENGINE_ctrl_cmd_string(E, "GOST_PK_FORMAT", "", 0);
        mc_n_execs++;
        check_p8(b, n, s, d, w);
        same(r = p8_decode(b, n), s, d, Q, "own PKCS#8");
        if (EVP_PKEY_eq(k, r) != 1) mc_fail(mc_fmt("compare:%s", s->tname), "a key and its decoded encoding are not equal");
        EVP_PKEY_free(r);
    }
    n = spki_encode(k, b);
    check_spki(b, n, s, Q);
    same(r = spki_decode(b, n), s, NULL, Q, "own public key");
    if (EVP_PKEY_eq(k, r) != 1) mc_fail(mc_fmt("compare:%s", s->tname), "a key and its public half are not equal");
    EVP_PKEY_free(r);
    /* text forms */
    BIO *o = BIO_new(BIO_s_mem()); char *t; long tl;
    if (EVP_PKEY_print_public(o, k, 2, NULL) == 1 && (tl = BIO_get_mem_data(o, &t)) > 0) {
        BIGNUM *x = BN_new(), *y = BN_new(); EC_POINT_get_affine_coordinates(s->c->g, Q, x, y, ecbn);
        char *z = calloc(1, tl + 1); memcpy(z, t, tl);
        char hx[300], hy[300]; snprintf(hx, 300, "X:%s", bnh(x)); snprintf(hy, 300, "Y:%s", bnh(y));
        char *px = strstr(z, "X:"), *py = strstr(z, "Y:");
        BIGNUM *vx = NULL, *vy = NULL;
        if (!px || !py || !BN_hex2bn(&vx, px + 2) || !BN_hex2bn(&vy, py + 2) || BN_cmp(vx, x) || BN_cmp(vy, y) || !strstr(z, OBJ_nid2ln(s->c->nid))) mc_fail(mc_fmt("print:%s", s->tname), "%s prints as %s", pk_name(s), z);
        BN_free(vx); BN_free(vy); BN_free(x); BN_free(y); free(z);
    } else mc_fail(mc_fmt("print:%s", s->tname), "public key does not print");
    (void)BIO_reset(o);
    if (d) {
        if (EVP_PKEY_print_private(o, k, 0, NULL) != 1 || (tl = BIO_get_mem_data(o, &t)) <= 0) mc_fail(mc_fmt("print:%s", s->tname), "private key does not print");
        char *z = calloc(1, tl + 1), *p; memcpy(z, t, tl);
        BIGNUM *v = NULL;
        if (!(p = strstr(z, "Private key: ")) || !BN_hex2bn(&v, p + 13) || BN_cmp(v, d)) mc_fail(mc_fmt("print:%s", s->tname), "private key prints as %s", z);
        BN_free(v); free(z);
    }
    (void)BIO_reset(o);
    if (d) {
        /* PEM, in clear */
        PEM_write_bio_PKCS8PrivateKey(o, k, NULL, NULL, 0, NULL, NULL);
        same(r = PEM_read_bio_PrivateKey(o, NULL, NULL, NULL), s, d, Q, "PEM");
        EVP_PKEY_free(r);
    }
    BIO_free(o);
    ERR_clear_error();
}
static void one(int v)
{
    BIGNUM *d = val(v);
    EC_POINT *Q = ec_mul(S->c, d, NULL);
    u8 p[700], b[1600];
    EVP_PKEY *k;
    for (int f = 0; f < NPF; f++) for (int dg = 0; dg < 2; dg++) {
        size_t l = ref_priv(S, d, f, p);
        /* a wrapped form whose length is a multiple of the key length would be ambiguous; none is */
        if (f != PF_RAW && f != PF_MASK1 && f != PF_MASK2 && f != PF_MASK3 && l % S->c->size == 0) continue;
        size_t n = ref_p8(S, dg ? pk_digest_oid(S) : 0, p, l, b);
        mc_reset_trace(); mc_op("decode %s, value %d, %s digest parameter", FN[f], v, dg ? "with" : "without");
        mc_n_execs++;
        k = p8_decode(b, n);
        same(k, S, d, Q, FN[f]);
        if (f == PF_RAW || f == PF_MASK2) encode_all(k, S, d, Q);
        EVP_PKEY_free(k);
        mc_outcome("%s decoded", FN[f]);
    }
    for (int dg = 0; dg < 2; dg++) {
        size_t n = ref_spki(S, Q, dg ? pk_digest_oid(S) : 0, b);
        mc_reset_trace(); mc_op("decode public key, value %d", v);
        k = spki_decode(b, n);
        same(k, S, NULL, Q, "public key");
        encode_all(k, S, NULL, Q);
        EVP_PKEY_free(k);
    }
    BN_free(d); EC_POINT_free(Q);
    ERR_clear_error();
}
/* every value of each single byte of a private key and of coordinates survives */
static void bytes(void)
{
    for (int i = 0; i < S->c->size; i++) for (int w = 0; w < 4; w++) {
        u8 x[64], p[100], b[400]; fill(x, 64, 7);
        x[i] = w == 0 ? 0 : w == 1 ? 0xff : w == 2 ? 0x80 : 1;
        BIGNUM *d = BN_lebin2bn(x, S->c->size, NULL);
        BN_mod(d, d, S->c->q, ecbn);
        if (BN_is_zero(d)) { BN_free(d); continue; }
        mc_reset_trace(); mc_op("byte %d is %02x", i, x[i]);
        EC_POINT *Q = ec_mul(S->c, d, NULL);
        size_t n = ref_p8(S, pk_digest_oid(S), p, ref_priv(S, d, i & 1 ? PF_OCT : PF_RAW, p), b);
        EVP_PKEY *k = p8_decode(b, n);
        same(k, S, d, Q, "byte");
        u8 o[1600];
        check_p8(o, p8_encode(k, o), S, d, 0);
        check_spki(o, spki_encode(k, o), S, Q);
        EVP_PKEY_free(k); BN_free(d); EC_POINT_free(Q);
        mc_n_execs++;
    }
    /* points with zero bytes at either end of a coordinate: search the small multiples */
    int found = 0;
    BIGNUM *m = BN_new(), *x = BN_new(), *y = BN_new();
    for (unsigned i = 1; i < (mc_thorough ? 6000u : 700u); i++) {
        u8 t[128], o[1600];
        BN_set_word(m, i);
        EC_POINT *Q = ec_mul(S->c, m, NULL);
        pt_le(S->c, Q, t);
        int n = S->c->size;
        if (!t[0] || !t[n - 1] || !t[n] || !t[2 * n - 1]) {
            found++;
            mc_reset_trace(); mc_op("multiple %u of the generator", i);
            size_t l = ref_spki(S, Q, pk_digest_oid(S), o);
            EVP_PKEY *k = spki_decode(o, l);
            same(k, S, NULL, Q, "zero bytes");
            check_spki(o, spki_encode(k, o), S, Q);
            EVP_PKEY_free(k);
        }
        EC_POINT_free(Q);
    }
    if (found < 4) mc_internal("no zero bytes");
    mc_count("points_with_zero_bytes", found);
    BN_free(m); BN_free(x); BN_free(y);
}
/* parameters alone */
static void params(void)
{
    u8 *b = NULL, r[64];
    EVP_PKEY *k = pk_wrap(S, NULL, NULL), *o;
    int n = i2d_KeyParams(k, &b);
    if (S->dgst == NID_id_GostR3411_94) {
        size_t l = der_oid(r, S->c->nid);
        if (n != (int)l || memcmp(b, r, l)) mc_fail(mc_fmt("params:%s", S->tname), "%s: encoded parameters %s", N, mc_hex(b, n > 0 ? n : 0));
        const u8 *p = r;
        o = d2i_KeyParams(S->type, NULL, &p, l);
        same(o, S, NULL, NULL, "parameters");
        if (EVP_PKEY_parameters_eq(k, o) != 1) mc_fail(mc_fmt("params-compare:%s", S->tname), "parameters differ");
        EVP_PKEY_free(o);
    } else if (n > 0) mc_fail(mc_fmt("params:%s", S->tname), "parameters of a 2012 key encoded");
    OPENSSL_free(b);
    /* copying */
    for (int i = 0; i < NPK; i++) for (int priv = 0; priv < 2; priv++) {
        BIGNUM *d = val(0); EC_POINT *Q = ec_mul(S->c, d, NULL);
        EVP_PKEY *from = priv ? pk_wrap(S, d, Q) : pk_wrap(S, NULL, Q), *to = EVP_PKEY_new();
        mc_reset_trace(); mc_op("copy parameters to %s", pk_name(&PK[i]));
        EVP_PKEY_set_type(to, PK[i].type);
        int rr = EVP_PKEY_copy_parameters(to, from);
        if ((rr == 1) != (PK[i].type == S->type)) mc_fail(mc_fmt("copy-params:%s", S->tname), "copying parameters to a key of type %s returns %d", PK[i].tname, rr);
        if (rr == 1) same(to, S, NULL, NULL, "copied parameters");
        EVP_PKEY_free(to);
        to = pk_wrap(&PK[i], NULL, NULL);
        rr = EVP_PKEY_parameters_eq(to, from);
        if ((rr == 1) != (&PK[i] == S)) mc_fail(mc_fmt("params-compare:%s", S->tname), "comparing parameters with %s gives %d", pk_name(&PK[i]), rr);
        EVP_PKEY_free(to); EVP_PKEY_free(from); EC_POINT_free(Q); BN_free(d);
        ERR_clear_error(); mc_n_execs++;
    }
    /* a private key without parameters gets its public key with them */
    {
        EC_KEY *e = EC_KEY_new(); BIGNUM *d = val(0); EC_POINT *Q = ec_mul(S->c, d, NULL);
        EC_KEY_set_private_key(e, d);
        if (EC_KEY_get0_private_key(e)) {
            o = EVP_PKEY_new(); EVP_PKEY_assign(o, S->type, e);
            mc_reset_trace(); mc_op("parameters for a bare private key");
            if (EVP_PKEY_copy_parameters(o, k) == 1) same(o, S, d, Q, "private key given parameters");
            EVP_PKEY_free(o);
        } else EC_KEY_free(e);
        BN_free(d); EC_POINT_free(Q);
    }
    EVP_PKEY_free(k);
    ERR_clear_error();
}
/* comparison over all pairs of keys */
static void compare(void)
{
    enum { V = 3 };
    EVP_PKEY *k[32 * V], *p[32 * V]; int n = 0, w[32 * V], nv[32 * V];
    EC_POINT *Q[32 * V];
    for (int i = 0; i < NPK; i++) for (int v = 0; v < V; v++) {
        use(&PK[i]);
        BIGNUM *d = val(v == 2 ? 2 : v);             /* 1 and q-1 give points differing in sign only */
        Q[n] = ec_mul(S->c, d, NULL); k[n] = pk_wrap(S, d, Q[n]); p[n] = pk_wrap(S, NULL, Q[n]); w[n] = i; nv[n] = v; n++;
        BN_free(d);
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int m = 0; m < 4; m++) {
        int eq = w[i] == w[j] && nv[i] == nv[j];
        mc_reset_trace(); mc_op("compare %s value %d with %s value %d", pk_name(&PK[w[i]]), nv[i], pk_name(&PK[w[j]]), nv[j]);
        int r = EVP_PKEY_eq(m & 1 ? p[i] : k[i], m & 2 ? p[j] : k[j]);
        mc_n_execs++; mc_trans(1);
        if ((r == 1) != eq) mc_fail(mc_fmt("compare:%s", PK[w[i]].tname), "comparison says %d", r);
        if (r == 1) mc_count("equal", 1);
        ERR_clear_error();
    }
    for (int i = 0; i < n; i++) { EVP_PKEY_free(k[i]); EVP_PKEY_free(p[i]); EC_POINT_free(Q[i]); }
}
/* keys with parts missing are never written as if they were whole */
static void incomplete(void)
{
    static const char *const W[] = { "a private and public key", "a public key only", "a private key only", "parameters only", "a type only" };
    BIGNUM *d = val(0); EC_POINT *Q = ec_mul(S->c, d, NULL);
    for (int w = 0; w < 5; w++) {
        EVP_PKEY *k = w == 4 ? EVP_PKEY_new() : pk_wrap(S, w == 0 || w == 2 ? d : NULL, w < 2 ? Q : NULL);
        if (w == 4 && !EVP_PKEY_set_type(k, S->type)) mc_internal("set_type");
        int priv = w == 0 || w == 2, pub = w < 2, n;
        for (int op = 0; op < 9; op++) {
            u8 *b = NULL; BIO *o = BIO_new(BIO_s_mem()); int r = -1, want = -1;
            static const char *const ON[] = { "i2d_PrivateKey", "PKCS#8", "PEM of the private key", "i2d_PUBKEY", "PEM of the public key", "print private", "print public", "print parameters", "sizes" };
            mc_reset_trace(); mc_op("%s of %s", ON[op], W[w]);
            switch (op) {
            case 0: r = i2d_PrivateKey(k, &b) > 0; want = priv; break;
            case 1: { PKCS8_PRIV_KEY_INFO *p = EVP_PKEY2PKCS8(k); r = !!p; PKCS8_PRIV_KEY_INFO_free(p); want = priv; break; }
            case 2: r = PEM_write_bio_PrivateKey(o, k, NULL, NULL, 0, NULL, NULL) == 1; want = priv; break;
            case 3: r = i2d_PUBKEY(k, &b) > 0; want = pub; break;
            case 4: r = PEM_write_bio_PUBKEY(o, k) == 1; want = pub; break;
            case 5: EVP_PKEY_print_private(o, k, 0, NULL); break;
            case 6: EVP_PKEY_print_public(o, k, 0, NULL); break;
            case 7: r = EVP_PKEY_print_params(o, k, 0, NULL) == 1; want = w < 4 ? 1 : -1; break;
            case 8: EVP_PKEY_bits(k); EVP_PKEY_size(k); EVP_PKEY_security_bits(k); r = EVP_PKEY_missing_parameters(k); want = w == 4; break;
            }
            (void)n;
            if (want >= 0 && r != want) mc_fail(mc_fmt("incomplete:%s:%s", ON[op], S->tname), "%s of %s gives %d", ON[op], W[w], r);
            OPENSSL_free(b); BIO_free(o); ERR_clear_error(); mc_n_execs++; mc_trans(1);
        }
        EVP_PKEY_free(k);
    }
    BN_free(d); EC_POINT_free(Q);
}
/* order of use: parameter sets share curves, and each key must keep its own name */
static int pool[24], npool;
static void hist(void *v)
{
    EVP_PKEY *k[6]; int w[6], n = mc_thorough ? 4 : 3; BIGNUM *d[6]; EC_POINT *Q[6];
    mc_reset_trace();
    for (int i = 0; i < n; i++) {
        w[i] = pool[mc_choose(npool)]; int how = mc_choose(3);
        use(&PK[w[i]]);
        mc_op("%s %s", how == 0 ? "private key" : how == 1 ? "public key" : "parameters", N);
        u8 p[100], b[500];
        static struct { BIGNUM *d; EC_POINT *Q; } cache[32];
        if (!cache[w[i]].d) { cache[w[i]].d = val(0); cache[w[i]].Q = ec_mul(S->c, cache[w[i]].d, NULL); }
        d[i] = cache[w[i]].d; Q[i] = cache[w[i]].Q;
        if (how == 0) k[i] = p8_decode(b, ref_p8(S, pk_digest_oid(S), p, ref_priv(S, d[i], PF_RAW, p), b));
        else if (how == 1) { d[i] = NULL; k[i] = spki_decode(b, ref_spki(S, Q[i], pk_digest_oid(S), b)); }
        else { d[i] = NULL; Q[i] = NULL; EVP_PKEY *t = pk_wrap(S, NULL, NULL); k[i] = EVP_PKEY_new(); EVP_PKEY_set_type(k[i], S->type); EVP_PKEY_copy_parameters(k[i], t); EVP_PKEY_free(t); }
        mc_trans(1);
    }
    for (int i = 0; i < n; i++) {
        same(k[i], &PK[w[i]], d[i], Q[i], "key kept while others were loaded");
        u8 b[1600];
        if (d[i]) check_p8(b, p8_encode(k[i], b), &PK[w[i]], d[i], 0);
        if (Q[i]) check_spki(b, spki_encode(k[i], b), &PK[w[i]], Q[i]);
    }
    for (int i = 0; i < n; i++) EVP_PKEY_free(k[i]);
    mc_n_execs++;
    ERR_clear_error();
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(1);
    pk_init();
    /* the Diffie-Hellman variant of the 2001 keys */
    for (int i = 0, n = NPK; i < n; i++) if (PK[i].type == NID_id_GostR3410_2001) { PK[NPK] = PK[i]; PK[NPK].type = NID_id_GostR3410_2001DH; PK[NPK++].tname = "gost2001dh"; }
    if (NPK > 32) mc_internal("NPK");
    for (int i = 0; i < NPK; i++) {
        for (int v = 0; v < NV; v++) MC_CASE("%s value %d", pk_name(&PK[i]), v) { use(&PK[i]); one(v); mc_sample("%s value %d in every form", N, v); }
        MC_CASE("%s bytes", pk_name(&PK[i])) { use(&PK[i]); bytes(); }
        MC_CASE("%s with parts missing", pk_name(&PK[i])) { use(&PK[i]); incomplete(); }
        MC_CASE("%s parameters", pk_name(&PK[i])) { use(&PK[i]); params(); }
    }
    MC_CASE("comparison") compare();
    for (int i = 0; i < NPK; i++) {
        /* sequences starting with set i, over the sets of the same size */
        MC_CASE("order, with %s", pk_name(&PK[i])) {
            npool = 0; pool[npool++] = i;
            for (int j = 0; j < NPK; j++) if (j != i && !BN_cmp(PK[j].c->q, PK[i].c->q) && npool < 4 - !mc_thorough * (PK[i].dgst == NID_id_GostR3411_94)) pool[npool++] = j;
            for (int j = 0; j < NPK; j++) if (npool < 4 - !mc_thorough * (PK[i].dgst == NID_id_GostR3411_94) && j != i && PK[j].c->size == PK[i].c->size && BN_cmp(PK[j].c->q, PK[i].c->q)) pool[npool++] = j;
            mc_explore(hist, NULL);
            mc_outcome("names kept");
        }
    }
    return mc_finish();
}
