/* Operations of every kind, each from bytes to bytes, for the checks that inject failures into them. */
#ifndef OPS_H
#define OPS_H
#define OPENSSL_SUPPRESS_DEPRECATED
#include "pk.h"
#include "aead.h"
#include "alloc.h"
#include <openssl/pem.h>
int gost_kdftree2012_256(unsigned char *, size_t, const unsigned char *, size_t, const unsigned char *, size_t, const unsigned char *, size_t, const size_t);
int gost_tlstree(int, const unsigned char *, unsigned char *, const unsigned char *);
int gost_kexp15(const unsigned char *, const int, int, const unsigned char *, const int, unsigned char *, const unsigned char *, const size_t, unsigned char *, int *);
int gost_kimp15(const unsigned char *, const size_t, int, const unsigned char *, const int, unsigned char *, const unsigned char *, const size_t, unsigned char *);
/* an operation: bytes in, bytes out */
typedef struct op op;
struct op { const char *name; int (*f)(const op *, u8 *out, size_t *n); int (*check)(const op *, const u8 *out, size_t n); int a; const char *s; };
static struct in { u8 p8[400], spki[400], p8b[400], spkib[400], par[40], kt[600], wrapped[600]; size_t np8, nspki, np8b, nspkib, npar, nkt, nwrapped; BIGNUM *d, *d2; EC_POINT *Q, *Q2; } IN[32];
static u8 KEY[64], IV[16], MSG[4096], UKM[32];
static void prep(int i)
{
    struct in *x = &IN[i]; pkset *s = &PK[i]; u8 b[64], p[300];
    if (x->d) return;
    x->d = BN_new(); x->d2 = BN_new();
    fill(b, 64, 50); BN_bin2bn(b, s->c->size, x->d); BN_mod(x->d, x->d, s->c->q, ecbn);
    fill(b, 64, 51); BN_bin2bn(b, s->c->size, x->d2); BN_mod(x->d2, x->d2, s->c->q, ecbn);
    x->Q = ec_mul(s->c, x->d, NULL); x->Q2 = ec_mul(s->c, x->d2, NULL);
    x->np8 = ref_p8(s, pk_digest_oid(s), p, ref_priv(s, x->d, PF_RAW, p), x->p8);
    x->np8b = ref_p8(s, pk_digest_oid(s), p, ref_priv(s, x->d2, PF_MASK2, p), x->p8b);
    x->nspki = ref_spki(s, x->Q, pk_digest_oid(s), x->spki);
    x->nspkib = ref_spki(s, x->Q2, pk_digest_oid(s), x->spkib);
    u8 o[60]; size_t n = der_oid(o, s->c->nid); x->npar = n; memcpy(x->par, o, n);
}
static EVP_PKEY *priv(int i) { const u8 *p = IN[i].p8; PKCS8_PRIV_KEY_INFO *x = d2i_PKCS8_PRIV_KEY_INFO(NULL, &p, IN[i].np8); EVP_PKEY *k = x ? EVP_PKCS82PKEY(x) : NULL; PKCS8_PRIV_KEY_INFO_free(x); return k; }
static EVP_PKEY *privb(int i) { const u8 *p = IN[i].p8b; PKCS8_PRIV_KEY_INFO *x = d2i_PKCS8_PRIV_KEY_INFO(NULL, &p, IN[i].np8b); EVP_PKEY *k = x ? EVP_PKCS82PKEY(x) : NULL; PKCS8_PRIV_KEY_INFO_free(x); return k; }
static EVP_PKEY *pub(int i) { const u8 *p = IN[i].spki; return d2i_PUBKEY(NULL, &p, IN[i].nspki); }
static EVP_PKEY *pubb(int i) { const u8 *p = IN[i].spkib; return d2i_PUBKEY(NULL, &p, IN[i].nspkib); }
static int dump_key(EVP_PKEY *k, u8 *out, size_t *n, int i)
{
    EC_KEY *e = EVP_PKEY_get0(k);
    const EC_GROUP *g = e ? EC_KEY_get0_group(e) : NULL;
    if (!g) return 0;
    const BIGNUM *d = EC_KEY_get0_private_key(e); const EC_POINT *Q = EC_KEY_get0_public_key(e);
    int t[2] = { EVP_PKEY_base_id(k), EC_GROUP_get_curve_name(g) };
    memcpy(out, t, 8); *n = 8;
    memset(out + 8, 0, 64); if (d) BN_bn2binpad(d, out + 8, 64);
    *n += 64; (void)i;
    if (Q) { struct rng_state sv = rng; long ar = al.armed; al.armed = 0; *n += EC_POINT_point2oct(g, Q, POINT_CONVERSION_UNCOMPRESSED, out + *n, 200, NULL); al.armed = ar; rng = sv; }
    return 1;
}
static int f_priv(const op *o, u8 *out, size_t *n) { EVP_PKEY *k = privb(o->a); int r = k && dump_key(k, out, n, o->a); EVP_PKEY_free(k); return r; }
static int f_pub(const op *o, u8 *out, size_t *n) { EVP_PKEY *k = pub(o->a); int r = k && dump_key(k, out, n, o->a); EVP_PKEY_free(k); return r; }
static int f_par(const op *o, u8 *out, size_t *n)
{
    const u8 *p = IN[o->a].par; EVP_PKEY *k = d2i_KeyParams(PK[o->a].type, NULL, &p, IN[o->a].npar); int r = k && dump_key(k, out, n, o->a);
    if (r) { u8 *b = NULL; int l = i2d_KeyParams(k, &b); if (l <= 0) r = 0; else { memcpy(out + *n, b, l); *n += l; OPENSSL_free(b); } }
    EVP_PKEY_free(k); return r;
}
static int f_enc(const op *o, u8 *out, size_t *n)
{
    EVP_PKEY *k = priv(o->a); int r = 0;
    if (!k) return 0;
    PKCS8_PRIV_KEY_INFO *p = EVP_PKEY2PKCS8(k); u8 *b = NULL; int l;
    if (p && (l = i2d_PKCS8_PRIV_KEY_INFO(p, &b)) > 0) { memcpy(out, b, *n = l); OPENSSL_clear_free(b, l); r = 1; b = NULL; if ((l = i2d_PUBKEY(k, &b)) > 0) { memcpy(out + *n, b, l); *n += l; OPENSSL_free(b); } else r = 0; }
    PKCS8_PRIV_KEY_INFO_free(p); EVP_PKEY_free(k);
    return r;
}
static int f_encwrap(const op *o, u8 *out, size_t *n)
{
    int ar = al.armed; al.armed = 0; ENGINE_ctrl_cmd_string(E, "GOST_PK_FORMAT", "LEGACY_PK_WRAP", 0); al.armed = ar;
    int r = f_enc(o, out, n);
    ar = al.armed; al.armed = 0; ENGINE_ctrl_cmd_string(E, "GOST_PK_FORMAT", "", 0); al.armed = ar;
    return r;
}
static int f_print(const op *o, u8 *out, size_t *n)
{
    EVP_PKEY *k = priv(o->a); int r = 0;
    BIO *b = k ? BIO_new(BIO_s_mem()) : NULL;
    if (b && EVP_PKEY_print_private(b, k, 0, NULL) == 1 && EVP_PKEY_print_params(b, k, 0, NULL) == 1 && EVP_PKEY_print_public(b, k, 0, NULL) == 1) { char *p; long l = BIO_get_mem_data(b, &p); memcpy(out, p, *n = l); r = 1; }
    BIO_free(b); EVP_PKEY_free(k); return r;
}
static int f_cmp(const op *o, u8 *out, size_t *n)
{
    EVP_PKEY *k = pub(o->a), *k2 = priv(o->a), *k3 = pubb(o->a); int r = 0;
    if (k && k2 && k3) {
        int a = EVP_PKEY_eq(k, k2), b = EVP_PKEY_eq(k, k3), c = EVP_PKEY_parameters_eq(k2, k3);
        if (a < 0 || b < 0 || c < 0) r = 0; else { out[0] = a; out[1] = b; out[2] = c; *n = 3; r = 1; }
        if (al.failed && a == 0 && r && b != 1) r = 0;   /* "different" is how an error shows */
        if (al.failed && c == 0 && r && b != 1) r = 0;
    }
    EVP_PKEY_free(k); EVP_PKEY_free(k2); EVP_PKEY_free(k3); return r;
}
static int f_keygen(const op *o, u8 *out, size_t *n)
{
    pkset *s = &PK[o->a]; EVP_PKEY *p = NULL, *k = NULL; int r = 0;
    p = pub(o->a); (void)s;
    EVP_PKEY_CTX *c = p ? EVP_PKEY_CTX_new(p, E) : NULL;
    if (c && EVP_PKEY_keygen_init(c) == 1 && EVP_PKEY_keygen(c, &k) == 1) r = dump_key(k, out, n, o->a);
    EVP_PKEY_CTX_free(c); EVP_PKEY_free(k); EVP_PKEY_free(p); return r;
}
static int c_key(const op *o, const u8 *out, size_t n)
{
    ecurve *c = PK[o->a].c; int t[2]; memcpy(t, out, 8);
    if (t[0] != PK[o->a].type || t[1] != c->nid || n < 8 + 64 + 1 + 2u * c->size) return 0;
    BIGNUM *d = BN_bin2bn(out + 8, 64, NULL); EC_POINT *Q = EC_POINT_new(c->g), *R; int ok = 0;
    if (!BN_is_zero(d) && BN_cmp(d, c->q) < 0 && EC_POINT_oct2point(c->g, Q, out + 72, n - 72, NULL)) { R = ec_mul(c, d, NULL); ok = ec_eq(c, R, c->g, Q); EC_POINT_free(R); }
    EC_POINT_free(Q); BN_free(d); return ok;
}
static int f_paramgen(const op *o, u8 *out, size_t *n)
{
    pkset *s = &PK[o->a]; EVP_PKEY *p = NULL, *k = NULL; int r = 0;
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(s->type, E), *c2 = NULL;
    if (c && EVP_PKEY_paramgen_init(c) == 1 && EVP_PKEY_CTX_ctrl_str(c, "paramset", s->c->size == 64 ? "A" : "TCB") == 1 && EVP_PKEY_paramgen(c, &p) == 1 && (c2 = EVP_PKEY_CTX_new(p, E)) && EVP_PKEY_keygen_init(c2) == 1 && EVP_PKEY_keygen(c2, &k) == 1) r = dump_key(k, out, n, o->a);
    EVP_PKEY_CTX_free(c); EVP_PKEY_CTX_free(c2); EVP_PKEY_free(k); EVP_PKEY_free(p); return r;
}
static int f_sign(const op *o, u8 *out, size_t *n)
{
    EVP_PKEY *k = priv(o->a); EVP_PKEY_CTX *c = k ? EVP_PKEY_CTX_new(k, E) : NULL; int r = 0; size_t l = 128;
    if (c && EVP_PKEY_sign_init(c) == 1 && EVP_PKEY_sign(c, out, &l, MSG, PK[o->a].c->size) == 1) { *n = l; r = 1; }
    EVP_PKEY_CTX_free(c); EVP_PKEY_free(k); return r;
}
static int c_sign(const op *o, const u8 *out, size_t n)
{
    pkset *s = &PK[o->a]; BIGNUM *r = BN_new(), *t = BN_new();
    if (n != 2u * s->c->size) return 0;
    sig_unpack(s, out, r, t);
    int ok = ref_verify(s, IN[o->a].Q, MSG, s->c->size, r, t);
    BN_free(r); BN_free(t); return ok;
}
static int f_verify(const op *o, u8 *out, size_t *n)
{
    /* a reference signature: s = r d + k e with k = 5 */
    pkset *s = &PK[o->a]; u8 sig[128]; int ar = al.armed; al.armed = 0;
    struct rng_state sv = rng;
    BIGNUM *k = BN_new(), *r = BN_new(), *t = BN_new(), *e = BN_lebin2bn(MSG, s->c->size, NULL);
    BN_set_word(k, 5); EC_POINT *C = ec_mul(s->c, k, NULL);
    EC_POINT_get_affine_coordinates(s->c->g, C, r, NULL, ecbn); BN_mod(r, r, s->c->q, ecbn); BN_mod(e, e, s->c->q, ecbn);
    BN_mod_mul(t, r, IN[o->a].d, s->c->q, ecbn); BN_mod_mul(e, e, k, s->c->q, ecbn); BN_mod_add(t, t, e, s->c->q, ecbn);
    sig_pack(s, r, t, sig);
    BN_free(k); BN_free(r); BN_free(t); BN_free(e); EC_POINT_free(C); rng = sv; al.armed = ar;
    EVP_PKEY *p = pub(o->a); EVP_PKEY_CTX *c = p ? EVP_PKEY_CTX_new(p, E) : NULL; int ret = 0;
    if (c && EVP_PKEY_verify_init(c) == 1) {
        int v = EVP_PKEY_verify(c, sig, 2 * s->c->size, MSG, s->c->size); sig[3] ^= 1;
        int w = EVP_PKEY_verify(c, sig, 2 * s->c->size, MSG, s->c->size);
        if (v == 1 || w == 1) { out[0] = v == 1; out[1] = w == 1; *n = 2; ret = 1; }
        if (al.failed && v != 1 && w != 1) ret = 0;     /* refusing is how an error shows */
    }
    EVP_PKEY_CTX_free(c); EVP_PKEY_free(p); return ret;
}
static int f_derive(const op *o, u8 *out, size_t *n)
{
    EVP_PKEY *k = priv(o->a), *q = pubb(o->a); EVP_PKEY_CTX *c = k && q ? EVP_PKEY_CTX_new(k, E) : NULL; int r = 0; size_t l = 64;
    int ukm = o->s[0] == 'k' ? 32 : 8;
    if (c && EVP_PKEY_derive_init(c) == 1 && EVP_PKEY_derive_set_peer(c, q) == 1 && EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_IV, ukm, UKM) > 0
        && (o->s[0] != 'v' || EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_VKO, o->s[1] == '2' ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_2012_512, NULL) > 0)
        && EVP_PKEY_derive(c, out, &l) == 1) { *n = l; r = 1; }
    EVP_PKEY_CTX_free(c); EVP_PKEY_free(k); EVP_PKEY_free(q); return r;
}
/* key transport: s = "" classic, otherwise the 2018 cipher */
static int set_kt(const op *o, EVP_PKEY_CTX *c)
{
    if (!o->s[0]) return EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_IV, 8, UKM) > 0;
    return EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_ENCRYPT | EVP_PKEY_OP_DECRYPT, EVP_PKEY_CTRL_SET_IV, 32, UKM) > 0 && EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_ENCRYPT | EVP_PKEY_OP_DECRYPT, EVP_PKEY_CTRL_CIPHER, OBJ_sn2nid(o->s), NULL) > 0;
}
static int f_encrypt(const op *o, u8 *out, size_t *n)
{
    EVP_PKEY *k = pub(o->a); EVP_PKEY_CTX *c = k ? EVP_PKEY_CTX_new(k, E) : NULL; int r = 0; size_t l = 600;
    if (c && EVP_PKEY_encrypt_init(c) == 1 && set_kt(o, c) && EVP_PKEY_encrypt(c, out, &l, MSG, 32) == 1) { *n = l; r = 1; }
    EVP_PKEY_CTX_free(c); EVP_PKEY_free(k); return r;
}
static int dec(const op *o, const u8 *b, size_t bn, u8 *out, size_t *n)
{
    EVP_PKEY *k = priv(o->a); EVP_PKEY_CTX *c = k ? EVP_PKEY_CTX_new(k, E) : NULL; int r = 0; size_t l = 32;
    if (c && EVP_PKEY_decrypt_init(c) == 1 && (!o->s[0] || set_kt(o, c)) && EVP_PKEY_decrypt(c, out, &l, b, bn) == 1) { *n = l; r = 1; }
    EVP_PKEY_CTX_free(c); EVP_PKEY_free(k); return r;
}
static int c_encrypt(const op *o, const u8 *out, size_t n) { u8 b[64]; size_t l = 0; return dec(o, out, n, b, &l) && l == 32 && !memcmp(b, MSG, 32); }
static int f_decrypt(const op *o, u8 *out, size_t *n)
{
    static u8 blob[600]; static size_t bl; static const op *bo;
    if (bo != o) { int ar = al.armed; struct rng_state sv = rng; al.armed = 0; bl = 0; if (!f_encrypt(o, blob, &bl)) mc_internal("no blob for %s", o->name); bo = o; al.armed = ar; rng = sv; }
    return dec(o, blob, bl, out, n);
}
static int f_digest(const op *o, u8 *out, size_t *n)
{
    const EVP_MD *md = ENGINE_get_digest(E, OBJ_sn2nid(o->s));
    EVP_MD_CTX *c = md ? EVP_MD_CTX_new() : NULL, *c2 = c ? EVP_MD_CTX_new() : NULL; unsigned l = 0, l2 = 0; int r = 0;
    if (c2 && EVP_DigestInit_ex(c, md, E) == 1 && EVP_DigestUpdate(c, MSG, 100) == 1 && EVP_MD_CTX_copy_ex(c2, c) == 1 && EVP_DigestUpdate(c, MSG, 33) == 1 && EVP_DigestFinal_ex(c, out, &l) == 1 && EVP_DigestFinal_ex(c2, out + l, &l2) == 1) { *n = l + l2; r = 1; }
    EVP_MD_CTX_free(c); EVP_MD_CTX_free(c2); return r;
}
static int f_mac(const op *o, u8 *out, size_t *n)
{
    const EVP_MD *md = ENGINE_get_digest(E, OBJ_sn2nid(o->s)); int r = 0; size_t l = 64, l2 = 64;
    EVP_PKEY *k = md ? EVP_PKEY_new_mac_key(EVP_MD_type(md), E, KEY, 32) : NULL;
    EVP_MD_CTX *c = k ? EVP_MD_CTX_new() : NULL, *c2 = c ? EVP_MD_CTX_new() : NULL;
    if (c2 && EVP_DigestSignInit(c, NULL, md, E, k) == 1 && EVP_DigestSignUpdate(c, MSG, 100) == 1 && EVP_MD_CTX_copy_ex(c2, c) == 1 && EVP_DigestSignUpdate(c, MSG, 33) == 1 && EVP_DigestSignFinal(c, out, &l) == 1 && EVP_DigestSignFinal(c2, out + l, &l2) == 1) { *n = l + l2; r = 1; }
    EVP_MD_CTX_free(c); EVP_MD_CTX_free(c2); EVP_PKEY_free(k); return r;
}
static int f_macraw(const op *o, u8 *out, size_t *n)
{
    const EVP_MD *md = ENGINE_get_digest(E, OBJ_sn2nid(o->s)); int r = 0; unsigned l = 0, l2 = 0; u8 q[8] = { 0, 0, 0, 1 };
    EVP_MD_CTX *c = md ? EVP_MD_CTX_new() : NULL, *c2 = c ? EVP_MD_CTX_new() : NULL;
    int tree = !strcmp(o->s, "magma-mac") || !strcmp(o->s, "kuznyechik-mac");
    if (c2 && EVP_DigestInit_ex(c, md, E) == 1 && EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_SET_KEY, 32, KEY) > 0 && (!tree || EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_TLSTREE, 0, q) > 0)
        && EVP_DigestUpdate(c, MSG, 100) == 1 && EVP_MD_CTX_copy_ex(c2, c) == 1 && EVP_DigestUpdate(c, MSG, 33) == 1 && EVP_DigestFinal_ex(c, out, &l) == 1 && EVP_DigestFinal_ex(c2, out + l, &l2) == 1) { *n = l + l2; r = 1; }
    EVP_MD_CTX_free(c); EVP_MD_CTX_free(c2); return r;
}
static int f_mackeygen(const op *o, u8 *out, size_t *n)
{
    int r = 0; EVP_PKEY *k = NULL; EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(OBJ_sn2nid(o->s), E); size_t l = 64;
    EVP_MD_CTX *m = NULL;
    if (c && EVP_PKEY_keygen_init(c) == 1 && EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, EVP_PKEY_CTRL_SET_MAC_KEY, 32, KEY) > 0 && EVP_PKEY_keygen(c, &k) == 1
        && (m = EVP_MD_CTX_new()) && EVP_DigestSignInit(m, NULL, ENGINE_get_digest(E, OBJ_sn2nid(o->s)), E, k) == 1 && EVP_DigestSign(m, out, &l, MSG, 50) == 1) { *n = l; r = 1; }
    EVP_PKEY_CTX_free(c); EVP_MD_CTX_free(m); EVP_PKEY_free(k); return r;
}
static int f_cipher(const op *o, u8 *out, size_t *n)
{
    const EVP_CIPHER *ci = ENGINE_get_cipher(E, OBJ_sn2nid(o->s)); int r = 0, l = 0, l2 = 0, l3 = 0, l4 = 0;
    EVP_CIPHER_CTX *c = ci ? EVP_CIPHER_CTX_new() : NULL, *c2 = c ? EVP_CIPHER_CTX_new() : NULL;
    if (c2 && EVP_CipherInit_ex(c, ci, E, KEY, IV, 1) == 1 && EVP_CipherUpdate(c, out, &l, MSG, 100) == 1 && EVP_CIPHER_CTX_copy(c2, c) == 1 && EVP_CipherUpdate(c, out + l, &l2, MSG, 1100) == 1 && EVP_CipherFinal_ex(c, out + l + l2, &l3) == 1 && EVP_CipherFinal_ex(c2, out + l + l2 + l3, &l4) == 1) {
        *n = l + l2 + l3 + l4; r = 1;
        if (strstr(o->s, "omac") || strstr(o->s, "mgm")) {
            int tl = strstr(o->s, "magma") ? 8 : 16;
            if (strstr(o->s, "omac")) r = omac_get_tag(c, out + *n, tl); else r = EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, tl, out + *n) > 0;
            *n += tl;
        }
    }
    EVP_CIPHER_CTX_free(c); EVP_CIPHER_CTX_free(c2); return r;
}
/* as CMS does: write parameters, read them elsewhere, decrypt and check the tag */
static int f_cms(const op *o, u8 *out, size_t *n)
{
    const EVP_CIPHER *ci = ENGINE_get_cipher(E, OBJ_sn2nid(o->s)); int r = 0, l = 0, l2 = 0, l3 = 0, l4 = 0;
    EVP_CIPHER_CTX *c = ci ? EVP_CIPHER_CTX_new() : NULL, *d = c ? EVP_CIPHER_CTX_new() : NULL; ASN1_TYPE *t = d ? ASN1_TYPE_new() : NULL;
    int om = !!strstr(o->s, "omac"); u8 tag[16];
    if (t && EVP_CipherInit_ex(c, ci, E, NULL, NULL, 1) == 1 && EVP_CipherInit_ex(c, NULL, NULL, KEY, IV, 1) == 1 && EVP_CIPHER_param_to_asn1(c, t) > 0
        && EVP_CipherUpdate(c, out, &l, MSG, 104) == 1 && EVP_CipherFinal_ex(c, out + l, &l2) == 1 && (!om || omac_get_tag(c, tag, strstr(o->s, "magma") ? 8 : 16))
        && EVP_CipherInit_ex(d, ci, E, NULL, NULL, 0) == 1 && EVP_CIPHER_asn1_to_param(d, t) > 0 && EVP_CipherInit_ex(d, NULL, NULL, KEY, NULL, 0) == 1
        && (!om || omac_set_tag(d, tag, strstr(o->s, "magma") ? 8 : 16)) && EVP_CipherUpdate(d, out, &l3, out, l + l2) == 1 && EVP_CipherFinal_ex(d, out + l3, &l4) == 1) { *n = l3 + l4; r = *n == 104; }
    ASN1_TYPE_free(t); EVP_CIPHER_CTX_free(c); EVP_CIPHER_CTX_free(d); return r;
}
static int f_tls(const op *o, u8 *out, size_t *n)
{
    const EVP_CIPHER *ci = ENGINE_get_cipher(E, OBJ_sn2nid(o->s)); int r = 0, l = 0; u8 q[8] = { 0, 0, 0, 9, 0, 0, 1, 0 };
    EVP_CIPHER_CTX *c = ci ? EVP_CIPHER_CTX_new() : NULL;
    if (c && EVP_CipherInit_ex(c, ci, E, KEY, IV, 1) == 1 && EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_TLSTREE, 0, q) > 0 && EVP_CipherUpdate(c, out, &l, MSG, 100) == 1) { *n = l; r = 1; }
    EVP_CIPHER_CTX_free(c); return r;
}
static int f_wrap(const op *o, u8 *out, size_t *n)
{
    int mg = o->s[0] == 'm', l = 0, l2 = 0, r = 0; u8 w[80], iv[8]; int wl = sizeof w;
    memcpy(iv, IV, 8);
    int enc = gost_kexp15(MSG, 32, mg ? NID_magma_ctr : NID_grasshopper_ctr, KEY + 32, mg ? NID_magma_mac : NID_grasshopper_mac, KEY, iv, mg ? 4 : 8, w, &wl);
    if (enc <= 0) return 0;
    memcpy(out, w, wl); *n = wl;
    const EVP_CIPHER *ci = ENGINE_get_cipher(E, OBJ_sn2nid(mg ? "magma-kexp15" : "kuznyechik-kexp15"));
    EVP_CIPHER_CTX *c = ci ? EVP_CIPHER_CTX_new() : NULL;
    if (c) EVP_CIPHER_CTX_set_flags(c, EVP_CIPHER_CTX_FLAG_WRAP_ALLOW);
    if (c && EVP_CipherInit_ex(c, ci, E, KEY, IV, 0) == 1 && EVP_CipherUpdate(c, out + *n, &l, w, wl) == 1 && EVP_CipherFinal_ex(c, out + *n + l, &l2) == 1) { *n += l + l2; r = 1; }
    EVP_CIPHER_CTX_free(c); return r;
}
static int f_kdf(const op *o, u8 *out, size_t *n) { (void)o; int r = gost_kdftree2012_256(out, 64, KEY, 32, MSG, 8, MSG, 8, 1) > 0 && gost_tlstree(NID_grasshopper_cbc, KEY, out + 64, MSG) > 0; *n = 96; return r; }
static int f_ctrl(const op *o, u8 *out, size_t *n)
{
    (void)o; int r = 0;
    const EVP_CIPHER *ci = ENGINE_get_cipher(E, OBJ_sn2nid("gost89")); EVP_CIPHER_CTX *c = NULL; int l = 0;
    int set = ENGINE_ctrl_cmd_string(E, "CRYPT_PARAMS", "id-Gost28147-89-CryptoPro-B-ParamSet", 0);
    if (set > 0) {
        c = ci ? EVP_CIPHER_CTX_new() : NULL;
        if (c && EVP_CipherInit_ex(c, ci, E, KEY, IV, 1) == 1 && EVP_CipherUpdate(c, out, &l, MSG, 40) == 1) { *n = l; r = 1; }
        EVP_CIPHER_CTX_free(c);
    }
    int ar = al.armed; al.armed = 0; ENGINE_ctrl_cmd_string(E, "CRYPT_PARAMS", "id-tc26-gost-28147-param-Z", 0); al.armed = ar;
    return r;
}
static int f_digsign(const op *o, u8 *out, size_t *n)
{
    EVP_PKEY *k = priv(o->a); EVP_MD_CTX *c = k ? EVP_MD_CTX_new() : NULL; int r = 0; size_t l = 128;
    const EVP_MD *md = EVP_get_digestbynid(PK[o->a].dgst);
    if (c && md && EVP_DigestSignInit(c, NULL, md, E, k) == 1 && EVP_DigestSign(c, out, &l, MSG, 300) == 1) { *n = l; r = 1; }
    EVP_MD_CTX_free(c); EVP_PKEY_free(k); return r;
}
static int c_digsign(const op *o, const u8 *out, size_t n)
{
    pkset *s = &PK[o->a]; BIGNUM *r = BN_new(), *t = BN_new(); u8 h[64];
    if (n != 2u * s->c->size) return 0;
    if (s->dgst == NID_id_GostR3411_94) ref_h94cp(MSG, 300, h); else if (s->c->size == 64) ref_h12_512(MSG, 300, h); else ref_h12_256(MSG, 300, h);
    sig_unpack(s, out, r, t);
    int ok = ref_verify(s, IN[o->a].Q, h, s->c->size, r, t);
    BN_free(r); BN_free(t); return ok;
}
static int f_asn1sign(const op *o, u8 *out, size_t *n)
{
    EVP_PKEY *k = priv(o->a); X509_REQ *q = k ? X509_REQ_new() : NULL; int r = 0; u8 *b = NULL; int l;
    const EVP_MD *md = EVP_get_digestbynid(PK[o->a].dgst);
    if (q && md && X509_REQ_set_pubkey(q, k) == 1 && X509_REQ_sign(q, k, md) > 0 && (l = i2d_X509_REQ(q, &b)) > 0) { memcpy(out, b, *n = l); OPENSSL_free(b); r = 1; }
    X509_REQ_free(q); EVP_PKEY_free(k); return r;
}
static int c_asn1sign(const op *o, const u8 *out, size_t n) { (void)o; const u8 *p = out; X509_REQ *q = d2i_X509_REQ(NULL, &p, n); EVP_PKEY *k = q ? X509_REQ_get_pubkey(q) : NULL; int r = k && X509_REQ_verify(q, k) == 1; EVP_PKEY_free(k); X509_REQ_free(q); return r; }
#define PKOPS(i, t) { "decode private " t, f_priv, NULL, i }, { "decode public " t, f_pub, NULL, i }, { "encode " t, f_enc, NULL, i }, { "encode wrapped " t, f_encwrap, NULL, i }, { "print " t, f_print, NULL, i }, { "compare " t, f_cmp, NULL, i }, { "keygen " t, f_keygen, c_key, i }, { "sign " t, f_sign, c_sign, i }, { "verify " t, f_verify, NULL, i }, { "digest-sign " t, f_digsign, c_digsign, i }, { "request " t, f_asn1sign, c_asn1sign, i }
static op OPS[] = {
    { "parameters 2001", f_par, NULL, 0 }, PKOPS(0, "2001"), PKOPS(1, "2012_256"), PKOPS(2, "2012_512"),
    { "paramgen", f_paramgen, NULL, 3 }, { "paramgen 512", f_paramgen, NULL, 2 },
    { "derive 2001", f_derive, NULL, 0, "v9" }, { "derive 2012_256", f_derive, NULL, 1, "v2" }, { "derive 2012_256 512", f_derive, NULL, 1, "v5" }, { "keg 256", f_derive, NULL, 1, "k" }, { "keg 512", f_derive, NULL, 2, "k" },
    { "transport encrypt 2001", f_encrypt, c_encrypt, 0, "" }, { "transport decrypt 2001", f_decrypt, NULL, 0, "" }, { "transport encrypt 2012_512", f_encrypt, c_encrypt, 2, "" }, { "transport decrypt 2012_512", f_decrypt, NULL, 2, "" },
    { "transport encrypt magma", f_encrypt, c_encrypt, 1, "magma-ctr" }, { "transport decrypt magma", f_decrypt, NULL, 1, "magma-ctr" }, { "transport encrypt kuznyechik", f_encrypt, c_encrypt, 2, "kuznyechik-ctr" }, { "transport decrypt kuznyechik", f_decrypt, NULL, 2, "kuznyechik-ctr" },
#define DG(s) { "digest " s, f_digest, NULL, 0, s }
    DG("md_gost94"), DG("md_gost12_256"), DG("md_gost12_512"),
#define MC_(s) { "mac " s, f_mac, NULL, 0, s }, { "raw mac " s, f_macraw, NULL, 0, s }, { "mac keygen " s, f_mackeygen, NULL, 0, s }
    MC_("gost-mac"), MC_("gost-mac-12"), MC_("magma-mac"), MC_("kuznyechik-mac"), MC_("kuznyechik-ctr-acpkm-omac"),
#define CI(s) { "cipher " s, f_cipher, NULL, 0, s }
    CI("gost89"), CI("gost89-cnt"), CI("gost89-cnt-12"), CI("gost89-cbc"), CI("magma-ecb"), CI("magma-cbc"), CI("magma-ctr"), CI("magma-ctr-acpkm"), CI("magma-ctr-acpkm-omac"), CI("magma-mgm"),
    CI("kuznyechik-ecb"), CI("kuznyechik-cbc"), CI("kuznyechik-cfb"), CI("kuznyechik-ofb"), CI("kuznyechik-ctr"), CI("kuznyechik-ctr-acpkm"), CI("kuznyechik-ctr-acpkm-omac"), CI("kuznyechik-mgm"),
#define CM(s) { "parameters of " s, f_cms, NULL, 0, s }
    CM("gost89"), CM("gost89-cnt"), CM("magma-ctr-acpkm"), CM("magma-ctr-acpkm-omac"), CM("kuznyechik-ctr-acpkm"), CM("kuznyechik-ctr-acpkm-omac"), CM("magma-cbc"),
#define TL(s) { "record of " s, f_tls, NULL, 0, s }
    TL("magma-ctr"), TL("kuznyechik-ctr-acpkm"),
    { "wrap magma", f_wrap, NULL, 0, "m" }, { "wrap kuznyechik", f_wrap, NULL, 0, "k" }, { "key tree", f_kdf, NULL }, { "engine parameter", f_ctrl, NULL },
};
enum { NOPS = sizeof OPS / sizeof *OPS };
static void ops_init(void)
{
    fill(KEY, 64, 60); fill(IV, 16, 61); fill(MSG, sizeof MSG, 62); fill(UKM, 32, 63);
    int i256 = -1, i512 = -1, itc = -1;
    for (int i = 0; i < NPK; i++) {
        if (i256 < 0 && PK[i].type == NID_id_GostR3410_2012_256) i256 = i;
        if (itc < 0 && PK[i].c->nid == NID_id_tc26_gost_3410_2012_256_paramSetB) itc = i;
        if (i512 < 0 && PK[i].c->nid == NID_id_tc26_gost_3410_2012_512_paramSetA) i512 = i;
    }
    int map[4] = { 0, i256, i512, itc };
    for (int i = 0; i < NOPS; i++) OPS[i].a = map[OPS[i].a];
}
#endif
