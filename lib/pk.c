#define OPENSSL_SUPPRESS_DEPRECATED
#include "pk.h"
pkset PK[32]; int NPK;
void pk_init(void)
{
    ec_init();
    for (int t = 0; t < 3; t++) for (int i = 0; i < NEC; i++) {
        int is512 = EC[i].size == 64, tc = strstr(EC[i].name, "2012") != NULL;
        if (t == 0 && (is512 || tc)) continue;
        if (t == 1 && is512) continue;
        if (t == 2 && !is512) continue;
        PK[NPK].c = &EC[i];
        PK[NPK].type = t == 0 ? NID_id_GostR3410_2001 : t == 1 ? NID_id_GostR3410_2012_256 : NID_id_GostR3410_2012_512;
        PK[NPK].dgst = t == 0 ? NID_id_GostR3411_94 : t == 1 ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_2012_512;
        PK[NPK].tname = t == 0 ? "gost2001" : t == 1 ? "gost2012_256" : "gost2012_512";
        NPK++;
    }
    if (NPK < 18) mc_internal("%d key sets", NPK);
}
const char *pk_name(const pkset *s) { return mc_fmt("%s/%s", s->tname, s->c->name); }
EVP_PKEY *pk_wrap(const pkset *s, const BIGNUM *d, const EC_POINT *Q)
{
    EC_KEY *k = ec_key(s->c->nid);
    if (d && !EC_KEY_set_private_key(k, d)) mc_internal("EC_KEY_set_private_key");
    if (Q) {
        EC_POINT *P = ec_conv(s->c, Q, EC_KEY_get0_group(k));
        if (!EC_KEY_set_public_key(k, P)) mc_internal("EC_KEY_set_public_key");
        EC_POINT_free(P);
    }
    EVP_PKEY *p = EVP_PKEY_new();
    if (!EVP_PKEY_assign(p, s->type, k)) mc_fail(mc_fmt("no-key-type:%s", s->tname), "no such key type");
    return p;
}
EVP_PKEY *pk_new(const pkset *s, const BIGNUM *d)
{
    EC_POINT *Q = ec_mul(s->c, d, NULL);
    EVP_PKEY *p = pk_wrap(s, d, Q);
    EC_POINT_free(Q);
    return p;
}
EVP_PKEY_CTX *pk_ctx(EVP_PKEY *k)
{
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k, E);
    if (!c) mc_fail("no-pkey-ctx", "no key context");
    return c;
}
static BIGNUM *dig(const pkset *s, const u8 *dgst, size_t dlen)
{
    BIGNUM *e = BN_lebin2bn(dgst, dlen, NULL);
    BN_mod(e, e, s->c->q, ecbn);
    if (BN_is_zero(e)) BN_one(e);
    return e;
}
int ref_verify(const pkset *s, const EC_POINT *Q, const u8 *dgst, size_t dlen, const BIGNUM *r, const BIGNUM *ss)
{
    const BIGNUM *q = s->c->q;
    if (BN_is_zero(r) || BN_is_zero(ss) || BN_is_negative(r) || BN_is_negative(ss) || BN_cmp(r, q) >= 0 || BN_cmp(ss, q) >= 0) return 0;
    BIGNUM *e = dig(s, dgst, dlen), *v = BN_mod_inverse(NULL, e, q, ecbn), *z1 = BN_new(), *z2 = BN_new(), *x = BN_new();
    BN_mod_mul(z1, ss, v, q, ecbn);
    BN_sub(z2, q, r);
    BN_mod_mul(z2, z2, v, q, ecbn);
    EC_POINT *C = EC_POINT_new(s->c->g);
    if (!EC_POINT_mul(s->c->g, C, z1, Q, z2, ecbn)) mc_internal("EC_POINT_mul");
    int ok = 0;
    if (!EC_POINT_is_at_infinity(s->c->g, C)) {
        EC_POINT_get_affine_coordinates(s->c->g, C, x, NULL, ecbn);
        BN_mod(x, x, q, ecbn);
        ok = !BN_cmp(x, r);
    }
    BN_free(e); BN_free(v); BN_free(z1); BN_free(z2); BN_free(x); EC_POINT_free(C);
    return ok;
}
int ref_nonce(const pkset *s, const BIGNUM *d, const u8 *dgst, size_t dlen, const BIGNUM *r, const BIGNUM *ss, BIGNUM *k)
{
    const BIGNUM *q = s->c->q;
    if (BN_is_zero(r) || BN_is_zero(ss) || BN_cmp(r, q) >= 0 || BN_cmp(ss, q) >= 0) return 0;
    BIGNUM *e = dig(s, dgst, dlen), *v = BN_mod_inverse(NULL, e, q, ecbn), *t = BN_new();
    BN_mod_mul(t, r, d, q, ecbn);
    BN_mod_sub(t, ss, t, q, ecbn);
    BN_mod_mul(k, t, v, q, ecbn);
    int ok = 0;
    if (!BN_is_zero(k)) {
        EC_POINT *P = ec_mul(s->c, k, NULL);
        EC_POINT_get_affine_coordinates(s->c->g, P, t, NULL, ecbn);
        BN_mod(t, t, q, ecbn);
        ok = !BN_cmp(t, r);
        EC_POINT_free(P);
    }
    BN_free(e); BN_free(v); BN_free(t);
    return ok;
}
void sig_pack(const pkset *s, const BIGNUM *r, const BIGNUM *ss, u8 *sig)
{
    BN_bn2binpad(ss, sig, s->c->size);
    BN_bn2binpad(r, sig + s->c->size, s->c->size);
}
void sig_unpack(const pkset *s, const u8 *sig, BIGNUM *r, BIGNUM *ss)
{
    BN_bin2bn(sig, s->c->size, ss);
    BN_bin2bn(sig + s->c->size, s->c->size, r);
}
size_t rng_bn(const pkset *s, const BIGNUM *v, u8 *buf)
{
    int n = BN_num_bits(s->c->q);
    if (!BN_is_bit_set(s->c->q, n - 2) && !BN_is_bit_set(s->c->q, n - 3)) n++;
    if (BN_bn2binpad(v, buf, (n + 7) / 8) < 0) mc_internal("rng_bn");
    return (n + 7) / 8;
}
const char *bnh(const BIGNUM *b) { static char buf[8][280]; static int i; char *h = b ? BN_bn2hex(b) : NULL; snprintf(buf[i &= 7], 280, "%s", h ? h : "-"); OPENSSL_free(h); return buf[i++]; }
BIGNUM *bn_hex(const char *h) { BIGNUM *b = NULL; if (!BN_hex2bn(&b, h)) mc_internal("bn_hex"); return b; }
void pt_le(const ecurve *c, const EC_POINT *Q, u8 *out)
{
    BIGNUM *x = BN_new(), *y = BN_new();
    if (!EC_POINT_get_affine_coordinates(c->g, Q, x, y, ecbn)) mc_internal("pt_le");
    BN_bn2lebinpad(x, out, c->size);
    BN_bn2lebinpad(y, out + c->size, c->size);
    BN_free(x); BN_free(y);
}
size_t der_put(u8 *out, int tag, const u8 *in, size_t n)
{
    u8 h[6]; size_t k = 0;
    h[k++] = tag;
    if (n < 128) h[k++] = n;
    else if (n < 256) { h[k++] = 0x81; h[k++] = n; }
    else { h[k++] = 0x82; h[k++] = n >> 8; h[k++] = n; }
    memmove(out + k, in, n);
    memcpy(out, h, k);
    return n + k;
}
size_t der_oid(u8 *out, int nid)
{
    const ASN1_OBJECT *o = OBJ_nid2obj(nid);
    u8 t[64];
    memcpy(t, OBJ_get0_data(o), OBJ_length(o));
    return der_put(out, 6, t, OBJ_length(o));
}
int der_get(der *d, int tag, der *in)
{
    if (d->e - d->p < 2 || d->p[0] != tag) return 0;
    size_t n = d->p[1], h = 2;
    if (n == 0x81 && d->e - d->p > 2) { n = d->p[2]; h = 3; if (n < 128) return 0; }
    else if (n == 0x82 && d->e - d->p > 3) { n = d->p[2] << 8 | d->p[3]; h = 4; if (n < 256) return 0; }
    else if (n >= 128) return 0;
    if ((size_t)(d->e - d->p) < h + n) return 0;
    in->p = d->p + h; in->e = in->p + n;
    d->p = in->e;
    return 1;
}
static int oid_nid(const der *d)
{
    ASN1_OBJECT *o = ASN1_OBJECT_create(0, (u8 *)d->p, d->e - d->p, NULL, NULL);
    int n = OBJ_obj2nid(o);
    ASN1_OBJECT_free(o);
    return n;
}
size_t ref_spki(const pkset *s, const EC_POINT *Q, int dg, u8 *out)
{
    u8 b[400], a[200], k[200]; size_t n = 0, an, kn;
    n = der_oid(b, s->c->nid);
    if (dg) n += der_oid(b + n, dg);
    n = der_put(b, 0x30, b, n);
    an = der_oid(a, s->type);
    memcpy(a + an, b, n);
    an = der_put(a, 0x30, a, an + n);
    pt_le(s->c, Q, k);
    kn = der_put(k, 4, k, 2 * s->c->size);
    memmove(k + 1, k, kn); k[0] = 0;
    kn = der_put(k, 3, k, kn + 1);
    memcpy(b, a, an); memcpy(b + an, k, kn);
    return der_put(out, 0x30, b, an + kn);
}
int ref_spki_parse(const ecurve *c, const u8 *b, size_t n, int *type, int *curve, EC_POINT **Q)
{
    der d = { b, b + n }, s, a, o, prm, k, oc;
    if (!der_get(&d, 0x30, &s) || d.p != d.e) return 0;
    if (!der_get(&s, 0x30, &a) || !der_get(&s, 3, &k) || s.p != s.e) return 0;
    if (!der_get(&a, 6, &o) || !der_get(&a, 0x30, &prm) || a.p != a.e) return 0;
    *type = oid_nid(&o);
    if (!der_get(&prm, 6, &o)) return 0;
    *curve = oid_nid(&o);
    if (k.e - k.p < 1 || *k.p++ != 0) return 0;
    if (!der_get(&k, 4, &oc) || k.p != k.e || oc.e - oc.p != 2 * c->size) return 0;
    BIGNUM *x = BN_lebin2bn(oc.p, c->size, NULL), *y = BN_lebin2bn(oc.p + c->size, c->size, NULL);
    *Q = EC_POINT_new(c->g);
    int ok = EC_POINT_set_affine_coordinates(c->g, *Q, x, y, ecbn);
    BN_free(x); BN_free(y);
    if (!ok) { EC_POINT_free(*Q); *Q = NULL; ERR_clear_error(); }
    return ok;
}
int kt_parse(const pkset *s, int is2018, const u8 *b, size_t n, ktrans *t)
{
    der d = { b, b + n }, q, i, o, sp;
    u8 spki[400]; size_t k;
    memset(t, 0, sizeof *t);
    t->gost2018 = is2018;
    if (!der_get(&d, 0x30, &q) || d.p != d.e) return 0;
    if (is2018) {
        if (!der_get(&q, 4, &o) || o.e - o.p > 160) return 0;
        memcpy(t->enc, o.p, t->enclen = o.e - o.p);
        const u8 *st = q.p;
        if (!der_get(&q, 0x30, &sp)) return 0;
        if (!ref_spki_parse(s->c, st, q.p - st, &t->spki_type, &t->spki_curve, &t->eph)) return 0;
        t->has_eph = 1;
        if (q.p == q.e) return 1;
        if (!der_get(&q, 4, &o) || o.e - o.p > 40 || q.p != q.e) return 0;
        memcpy(t->ukm, o.p, t->ukmlen = o.e - o.p);
        return 1;
    }
    if (!der_get(&q, 0x30, &i)) return 0;
    if (!der_get(&i, 4, &o) || o.e - o.p > 160) return 0;
    memcpy(t->enc, o.p, t->enclen = o.e - o.p);
    if (!der_get(&i, 4, &o) || o.e - o.p > 16 || i.p != i.e) return 0;
    memcpy(t->mac, o.p, t->maclen = o.e - o.p);
    if (!der_get(&q, 0xa0, &i) || q.p != q.e) return 0;
    if (!der_get(&i, 6, &o) || o.e - o.p > 16) return 0;
    memcpy(t->oid, o.p, t->oidlen = o.e - o.p);
    if (i.p < i.e && *i.p == 0xa0) {
        der_get(&i, 0xa0, &sp);
        k = der_put(spki, 0x30, sp.p, sp.e - sp.p);
        if (!ref_spki_parse(s->c, spki, k, &t->spki_type, &t->spki_curve, &t->eph)) return 0;
        t->has_eph = 1;
    }
    if (!der_get(&i, 4, &o) || o.e - o.p > 40 || i.p != i.e) return 0;
    memcpy(t->ukm, o.p, t->ukmlen = o.e - o.p);
    return 1;
}
size_t ref_kt(const pkset *s, const u8 enc[32], const u8 mac[4], int sbox_nid, const u8 *spki, size_t spkilen, const u8 *ukm, size_t ukmlen, u8 *out)
{
    u8 a[80], b[500]; size_t an, n = 0;
    an = der_put(a, 4, enc, 32);
    an += der_put(a + an, 4, mac, 4);
    an = der_put(a, 0x30, a, an);
    n = der_oid(b, sbox_nid);
    if (spki) { memcpy(b + n, spki, spkilen); b[n] = 0xa0; n += spkilen; }
    n += der_put(b + n, 4, ukm, ukmlen);
    n = der_put(b, 0xa0, b, n);
    memmove(b + an, b, n); memcpy(b, a, an);
    return der_put(out, 0x30, b, an + n);
}
size_t ref_pst(const u8 *psexp, size_t pn, const u8 *spki, size_t spkilen, const u8 *ukm, size_t ukmlen, u8 *out)
{
    u8 b[800]; size_t n;
    n = der_put(b, 4, psexp, pn);
    memcpy(b + n, spki, spkilen); n += spkilen;
    if (ukm) n += der_put(b + n, 4, ukm, ukmlen);
    return der_put(out, 0x30, b, n);
}
int ref_vko(const pkset *s, const EC_POINT *Q, const BIGNUM *d, const u8 *ukm, size_t n, int md, u8 *out)
{
    BIGNUM *k = BN_lebin2bn(ukm, n, NULL);
    BN_mod_mul(k, k, d, s->c->q, ecbn);
    BN_mul_word(k, s->c->h);
    BN_mod(k, k, s->c->q, ecbn);
    EC_POINT *P = ec_mul(s->c, k, Q);
    int ok = !EC_POINT_is_at_infinity(s->c->g, P);
    if (ok) {
        u8 b[128];
        pt_le(s->c, P, b);
        if (ref_secret) { u8 z[64]; BN_bn2lebinpad(k, z, s->c->size); ref_secret(z, s->c->size, "product of private key and UKM"); ref_secret(b, s->c->size, "shared point"); ref_secret(b + s->c->size, s->c->size, "shared point"); }
        if (md == NID_id_GostR3411_94) ref_h94cp(b, 2 * s->c->size, out);
        else if (md == NID_id_GostR3411_2012_256) ref_h12_256(b, 2 * s->c->size, out);
        else ref_h12_512(b, 2 * s->c->size, out);
        if (ref_secret) ref_secret(out, md == NID_id_GostR3411_2012_512 ? 64 : 32, "shared secret");
    }
    BN_free(k); EC_POINT_free(P);
    return ok;
}
int ref_keg(const pkset *s, const EC_POINT *Q, const BIGNUM *d, const u8 *ukm, u8 out[64])
{
    u8 r[16], z[16] = {0}, k[32];
    for (int i = 0; i < 16; i++) r[i] = ukm[15 - i];
    if (!memcmp(r, z, 16)) r[0] = 1;
    if (s->c->size == 64) return ref_vko(s, Q, d, r, 16, NID_id_GostR3411_2012_512, out);
    if (!ref_vko(s, Q, d, r, 16, NID_id_GostR3411_2012_256, k)) return 0;
    ref_kdftree(k, 32, (const u8 *)"kdf tree", 8, ukm + 16, 8, 1, 64, out);
    return 1;
}
/* ---- PKCS#8 ---- */
int pk_digest_oid(const pkset *s)
{
    if (s->dgst == NID_id_GostR3411_94) return NID_id_GostR3411_94_CryptoProParamSet;
    return s->dgst;
}
size_t ref_p8(const pkset *s, int dg, const u8 *priv, size_t n, u8 *out)
{
    u8 b[1500], a[200]; size_t an, bn = 0;
    u8 ver = 0;
    bn = der_put(b, 2, &ver, 1);
    an = der_oid(a + 100, s->c->nid);
    if (dg) an += der_oid(a + 100 + an, dg);
    memmove(a + 50, a + 100, an);
    an = der_put(a + 50, 0x30, a + 50, an);
    size_t on = der_oid(a, s->type);
    memmove(a + on, a + 50, an);
    bn += der_put(b + bn, 0x30, a, on + an);
    bn += der_put(b + bn, 4, priv, n);
    return der_put(out, 0x30, b, bn);
}
/* form of a private key: see pk.h */
size_t ref_priv(const pkset *s, const BIGNUM *d, int form, u8 *out)
{
    u8 b[600], pub[200]; int n = s->c->size, k = form == PF_MASK1 || form == PF_SEQ1 ? 1 : form == PF_MASK2 || form == PF_SEQ2 ? 2 : form == PF_MASK3 ? 3 : 0;
    size_t l = 0;
    BIGNUM *v = BN_dup(d), *m = BN_new();
    for (int i = 1; i <= k; i++) {
        fill(pub, 64, 500 + i);
        BN_lebin2bn(pub, n, m); BN_mod(m, m, s->c->q, ecbn);
        BN_bn2lebinpad(m, b + i * n, n);
        BN_mod_inverse(m, m, s->c->q, ecbn);
        BN_mod_mul(v, v, m, s->c->q, ecbn);
    }
    BN_bn2lebinpad(v, b, n);
    l = n * (k + 1);
    switch (form) {
    case PF_OCT: l = der_put(out, 4, b, n); break;
    case PF_INT: { u8 t[80]; int i = 0; BN_bn2binpad(d, t, n + 1); while (i < n && !t[i] && !(t[i + 1] & 0x80)) i++; l = der_put(out, 2, t + i, n + 1 - i); break; }
    case PF_SEQ0: case PF_SEQ1: case PF_SEQ2: {
        EC_POINT *Q = ec_mul(s->c, d, NULL);
        pt_le(s->c, Q, pub); EC_POINT_free(Q);
        u8 t[900]; size_t tl = der_put(t, 4, b, l);
        tl += der_put(t + tl, 4, pub, 2 * n);
        l = der_put(out, 0x30, t, tl);
        break; }
    default: memcpy(out, b, l);
    }
    BN_free(v); BN_free(m);
    return l;
}
EVP_PKEY *p8_decode(const u8 *b, size_t n)
{
    u8 *t = malloc(n ? n : 1); memcpy(t, b, n);
    const u8 *p = t;
    PKCS8_PRIV_KEY_INFO *i = d2i_PKCS8_PRIV_KEY_INFO(NULL, &p, n);
    EVP_PKEY *k = i ? EVP_PKCS82PKEY(i) : NULL;
    PKCS8_PRIV_KEY_INFO_free(i);
    free(t);
    return k;
}
size_t p8_encode(EVP_PKEY *k, u8 *out)
{
    PKCS8_PRIV_KEY_INFO *i = EVP_PKEY2PKCS8(k);
    u8 *b = NULL; int n = i ? i2d_PKCS8_PRIV_KEY_INFO(i, &b) : 0;
    PKCS8_PRIV_KEY_INFO_free(i);
    if (n > 1500) mc_internal("p8 size");
    if (n > 0) memcpy(out, b, n);
    OPENSSL_free(b);
    return n > 0 ? n : 0;
}
EVP_PKEY *spki_decode(const u8 *b, size_t n)
{
    u8 *t = malloc(n ? n : 1); memcpy(t, b, n);
    const u8 *p = t;
    EVP_PKEY *k = d2i_PUBKEY(NULL, &p, n);
    free(t);
    return k;
}
