#define OPENSSL_SUPPRESS_DEPRECATED
#include "ecref.h"
extern int fill_GOST_EC_params(EC_KEY *eckey, int nid);
ecurve EC[16] = {
#include "curves.h"
};
int NEC;
BN_CTX *ecbn;
static BIGNUM *hex(const char *s) { BIGNUM *b = NULL; if (!BN_hex2bn(&b, s)) mc_internal("bn"); return b; }
int ec_naive(ecurve *c, BIGNUM *ox, BIGNUM *oy, const BIGNUM *k, const BIGNUM *px, const BIGNUM *py)
{
    BN_CTX_start(ecbn);
    BIGNUM *l = BN_CTX_get(ecbn), *t = BN_CTX_get(ecbn), *u = BN_CTX_get(ecbn), *x = BN_CTX_get(ecbn), *y = BN_CTX_get(ecbn);
    int inf = 1;
    for (int i = BN_num_bits(k) - 1; i >= 0; i--)
        for (int add = 0; add < 1 + BN_is_bit_set(k, i); add++) {
            if (!add) {
                if (inf) continue;
                if (BN_is_zero(y)) { inf = 1; continue; }
                BN_mod_sqr(t, x, c->p, ecbn); BN_copy(l, t); BN_mod_add(l, l, t, c->p, ecbn); BN_mod_add(l, l, t, c->p, ecbn);
                BN_mod_add(l, l, c->a, c->p, ecbn);
                BN_mod_add(t, y, y, c->p, ecbn);
                BN_copy(u, x);
            } else {
                if (inf) { BN_copy(x, px); BN_copy(y, py); inf = 0; continue; }
                if (BN_cmp(x, px) == 0) {
                    BN_mod_add(t, y, py, c->p, ecbn);
                    if (BN_is_zero(t)) { inf = 1; continue; }
                    BN_mod_sqr(t, x, c->p, ecbn); BN_copy(l, t); BN_mod_add(l, l, t, c->p, ecbn); BN_mod_add(l, l, t, c->p, ecbn);
                    BN_mod_add(l, l, c->a, c->p, ecbn);
                    BN_mod_add(t, y, y, c->p, ecbn);
                } else {
                    BN_mod_sub(l, py, y, c->p, ecbn);
                    BN_mod_sub(t, px, x, c->p, ecbn);
                }
                BN_copy(u, px);
            }
            BN_mod_inverse(t, t, c->p, ecbn);
            BN_mod_mul(l, l, t, c->p, ecbn);
            BN_mod_sqr(t, l, c->p, ecbn);
            BN_mod_sub(t, t, x, c->p, ecbn);
            BN_mod_sub(t, t, u, c->p, ecbn);
            BN_mod_sub(u, x, t, c->p, ecbn);
            BN_mod_mul(u, u, l, c->p, ecbn);
            BN_mod_sub(y, u, y, c->p, ecbn);
            BN_copy(x, t);
        }
    if (!inf) { BN_copy(ox, x); BN_copy(oy, y); }
    BN_CTX_end(ecbn);
    return !inf;
}
static void build(ecurve *c)
{
    c->a = hex(c->sa); c->b = hex(c->sb); c->p = hex(c->sp); c->q = hex(c->sq); c->x = hex(c->sx); c->y = hex(c->sy);
    BIGNUM *h = BN_new();
    BN_set_word(h, c->h);
    c->g = EC_GROUP_new_curve_GFp(c->p, c->a, c->b, ecbn);
    EC_POINT *P = EC_POINT_new(c->g);
    if (!c->g || !EC_POINT_set_affine_coordinates(c->g, P, c->x, c->y, ecbn) || !EC_GROUP_set_generator(c->g, P, c->q, h)) mc_internal("curve %s", c->name);
    EC_POINT_free(P);
    BN_free(h);
}
void ec_selftest(ecurve *c)
{
    if (!BN_check_prime(c->p, ecbn, NULL) || !BN_check_prime(c->q, ecbn, NULL)) mc_internal("primes of %s", c->name);
    BIGNUM *x = BN_new(), *y = BN_new(), *x2 = BN_new(), *y2 = BN_new(), *k = BN_new();
    if (ec_naive(c, x, y, c->q, c->x, c->y)) mc_internal("order of %s", c->name);
    for (int i = 1; i < 5; i++) {
        BN_lshift(k, c->q, 1); BN_sub_word(k, 3 * i);
        if (i == 4) { BN_set_word(k, 12345); BN_mul(k, k, c->q, ecbn); BN_sub_word(k, 987654321); BN_rshift(k, k, 9); }
        EC_POINT *R = ec_mul(c, k, NULL);
        if (!ec_naive(c, x, y, k, c->x, c->y) || !EC_POINT_get_affine_coordinates(c->g, R, x2, y2, ecbn) || BN_cmp(x, x2) || BN_cmp(y, y2)) mc_internal("oracles disagree on %s", c->name);
        EC_POINT_free(R);
    }
    BN_free(x); BN_free(y); BN_free(x2); BN_free(y2); BN_free(k);
}
void ec_init(void)
{
    ecbn = BN_CTX_new();
    for (NEC = 0; EC[NEC].nid; NEC++) ;
    static const int alias[3][2] = { { NID_id_tc26_gost_3410_2012_256_paramSetB, NID_id_GostR3410_2001_CryptoPro_A_ParamSet },
        { NID_id_tc26_gost_3410_2012_256_paramSetC, NID_id_GostR3410_2001_CryptoPro_B_ParamSet },
        { NID_id_tc26_gost_3410_2012_256_paramSetD, NID_id_GostR3410_2001_CryptoPro_C_ParamSet } };
    for (int i = 0; i < 3; i++) for (int j = 0; j < 11; j++) if (EC[j].nid == alias[i][1]) {
        EC[NEC] = EC[j]; EC[NEC].nid = alias[i][0]; EC[NEC].name = OBJ_nid2sn(alias[i][0]); NEC++;
        break;
    }
    if (NEC != 14) mc_internal("curves: %d", NEC);
    for (int i = 0; i < NEC; i++) build(&EC[i]);
}
ecurve *ec_by_nid(int nid)
{
    for (int i = 0; i < NEC; i++) if (EC[i].nid == nid) return &EC[i];
    return NULL;
}
const EC_POINT *ec_small(ecurve *c, long k)
{
    long i = k < 0 ? 1024 - k : k;
    if (k > 1023 || k < -1023) mc_internal("ec_small %ld", k);
    if (!c->tab[i]) {
        c->tab[i] = EC_POINT_new(c->g);
        if (k == 0) EC_POINT_set_to_infinity(c->g, c->tab[i]);
        else if (k < 0) { EC_POINT_copy(c->tab[i], ec_small(c, -k)); EC_POINT_invert(c->g, c->tab[i], ecbn); }
        else if (k == 1) EC_POINT_copy(c->tab[i], EC_GROUP_get0_generator(c->g));
        else {
            EC_POINT_add(c->g, c->tab[i], ec_small(c, k - 1), EC_GROUP_get0_generator(c->g), ecbn);
            BIGNUM *x = BN_new(), *y = BN_new();
            EC_POINT_get_affine_coordinates(c->g, c->tab[i], x, y, ecbn);
            EC_POINT_set_affine_coordinates(c->g, c->tab[i], x, y, ecbn);
            BN_free(x); BN_free(y);
        }
    }
    return c->tab[i];
}
EC_POINT *ec_mul(ecurve *c, const BIGNUM *n, const EC_POINT *P)
{
    EC_POINT *R = EC_POINT_new(c->g);
    if (!EC_POINT_mul(c->g, R, P ? NULL : n, P, P ? n : NULL, ecbn)) mc_internal("EC_POINT_mul");
    return R;
}
int ec_eq(ecurve *c, const EC_POINT *m, const EC_GROUP *g, const EC_POINT *t)
{
    int mi = EC_POINT_is_at_infinity(c->g, m), ti = EC_POINT_is_at_infinity(g, t), r = 0;
    if (mi || ti) return mi && ti;
    BN_CTX_start(ecbn);
    BIGNUM *x = BN_CTX_get(ecbn), *y = BN_CTX_get(ecbn), *x2 = BN_CTX_get(ecbn), *y2 = BN_CTX_get(ecbn);
    r = EC_POINT_get_affine_coordinates(g, t, x2, y2, ecbn) && EC_POINT_get_affine_coordinates(c->g, m, x, y, ecbn) && !BN_cmp(x, x2) && !BN_cmp(y, y2);
    BN_CTX_end(ecbn);
    return r;
}
EC_KEY *ec_key(int nid)
{
    EC_KEY *k = EC_KEY_new();
    if (!k || !fill_GOST_EC_params(k, nid)) mc_fail(mc_fmt("no-params:%s", OBJ_nid2sn(nid)), "the curve cannot be set up");
    return k;
}
EC_POINT *ec_conv(ecurve *c, const EC_POINT *m, const EC_GROUP *g)
{
    EC_POINT *R = EC_POINT_new(g);
    if (EC_POINT_is_at_infinity(c->g, m)) EC_POINT_set_to_infinity(g, R);
    else {
        BN_CTX_start(ecbn);
        BIGNUM *x = BN_CTX_get(ecbn), *y = BN_CTX_get(ecbn);
        if (!EC_POINT_get_affine_coordinates(c->g, m, x, y, ecbn) || !EC_POINT_set_affine_coordinates(g, R, x, y, ecbn))
            mc_fail(mc_fmt("no-point:%s", c->name), "a point of the curve is not accepted by the engine's group");
        BN_CTX_end(ecbn);
    }
    return R;
}
