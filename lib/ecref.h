/* Elliptic-curve oracle: the published curves on OpenSSL's generic EC_GROUP, cross-checked with affine textbook formulas. */
#ifndef ECREF_H
#define ECREF_H
#include "eng.h"
typedef struct {
    int nid; const char *name; int size;
    const char *sa, *sb, *sp, *sq, *sx, *sy; int h;
    BIGNUM *a, *b, *p, *q, *x, *y;
    EC_GROUP *g;
    EC_POINT *tab[2048];        /* multiples of the generator */
} ecurve;
extern ecurve EC[];
extern int NEC;                 /* 14 */
extern BN_CTX *ecbn;
void ec_init(void);             /* builds the curves */
void ec_selftest(ecurve *c);    /* primes, order, agreement of the two oracles */
ecurve *ec_by_nid(int nid);
const EC_POINT *ec_small(ecurve *c, long k);                    /* k*G, |k| < 2048; own table */
EC_POINT *ec_mul(ecurve *c, const BIGNUM *n, const EC_POINT *P);/* n*P, P NULL: generator; new point, n >= 0 */
int ec_naive(ecurve *c, BIGNUM *ox, BIGNUM *oy, const BIGNUM *k, const BIGNUM *x, const BIGNUM *y); /* 0: infinity */
int ec_eq(ecurve *c, const EC_POINT *mine, const EC_GROUP *g, const EC_POINT *theirs);
EC_KEY *ec_key(int nid);        /* key with the engine's group for nid */
EC_POINT *ec_conv(ecurve *c, const EC_POINT *mine, const EC_GROUP *g);  /* point of the engine's group */
#endif
