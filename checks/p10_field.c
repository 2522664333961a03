/* One curve's field arithmetic, taken from the repository's file. Compiled once per curve; empty (-DABSENT) if the
   file no longer has these functions. */
#include "p10_field.h"
#define XS(x) #x
#define S(x) XS(x)
#define CAT_(a, b, c) a##b##c
#define CAT(a, b, c) CAT_(a, b, c)
#ifdef ABSENT
struct fld CAT(FLD_, CURVE, ) = { S(CURVE), 0 };
#else
#include S(FILE_)
#define FN(x) CAT(fiat_, CURVE, _##x)
static void do_mul(void *o, const void *a, const void *b)
{
#ifdef MONT
    FN(mul)(o, a, b);
#else
    FN(carry_mul)(o, a, b);
#endif
}
static void do_sqr(void *o, const void *a, const void *b)
{
#ifdef MONT
    FN(square)(o, a);
#else
    FN(carry_square)(o, a);
#endif
}
static void do_add(void *o, const void *a, const void *b)
{
    FN(add)(o, a, b);
#ifndef MONT
    FN(carry)(o, o);
#endif
}
static void do_sub(void *o, const void *a, const void *b)
{
    FN(sub)(o, a, b);
#ifndef MONT
    FN(carry)(o, o);
#endif
}
static void do_opp(void *o, const void *a, const void *b) { FN(opp)(o, a); }
static void do_oppmul(void *o, const void *a, const void *b) { fe_t t; FN(opp)(t, a); do_mul(o, t, b); }
static void do_inv(void *o, const void *a, const void *b) { fe_t t; fe_copy(t, a); FN(inv)(o, t); }
static void do_out(unsigned char *o, const void *a)
{
#ifdef MONT
    fe_t t;
    FN(from_montgomery)(t, a);
    FN(to_bytes)(o, t);
#else
    fe_t t;
    FN(carry)(t, a);
    FN(to_bytes)(o, t);
#endif
}
static void do_raw(unsigned char *o, const void *a) { FN(to_bytes)(o, a); }
static void do_in(void *o, const unsigned char *a)
{
    FN(from_bytes)(o, a);
#ifdef MONT
    FN(to_montgomery)(o, o);
#endif
}
static void do_sel(void *o, int c, const void *a, const void *b) { FN(selectznz)(o, c, a, b); }
struct fld CAT(FLD_, CURVE, ) = { S(CURVE), LIMB_CNT, LIMB_BITS,
#ifdef MONT
    1,
#else
    0,
#endif
    do_mul, do_sqr, do_add, do_sub, do_opp, do_oppmul, do_inv, do_out, do_raw, do_in, do_sel };
#endif
