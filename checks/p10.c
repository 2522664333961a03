/* P10: curve arithmetic equals the group law. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "ecref.h"
#include "p10_field.h"
extern int gost_ec_point_mul(const EC_GROUP *group, EC_POINT *r, const BIGNUM *n, const EC_POINT *q, const BIGNUM *m, BN_CTX *ctx);
static ecurve *c;
static EC_KEY *key;
static const EC_GROUP *eg;
static EC_POINT *er;
static int bits;
static const char *bnh(const BIGNUM *b) { static char buf[4][140]; static int i; char *h = BN_bn2hex(b); snprintf(buf[i &= 3], 140, "%s", h); OPENSSL_free(h); return buf[i++]; }
static void set(ecurve *cc)
{
    c = cc;
    EC_KEY_free(key); EC_POINT_free(er);
    key = ec_key(c->nid);
    eg = EC_KEY_get0_group(key);
    er = EC_POINT_new(eg);
    bits = c->size * 8;
    /* group name decides the arithmetic used */
    if (EC_GROUP_get_curve_name(eg) != c->nid) mc_fail(mc_fmt("group-name:%s", c->name), "group has another name: %s", OBJ_nid2sn(EC_GROUP_get_curve_name(eg)));
}
static void eq(const EC_POINT *want, const char *what, const BIGNUM *n, const BIGNUM *m, const char *pt)
{
    mc_n_execs++; mc_trans(1);
    if (!ec_eq(c, want, eg, er)) mc_fail(mc_fmt("%s:%s", what, c->name), "wrong point: n=%s m=%s P=%s", n ? bnh(n) : "-", m ? bnh(m) : "-", pt);
}
static void mulg(const BIGNUM *n, const EC_POINT *want)
{
    if (!gost_ec_point_mul(eg, er, n, NULL, NULL, ecbn)) mc_fail(mc_fmt("mul-g:%s", c->name), "multiplication fails for n=%s", bnh(n));
    eq(want, "mul-g", n, NULL, "G");
}
/* the single-point product carries the curve's cofactor (as VKO needs it) */
static void mulp(const BIGNUM *m, const EC_POINT *ep, const EC_POINT *want, const char *pt)
{
    EC_POINT *w = (EC_POINT *)want, *t = NULL;
    if (c->h == 4) { w = t = EC_POINT_new(c->g); EC_POINT_dbl(c->g, t, want, ecbn); EC_POINT_dbl(c->g, t, t, ecbn); }
    if (!gost_ec_point_mul(eg, er, NULL, ep, m, ecbn)) mc_fail(mc_fmt("mul-p:%s", c->name), "multiplication fails for m=%s P=%s", bnh(m), pt);
    eq(w, "mul-p", NULL, m, pt);
    EC_POINT_free(t);
}
static void mul2(const BIGNUM *n, const BIGNUM *m, const EC_POINT *ep, const EC_POINT *want, const char *pt)
{
    if (!gost_ec_point_mul(eg, er, n, ep, m, ecbn)) mc_fail(mc_fmt("mul-two:%s", c->name), "multiplication fails for n=%s m=%s P=%s", bnh(n), bnh(m), pt);
    eq(want, "mul-two", n, m, pt);
}
/* windows: expected values by additions from the powers of two times P */
static EC_POINT *pw[520];
static void powers(const EC_POINT *P)
{
    for (int i = 0; i < bits + 8; i++) {
        if (!pw[i]) pw[i] = EC_POINT_new(c->g);
        else { EC_POINT_free(pw[i]); pw[i] = EC_POINT_new(c->g); }
        if (i) EC_POINT_dbl(c->g, pw[i], pw[i - 1], ecbn); else EC_POINT_copy(pw[i], P);
    }
    EC_POINTs_make_affine(c->g, bits + 8, pw, ecbn);
}
static EC_POINT *sum(const BIGNUM *n)
{
    static EC_POINT *r[4]; static int k;
    k = (k + 1) & 3;
    EC_POINT_free(r[k]);
    r[k] = EC_POINT_new(c->g);
    EC_POINT_set_to_infinity(c->g, r[k]);
    for (int i = 0; i < bits + 8; i++) if (BN_is_bit_set(n, i)) EC_POINT_add(c->g, r[k], r[k], pw[i], ecbn);
    return r[k];
}
/* background with the window [i,i+6) cleared; its multiple is the full background's minus the window's bits */
static EC_POINT *winpoint(const EC_POINT *bgp, const BIGNUM *bg, int i, int v)
{
    static EC_POINT *r, *neg;
    EC_POINT_free(r); EC_POINT_free(neg);
    r = EC_POINT_dup(bgp, c->g); neg = EC_POINT_new(c->g);
    for (int j = 0; j < 6 && i + j < bits; j++) {
        int was = BN_is_bit_set(bg, i + j), is = v >> j & 1;
        if (was == is) continue;
        if (is) EC_POINT_add(c->g, r, r, pw[i + j], ecbn);
        else { EC_POINT_copy(neg, pw[i + j]); EC_POINT_invert(c->g, neg, ecbn); EC_POINT_add(c->g, r, r, neg, ecbn); }
    }
    return r;
}
static void setwin(BIGNUM *n, int i, int v)
{
    for (int j = 0; j < 6 && i + j < bits; j++) { if (v >> j & 1) BN_set_bit(n, i + j); else if (BN_is_bit_set(n, i + j)) BN_clear_bit(n, i + j); }
}
static BIGNUM *background(int k)
{
    u8 b[64];
    BIGNUM *n = BN_new();
    switch (k) {
    case 0: memset(b, 0, 64); break;
    case 1: memset(b, 0xff, 64); break;
    case 2: fill(b, 64, 700); break;
    case 3: memset(b, 0x55, 64); break;
    case 4: memset(b, 0xaa, 64); break;
    default: fill(b, 64, 700 + k);
    }
    BN_bin2bn(b, c->size, n);
    return n;
}
static BIGNUM *near(int mult, long d)      /* mult*q + d */
{
    BIGNUM *n = BN_dup(c->q);
    BN_mul_word(n, mult);
    if (d < 0) BN_sub_word(n, -d); else BN_add_word(n, d);
    if (BN_num_bits(n) > bits || BN_is_negative(n)) { BN_free(n); return NULL; }
    return n;
}
extern struct fld FLD_id_GostR3410_2001_CryptoPro_A_ParamSet, FLD_id_GostR3410_2001_CryptoPro_B_ParamSet, FLD_id_GostR3410_2001_CryptoPro_C_ParamSet,
    FLD_id_GostR3410_2001_TestParamSet, FLD_id_tc26_gost_3410_2012_256_paramSetA, FLD_id_tc26_gost_3410_2012_512_paramSetA,
    FLD_id_tc26_gost_3410_2012_512_paramSetB, FLD_id_tc26_gost_3410_2012_512_paramSetC;
static struct fld *FL[8] = { &FLD_id_GostR3410_2001_CryptoPro_A_ParamSet, &FLD_id_GostR3410_2001_CryptoPro_B_ParamSet, &FLD_id_GostR3410_2001_CryptoPro_C_ParamSet,
    &FLD_id_GostR3410_2001_TestParamSet, &FLD_id_tc26_gost_3410_2012_256_paramSetA, &FLD_id_tc26_gost_3410_2012_512_paramSetA,
    &FLD_id_tc26_gost_3410_2012_512_paramSetB, &FLD_id_tc26_gost_3410_2012_512_paramSetC };
/* --- field level --- */
#define MAXL 24
typedef union { uint64_t q[MAXL]; uint32_t d[2 * MAXL]; } el;
static struct fld *F;
static int wt[MAXL + 1];
static BIGNUM *Rinv;
static void put(el *e, int i, uint64_t v) { if (F->bits == 64) e->q[i] = v; else e->d[i] = v; }
static uint64_t get(const el *e, int i) { return F->bits == 64 ? e->q[i] : e->d[i]; }
static void evalraw(const el *e, BIGNUM *v)
{
    BN_CTX_start(ecbn);
    BIGNUM *t = BN_CTX_get(ecbn);
    BN_zero(v);
    for (int i = F->cnt - 1; i >= 0; i--) { BN_set_word(t, get(e, i)); BN_lshift(t, t, wt[i]); BN_add(v, v, t); }
    BN_CTX_end(ecbn);
}
static uint64_t wmax(int i) { int w = wt[i + 1] - wt[i]; return w == 64 ? ~0ull : (1ull << w) - 1; }
static el *SE; static BIGNUM **SV; static int NS;
static void addel(const el *e)
{
    BIGNUM *v = BN_new();
    evalraw(e, v);
    if (F->mont && BN_cmp(v, c->p) >= 0) { BN_free(v); return; }
    if (F->mont) BN_mod_mul(v, v, Rinv, c->p, ecbn); else BN_nnmod(v, v, c->p, ecbn);
    for (int i = 0; i < NS; i++) if (!memcmp(&SE[i], e, sizeof *e)) { BN_free(v); return; }
    if (NS % 256 == 0) { SE = realloc(SE, (NS + 256) * sizeof *SE); SV = realloc(SV, (NS + 256) * sizeof *SV); }
    SE[NS] = *e; SV[NS++] = v;
}
static void addval(const BIGNUM *v)     /* limbs of a value */
{
    el e; memset(&e, 0, sizeof e);
    BN_CTX_start(ecbn);
    BIGNUM *t = BN_CTX_get(ecbn), *u = BN_CTX_get(ecbn);
    for (int i = 0; i < F->cnt; i++) {
        BN_rshift(t, v, wt[i]);
        if (i + 1 < F->cnt) { BN_copy(u, t); BN_mask_bits(u, wt[i + 1] - wt[i]); BN_copy(t, BN_num_bits(t) > wt[i + 1] - wt[i] ? u : t); }
        put(&e, i, BN_get_word(t));
    }
    BN_CTX_end(ecbn);
    addel(&e);
}
static void field_setup(int full)
{
    u8 o[64];
    el e;
    for (int i = 0; i < NS; i++) BN_free(SV[i]);
    NS = 0;
    if (!Rinv) Rinv = BN_new();
    if (F->mont) {
        BIGNUM *t = BN_new();
        for (int i = 0; i <= F->cnt; i++) wt[i] = i * F->bits;
        BN_zero(t); BN_set_bit(t, wt[F->cnt]);
        BN_nnmod(t, t, c->p, ecbn);
        BN_mod_inverse(Rinv, t, c->p, ecbn);
        BN_free(t);
    } else {
        for (int i = 0; i < F->cnt; i++) {
            memset(&e, 0, sizeof e); put(&e, i, 1);
            F->raw(o, &e);
            BIGNUM *t = BN_lebin2bn(o, c->size, NULL);
            wt[i] = BN_num_bits(t) - 1;
            BN_free(t);
        }
        wt[F->cnt] = BN_num_bits(c->p);
    }
    int n = F->cnt;
    memset(&e, 0, sizeof e); addel(&e);
    /* runs of all-ones limbs, alone and inverted, and single limbs with edge values */
    for (int inv = 0; inv < 2; inv++) for (int i = 0; i < n; i++) for (int j = i + 1; j <= n; j++) {
        if (!full && j - i > 3 && j != n) continue;
        memset(&e, 0, sizeof e);
        for (int k = 0; k < n; k++) if ((k >= i && k < j) != inv) put(&e, k, wmax(k));
        addel(&e);
        put(&e, i, 1); addel(&e);
        if (!F->mont) { put(&e, i, wmax(i) + 1); addel(&e); }
    }
    /* every combination of empty and full limbs */
    if (n <= 10 && full) for (int m = 0; m < 1 << n; m++) {
        memset(&e, 0, sizeof e);
        for (int k = 0; k < n; k++) if (m >> k & 1) put(&e, k, wmax(k));
        addel(&e);
    }
    /* values next to 0, p/2, p */
    BIGNUM *v = BN_new();
    for (int d = 0; d < 8; d++) {
        BN_set_word(v, d); addval(v);
        BN_copy(v, c->p); BN_sub_word(v, d + 1); addval(v);
        BN_rshift1(v, c->p); BN_add_word(v, d); addval(v);
        if (!F->mont) { BN_copy(v, c->p); BN_add_word(v, d); if (BN_num_bits(v) <= wt[n]) addval(v); }
    }
    for (int s = 0; s < 6; s++) { u8 b[64]; fill(b, 64, 40 + s); BN_bin2bn(b, c->size, v); BN_nnmod(v, v, c->p, ecbn); addval(v); }
    BN_free(v);
}
static void chk(const el *o, const BIGNUM *want, const char *op, int i, int j)
{
    u8 b[64];
    mc_n_execs++; mc_trans(1);
    F->out(b, o);
    BN_CTX_start(ecbn);
    BIGNUM *t = BN_CTX_get(ecbn);
    BN_lebin2bn(b, c->size, t);
    if (BN_cmp(t, want)) mc_fail(mc_fmt("field-%s:%s", op, c->name), "a=%s b=%s gives %s instead of %s", bnh(SV[i]), j < 0 ? "-" : bnh(SV[j]), bnh(t), bnh(want));
    for (int k = 0; !F->mont && k < F->cnt; k++) if (get(o, k) > wmax(k) + 1) mc_fail(mc_fmt("field-bound-%s:%s", op, c->name), "a=%s b=%s: limb %d exceeds its bound", bnh(SV[i]), j < 0 ? "-" : bnh(SV[j]), k);
    if (F->mont) { evalraw(o, t); if (BN_cmp(t, c->p) >= 0) mc_fail(mc_fmt("field-bound-%s:%s", op, c->name), "a=%s b=%s: result not reduced", bnh(SV[i]), j < 0 ? "-" : bnh(SV[j])); }
    BN_CTX_end(ecbn);
}
static void field_pairs(int part, int parts)
{
    el o;
    BIGNUM *w = BN_new();
    for (int i = part; i < NS; i += parts) for (int j = 0; j < NS; j++) {
        F->mul(&o, &SE[i], &SE[j]); BN_mod_mul(w, SV[i], SV[j], c->p, ecbn); chk(&o, w, "mul", i, j);
        F->add(&o, &SE[i], &SE[j]); BN_mod_add(w, SV[i], SV[j], c->p, ecbn); chk(&o, w, "add", i, j);
        F->sub(&o, &SE[i], &SE[j]); BN_mod_sub(w, SV[i], SV[j], c->p, ecbn); chk(&o, w, "sub", i, j);
    }
    BN_free(w);
}
static void field_unary(void)
{
    el o, z;
    u8 b[64];
    BIGNUM *w = BN_new(), *t = BN_new();
    memset(&z, 0, sizeof z);
    for (int i = 0; i < NS; i++) {
        F->out(b, &SE[i]); BN_lebin2bn(b, c->size, t);
        if (BN_cmp(t, SV[i])) mc_fail(mc_fmt("field-out:%s", c->name), "%s comes out as %s", bnh(SV[i]), bnh(t));
        F->sqr(&o, &SE[i], NULL); BN_mod_sqr(w, SV[i], c->p, ecbn); chk(&o, w, "square", i, -1);
        F->inv(&o, &SE[i], NULL); if (BN_is_zero(SV[i])) BN_zero(w); else BN_mod_inverse(w, SV[i], c->p, ecbn); chk(&o, w, "inv", i, -1);
        F->oppmul(&o, &SE[i], &SE[NS / 2]); BN_mod_mul(w, SV[i], SV[NS / 2], c->p, ecbn); BN_mod_sub(w, c->p, w, c->p, ecbn); chk(&o, w, "opp", i, NS / 2);
        BN_bn2lebinpad(SV[i], b, c->size);
        memset(&o, 0, sizeof o);
        F->in(&o, b); chk(&o, SV[i], "in", i, -1);
        for (int s = 0; s < 2; s++) { memset(&o, 0xA5, sizeof o); F->sel(&o, s, &SE[i], &SE[(i + 1) % NS]); chk(&o, SV[s ? (i + 1) % NS : i], "select", i, s); }
    }
    BN_free(w); BN_free(t);
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(1);
    ec_init();
    BIGNUM *n = BN_new(), *m = BN_new();
#ifdef VARIANT_W32
    const int w32 = 1;
#else
    const int w32 = 0;
#endif
    for (int ci = 0; ci < NEC; ci++) {
        ecurve *cc = &EC[ci];
        int big = cc->size == 64, alias = ci >= 11 || strstr(cc->name, "Xch") != NULL || strstr(cc->name, "512_paramSetTest");
        int lite = w32 && !mc_thorough;     /* the same C source above the field level */
        const char *nm = cc->name;
        MC_CASE("%s domain parameters", nm) {
            ec_selftest(cc);
            set(cc);
            BIGNUM *p = BN_new(), *a = BN_new(), *b = BN_new(), *x = BN_new(), *y = BN_new(), *q = BN_new(), *h = BN_new();
            EC_GROUP_get_curve(eg, p, a, b, ecbn);
            const EC_POINT *G = EC_GROUP_get0_generator(eg);
            EC_POINT_get_affine_coordinates(eg, G, x, y, ecbn);
            EC_GROUP_get_order(eg, q, ecbn); EC_GROUP_get_cofactor(eg, h, ecbn);
            if (BN_cmp(p, cc->p) || BN_cmp(a, cc->a) || BN_cmp(b, cc->b) || BN_cmp(x, cc->x) || BN_cmp(y, cc->y) || BN_cmp(q, cc->q) || !BN_is_word(h, cc->h))
                mc_fail(mc_fmt("params:%s", nm), "domain parameters differ from the published ones");
            if (!EC_GROUP_check(eg, ecbn)) mc_fail(mc_fmt("params:%s", nm), "EC_GROUP_check fails");
            if (EC_GROUP_get_degree(eg) > bits) mc_fail(mc_fmt("params:%s", nm), "degree");
            mc_n_execs++; mc_trans(1);
            /* arguments that are no use */
            if (gost_ec_point_mul(NULL, er, cc->q, NULL, NULL, ecbn) || gost_ec_point_mul(eg, er, NULL, NULL, NULL, ecbn) || gost_ec_point_mul(eg, er, NULL, NULL, cc->q, ecbn)
                || gost_ec_point_mul(eg, er, cc->q, NULL, cc->q, ecbn)) mc_fail(mc_fmt("bad-args:%s", nm), "missing arguments are accepted");
            BN_zero(n); BN_set_bit(n, bits); BN_sub_word(n, 1);
            mulg(n, ec_mul(c, n, NULL));
            BN_free(p); BN_free(a); BN_free(b); BN_free(x); BN_free(y); BN_free(q); BN_free(h);
            mc_outcome("%s published parameters", nm);
        }
        int span = alias ? 40 : mc_thorough ? 2000 : big || lite ? 100 : 300;
        MC_CASE("%s scalars of G near 0 and multiples of q", nm) {
            set(cc);
            for (int k = 0; k < 5; k++) for (long d = -span; d <= span; d++) {
                BIGNUM *v = near(k, d);
                if (!v) continue;
                EC_POINT *w = span > 1000 ? ec_mul(c, v, NULL) : NULL;
                mulg(v, w ? w : ec_small(c, d));
                EC_POINT_free(w);
                BN_free(v);
            }
            for (long d = 0; d < span; d++) {       /* top of the range */
                BN_zero(n); BN_set_bit(n, bits); BN_sub_word(n, d + 1);
                EC_POINT *w = ec_mul(c, n, NULL);
                mulg(n, w);
                EC_POINT_free(w);
            }
            mc_outcome("%s multiples of G", nm);
        }
        for (int bg = lite ? 2 : 0; bg < (alias ? 1 : mc_thorough ? 8 : 3); bg++)
            for (int part = 0; part < (alias ? 1 : 4); part++)
            MC_CASE("%s every digit of G's scalar, background %d, part %d", nm, bg, part) {
                set(cc);
                powers(EC_GROUP_get0_generator(c->g));
                BIGNUM *b = background(bg);
                EC_POINT *bp = EC_POINT_dup(sum(b), c->g);
                for (int i = part; i < bits; i += mc_thorough && !alias ? 4 : alias ? 20 : 4) {
                    if (!mc_thorough && !alias && i % 5 && (big || lite || bg)) continue;
                    for (int v = 0; v < 64; v++) {
                        if (!mc_thorough && (i % 5 ? (v & 3) != 3 : (v & 1) == 0) && v != 32) continue;
                        BN_copy(n, b); setwin(n, i, v);
                        mulg(n, winpoint(bp, b, i, v));
                    }
                }
                BN_free(b); EC_POINT_free(bp);
            }
        if (!alias) for (int part = 0; part < 8; part++)
            MC_CASE("%s small multiples of small points, part %d", nm, part) {
                set(cc);
                static const int js[] = { 1, 2, 3, 4, 5, 7, 15, 16, 17, 29, 30, 31, 32, 33, 34, 63 };
                for (int ji = part; ji < 32; ji += lite ? 16 : 8) {
                    int j = ji < 16 ? js[ji] : -js[ji - 16];
                    char pt[16]; snprintf(pt, 16, "%dG", j);
                    EC_POINT *ep = ec_conv(c, ec_small(c, j), eg);
                    int sp = mc_thorough ? 16 : lite ? 3 : big ? 5 : 8;
                    for (int k = 0; k < 5; k++) for (long d = -sp; d <= sp; d++) {
                        BIGNUM *v = near(k, d);
                        if (!v) continue;
                        mulp(v, ep, ec_small(c, d * j), pt);
                        BN_free(v);
                    }
                    int sa = mc_thorough ? 12 : big || lite ? 2 : 4;
                    for (int ka = 0; ka < 2; ka++) for (long d = -sa; d <= sa; d++) for (int kb = 0; kb < 2; kb++) for (long e = -sa; e <= sa; e++) {
                        BIGNUM *va = near(ka, d), *vb = near(kb, e);
                        if (va && vb) mul2(va, vb, ep, ec_small(c, d + e * j), pt);
                        BN_free(va); BN_free(vb);
                    }
                    /* sums at infinity: n + j*m = 0 */
                    for (int s = 0; s < 6; s++) {
                        u8 b[64]; fill(b, 64, s + 900);
                        BN_bin2bn(b, c->size, m); BN_nnmod(m, m, c->q, ecbn);
                        BIGNUM *jj = BN_new(); BN_set_word(jj, j < 0 ? -j : j);
                        BN_mod_mul(n, m, jj, c->q, ecbn);
                        if (j > 0) BN_mod_sub(n, c->q, n, c->q, ecbn);
                        mul2(n, m, ep, ec_small(c, 0), pt);
                        BN_add_word(n, 1); mul2(n, m, ep, ec_small(c, 1), pt);
                        BN_free(jj);
                    }
                    EC_POINT_free(ep);
                }
                mc_outcome("%s small points", nm);
            }
        else MC_CASE("%s small multiples of small points", nm) {
            set(cc);
            for (int j = -3; j <= 3; j++) if (j) {
                EC_POINT *ep = ec_conv(c, ec_small(c, j), eg);
                for (long d = 0; d < 4; d++) { BN_set_word(m, d); mulp(m, ep, ec_small(c, d * j), "small");
                    for (long e = 0; e < 4; e++) { BN_set_word(n, e); mul2(n, m, ep, ec_small(c, d * j + e), "small"); } }
                EC_POINT_free(ep);
            }
        }
        if (!alias) for (int bg = 0; bg < (mc_thorough ? 6 : big || lite ? 1 : 2); bg++) for (int part = 0; part < 4; part++)
            MC_CASE("%s every digit of a point's scalar, background %d, part %d", nm, bg, part) {
                set(cc);
                u8 b[64]; fill(b, 64, 77 + bg);
                BN_bin2bn(b, c->size, n); BN_nnmod(n, n, c->q, ecbn);
                EC_POINT *P = ec_mul(c, n, NULL), *ep = ec_conv(c, P, eg);
                powers(P);
                BIGNUM *bb = background(bg ? bg - 1 : 2);
                EC_POINT *bp = EC_POINT_dup(sum(bb), c->g);
                for (int i = part; i < bits; i += 4) {
                    if (!mc_thorough && i % 5) continue;
                    for (int v = 0; v < 64; v++) {
                        if (!mc_thorough && (v & 1) == 0 && v != 32) continue;
                        if (lite && (v & 3) != 3) continue;
                        BN_copy(m, bb); setwin(m, i, v);
                        EC_POINT *w = winpoint(bp, bb, i, v);
                        mulp(m, ep, w, "fill");
                        /* the same digit through the two-scalar routine, on either side */
                        if (v % (big ? 8 : 4) == 3 || mc_thorough) {
                            EC_POINT *s = EC_POINT_dup(w, c->g);
                            EC_POINT_add(c->g, s, s, EC_GROUP_get0_generator(c->g), ecbn);
                            BN_one(n); mul2(n, m, ep, s, "fill");
                            EC_POINT_free(s);
                        }
                    }
                }
                BN_free(bb); EC_POINT_free(bp); EC_POINT_free(P); EC_POINT_free(ep);
            }
        if (!alias) for (int bg = 0; bg < (mc_thorough ? 6 : big || lite ? 1 : 2); bg++) for (int part = 0; part < 4; part++)
            MC_CASE("%s every digit of G's scalar beside another point, background %d, part %d", nm, bg, part) {
                set(cc);
                EC_POINT *ep = ec_conv(c, ec_small(c, 777), eg);
                powers(EC_GROUP_get0_generator(c->g));
                BIGNUM *bb = background(bg);
                EC_POINT *bp = EC_POINT_dup(sum(bb), c->g);
                for (int i = part; i < bits; i += 4) {
                    if (!mc_thorough && i % 5) continue;
                    for (int v = 0; v < 64; v++) {
                        if (!mc_thorough && ((v & 3) != 3 || (big && (v & 7) != 7))) continue;
                        BN_copy(n, bb); setwin(n, i, v);
                        EC_POINT *s = EC_POINT_dup(winpoint(bp, bb, i, v), c->g);
                        EC_POINT_add(c->g, s, s, ec_small(c, 777), ecbn);
                        BN_one(m); mul2(n, m, ep, s, "777G");
                        EC_POINT_free(s);
                    }
                }
                BN_free(bb); EC_POINT_free(bp); EC_POINT_free(ep);
            }
        /* points with special coordinates */
        if (!alias) for (int part = 0; part < 4; part++) MC_CASE("%s points with special coordinates, part %d", nm, part) {
            set(cc);
            int pts = 0;
            for (int i = part; i < bits; i += mc_thorough ? 4 : lite ? 60 : big ? 36 : 12) for (int kind = 0; kind < 6; kind++) {
                BIGNUM *x = BN_new(), *z = BN_new();
                BN_zero(x);
                switch (kind) {
                case 0: BN_set_bit(x, i); break;
                case 1: BN_set_bit(x, i); BN_sub_word(x, 1); break;
                case 2: BN_copy(x, c->p); BN_sub_word(x, i + 1); break;
                case 3: BN_set_bit(x, i); BN_sub(x, c->p, x); if (BN_is_negative(x)) BN_one(x); break;
                case 4: BN_set_word(x, i); break;
                case 5: for (int k = i & 63; k < bits - 1; k += 64) for (int l = 0; l < 32 && k + l < bits - 1; l++) BN_set_bit(x, k + l); break;
                }
                BN_nnmod(x, x, c->p, ecbn);
                EC_POINT *P = EC_POINT_new(c->g);
                ERR_set_mark();
                for (int bit = 0; bit < 2; bit++) if (EC_POINT_set_compressed_coordinates(c->g, P, x, bit, ecbn)) {
                    /* outside the generator's subgroup on curves with a cofactor: brought into it */
                    if (c->h != 1) { EC_POINT_dbl(c->g, P, P, ecbn); EC_POINT_dbl(c->g, P, P, ecbn); if (EC_POINT_is_at_infinity(c->g, P)) continue; }
                    EC_POINT *ep = ec_conv(c, P, eg);
                    pts++;
                    for (int k = 0; k < 5; k++) {
                        u8 b[64]; fill(b, 64, 12 + k);
                        if (k < 3) BN_set_word(m, k + 1); else if (k == 3) { BN_copy(m, c->q); BN_sub_word(m, 2); } else BN_bin2bn(b, c->size, m);
                        EC_POINT *w = ec_mul(c, m, P);
                        mulp(m, ep, w, bnh(x));
                        BN_set_word(n, 5);
                        EC_POINT_add(c->g, w, w, ec_small(c, 5), ecbn);
                        if (k < 3) mul2(n, m, ep, w, bnh(x));
                        EC_POINT_free(w);
                    }
                    EC_POINT_free(ep);
                }
                ERR_pop_to_mark();
                EC_POINT_free(P); BN_free(x); BN_free(z);
            }
            mc_count("special-points", pts);
        }
        /* result and operand may be the same point */
        MC_CASE("%s result stored over the operand", nm) {
            set(cc);
            for (int j = 1; j < 6; j++) for (int d = 0; d < 6; d++) {
                EC_POINT *ep = ec_conv(c, ec_small(c, j), eg);
                EC_POINT *keep = er;
                er = ep;
                BN_set_word(m, d); BN_set_word(n, 2);
                if (j & 1) mulp(m, ep, ec_small(c, d * j), "same"); else mul2(n, m, ep, ec_small(c, d * j + 2), "same");
                er = keep;
                EC_POINT_free(ep);
            }
        }
    }
    for (int f = 0; f < 8; f++) {
        ecurve *cc = NULL;
        F = FL[f];
        for (int i = 0; i < NEC; i++) if (strstr(F->name, EC[i].name)) { cc = &EC[i]; break; }
        if (!cc) mc_internal("field %s", F->name);
        if (!F->cnt) { mc_count("field-functions-not-found", 1); continue; }
        int parts = mc_thorough ? 16 : 6;
        for (int p = 0; p < parts; p++) MC_CASE("%s field arithmetic, part %d", F->name, p) {
            c = cc;
            field_setup(1);
            field_pairs(p, parts * (mc_thorough ? 1 : NS > 700 ? 3 : 1));
            if (!p) field_unary();
            mc_count("field-elements", p ? 0 : NS);
            mc_outcome("%s field arithmetic equals integers mod p", F->name);
        }
    }
    return mc_finish();
}
