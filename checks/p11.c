/* P11: signatures verify exactly when the standard's equation holds. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "pk.h"
extern int gost_ec_verify(const unsigned char *dgst, int dgst_len, ECDSA_SIG *sig, EC_KEY *ec);
extern ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey);
static pkset *S;
static const char *N;
static int sz;
static const BIGNUM *q;
static void use(pkset *s) { static char nm[128]; S = s; sz = s->c->size; q = s->c->q; snprintf(nm, sizeof nm, "%s", pk_name(s)); N = nm; }
static BIGNUM *val(int i)       /* residues modulo q */
{
    BIGNUM *b = BN_new();
    u8 x[64];
    switch (i) {
    case 0: BN_one(b); break;
    case 1: BN_sub(b, q, BN_value_one()); break;
    case 2: BN_set_word(b, 2); break;
    case 3: BN_copy(b, q); BN_sub_word(b, 2); break;
    case 4: BN_rshift1(b, q); break;                            /* (q-1)/2 */
    case 5: BN_lshift(b, BN_value_one(), sz * 8 - 9); break;    /* leading zero byte(s), trailing zeros */
    case 6: fill(x, 64, 77); BN_bin2bn(x, sz, b); BN_mod(b, b, q, ecbn); break;
    case 7: BN_set_word(b, 3); break;
    case 8: BN_lshift(b, BN_value_one(), sz * 4 - 1); break;
    default: fill(x, 64, 70 + i); BN_bin2bn(x, sz, b); BN_mod(b, b, q, ecbn);
    }
    return b;
}
#define NV 9
static int digv(int i, u8 *d)   /* digests, 1 if there is such a one */
{
    BIGNUM *b = BN_new();
    memset(d, 0, 64);
    switch (i) {
    case 0: break;
    case 1: d[0] = 1; break;
    case 2: BN_copy(b, q); break;
    case 3: BN_copy(b, q); BN_sub_word(b, 1); break;
    case 4: BN_copy(b, q); BN_add_word(b, 1); break;
    case 5: memset(d, 0xff, sz); break;
    case 6: fill(d, sz, 5); break;
    case 7: d[sz - 1] = 0x80; break;
    case 8: BN_lshift1(b, q); break;
    case 9: fill(d, sz, 6); d[sz - 1] = 0; break;
    case 10: fill(d, sz, 7); d[0] = 0; break;
    }
    int ok = BN_num_bytes(b) <= sz;
    if (ok && !BN_is_zero(b)) BN_bn2lebinpad(b, d, sz);
    BN_free(b);
    return ok;
}
#define ND 11
static int esign(EVP_PKEY *k, u8 *sig, size_t *l, const u8 *d, size_t n)
{
    EVP_PKEY_CTX *x = pk_ctx(k);
    int r = EVP_PKEY_sign_init(x) == 1 ? EVP_PKEY_sign(x, sig, l, d, n) : -9;
    EVP_PKEY_CTX_free(x);
    mc_trans(1);
    return r;
}
static int everify(EVP_PKEY *k, const u8 *sig, size_t l, const u8 *d, size_t n)
{
    EVP_PKEY_CTX *x = pk_ctx(k);
    u8 *s = malloc(l ? l : 1), *t = malloc(n ? n : 1);
    memcpy(s, sig, l); memcpy(t, d, n);
    int r = EVP_PKEY_verify_init(x) == 1 ? EVP_PKEY_verify(x, s, l, t, n) : -9;
    EVP_PKEY_CTX_free(x);
    free(s); free(t);
    mc_trans(1);
    ERR_clear_error();
    return r == 1;
}
static void judge(EVP_PKEY *k, const EC_POINT *Q, const u8 *sig, const u8 *d, const char *what, long i)
{
    BIGNUM *r = BN_new(), *s = BN_new();
    sig_unpack(S, sig, r, s);
    int want = ref_verify(S, Q, d, sz, r, s), got = everify(k, sig, 2 * sz, d, sz);
    mc_n_execs++;
    if (want != got) mc_fail(mc_fmt("%s:%s:%s", got ? "forged-accepted" : "valid-rejected", N, what), "%s %ld: verification says %d, the equation %d: r=%s s=%s digest(le)=%s", what, i, got, want, bnh(r), bnh(s), mc_hex(d, sz));
    mc_count(want ? "verify_valid" : "verify_invalid", 1);
    BN_free(r); BN_free(s);
}
/* a correct signature with chosen nonce and s: digest follows; 0 if there is none */
static int craft(const BIGNUM *d, const BIGNUM *k, const BIGNUM *s, u8 *sig, u8 *dg)
{
    BIGNUM *r = BN_new(), *e = BN_new(), *t = BN_new();
    EC_POINT *P = ec_mul(S->c, k, NULL);
    int ok = 1;
    EC_POINT_get_affine_coordinates(S->c->g, P, r, NULL, ecbn);
    BN_mod(r, r, q, ecbn);
    BN_mod_mul(t, r, d, q, ecbn);
    BN_mod_sub(t, s, t, q, ecbn);
    BN_mod_inverse(e, k, q, ecbn);
    BN_mod_mul(e, e, t, q, ecbn);
    if (BN_is_zero(e) || BN_is_zero(r)) ok = 0;
    else { memset(dg, 0, 64); BN_bn2lebinpad(e, dg, sz); sig_pack(S, r, s, sig); }
    BN_free(r); BN_free(e); BN_free(t); EC_POINT_free(P);
    return ok;
}
static void check_sig(const BIGNUM *d, EVP_PKEY *pub, const u8 *sig, const u8 *dg, BIGNUM *k, const char *what)
{
    BIGNUM *r = BN_new(), *s = BN_new();
    sig_unpack(S, sig, r, s);
    mc_n_execs++;
    if (!ref_nonce(S, d, dg, sz, r, s, k)) mc_fail(mc_fmt("bad-signature:%s:%s", N, what), "%s: d=%s digest(le)=%s gives r=%s s=%s, which is not a signature of it", what, bnh(d), mc_hex(dg, sz), bnh(r), bnh(s));
    if (!everify(pub, sig, 2 * sz, dg, sz)) mc_fail(mc_fmt("valid-rejected:%s:own", N), "own signature rejected: d=%s digest(le)=%s r=%s s=%s", bnh(d), mc_hex(dg, sz), bnh(r), bnh(s));
    BN_free(r); BN_free(s);
}
static void sign_values(int di)
{
    BIGNUM *d = val(di), *kk = BN_new();
    EVP_PKEY *p = pk_new(S, d);
    u8 dg[64], raw[512];
    for (int e = 0; e < ND; e++) if (digv(e, dg)) for (int ki = 0; ki < NV; ki++) {
        if (!mc_thorough && e > 3 && ki > 5 && di > 3) continue;
        BIGNUM *k = val(ki);
        size_t l = 2 * sz;
        u8 *sig = malloc(l);
        mc_reset_trace(); mc_op("sign d=%s digest %d nonce %s", bnh(d), e, bnh(k));
        size_t n = rng_bn(S, k, raw);
        rng_reset(RNG_STREAM);
        rng.script = raw; rng.script_len = n;
        int r = esign(p, sig, &l, dg, sz);
        rng_reset(RNG_STREAM);
        if (r != 1 || l != 2u * sz) mc_fail(mc_fmt("sign-fails:%s", N), "signing returns %d, length %zu", r, l);
        check_sig(d, p, sig, dg, kk, "values");
        if (!BN_cmp(kk, k)) mc_count("signatures_with_the_scripted_nonce", 1);
        free(sig); BN_free(k);
    }
    EVP_PKEY_free(p); BN_free(d); BN_free(kk);
}
/* nonce sequences: draws out of range, draws giving s = 0 or r = 0 */
static void sign_retry(void)
{
    BIGNUM *d = val(6), *kk = BN_new(), *k1 = val(8), *t = BN_new(), *e = BN_new(), *x = BN_new();
    EVP_PKEY *p = pk_new(S, d);
    u8 dg[64], raw[1024];
    for (int bad = 0; bad < 8; bad++) for (int rep = 1; rep <= 3; rep++) {
        BIGNUM *first = BN_new();
        int special = BN_num_bits(q) != 0 && !BN_is_bit_set(q, BN_num_bits(q) - 2) && !BN_is_bit_set(q, BN_num_bits(q) - 3);
        fill(dg, sz, 31);
        switch (bad) {
        case 0: BN_copy(first, q); break;
        case 1: BN_copy(first, q); BN_add_word(first, 1); break;
        case 2: BN_set_bit(first, BN_num_bits(q)); BN_sub_word(first, 1); break;
        case 3: BN_zero(first); break;
        case 4: {       /* s = 0 for nonce k1 */
            EC_POINT *P = ec_mul(S->c, k1, NULL);
            BN_copy(first, k1);
            EC_POINT_get_affine_coordinates(S->c->g, P, x, NULL, ecbn);
            BN_mod(x, x, q, ecbn);
            BN_mod_mul(t, x, d, q, ecbn);
            BN_sub(t, q, t);
            BN_mod_inverse(e, k1, q, ecbn);
            BN_mod_mul(e, e, t, q, ecbn);
            memset(dg, 0, 64); BN_bn2lebinpad(e, dg, sz);
            EC_POINT_free(P);
            break; }
        case 5: case 6:
            BN_one(first);      /* r = 0 on curves whose generator has x = 0 */
            if (!BN_is_zero(S->c->x)) { BN_free(first); continue; }
            if (bad == 6) BN_sub(first, q, BN_value_one());
            break;
        case 7: BN_copy(first, q); BN_add_word(first, 5); break;
        }
        size_t n = 0, l = 2 * sz;
        for (int i = 0; i < rep; i++) n += rng_bn(S, first, raw + n);
        BIGNUM *good = val(9);
        if (bad == 3 && rep > 1) { BN_free(first); BN_free(good); continue; }
        n += rng_bn(S, good, raw + n);
        u8 *sig = malloc(l);
        mc_reset_trace(); mc_op("sign with %d draws of kind %d", rep, bad);
        rng_reset(RNG_STREAM);
        rng.script = raw; rng.script_len = n;
        int r = esign(p, sig, &l, dg, sz);
        rng_reset(RNG_STREAM);
        if (r != 1 && (bad == 3 || (bad == 0 && special))) ;       /* a zero nonce may be refused altogether; BN_rand_range makes it of q on these curves */
        else {
            if (r != 1 || l != 2u * sz) mc_fail(mc_fmt("sign-fails:%s", N), "signing returns %d", r);
            check_sig(d, p, sig, dg, kk, "retry");
            if (!special && (bad < 3 || bad == 7)) { BN_mod(first, first, q, ecbn); if (!BN_cmp(first, kk)) mc_fail(mc_fmt("reduced-nonce:%s", N), "an out-of-range draw is reduced and used"); }
        }
        mc_count("retry_cases", 1);
        free(sig); BN_free(first); BN_free(good);
    }
    EVP_PKEY_free(p); BN_free(d); BN_free(kk); BN_free(k1); BN_free(t); BN_free(e); BN_free(x);
}
static void verify_edges(int di)
{
    BIGNUM *d = val(di), *r = BN_new(), *s = BN_new();
    EC_POINT *Q = ec_mul(S->c, d, NULL);
    EVP_PKEY *p = pk_wrap(S, NULL, Q);
    u8 sig[128], dg[64], d2[64], sg[128];
    for (int ki = 0; ki < NV; ki++) for (int si = 0; si < NV; si++) {
        BIGNUM *k = val(ki), *sv = val(si);
        if (craft(d, k, sv, sig, dg)) {
            mc_reset_trace(); mc_op("d %d nonce %d s %d", di, ki, si);
            judge(p, Q, sig, dg, "edge-s", si);
            if (!everify(p, sig, 2 * sz, dg, sz)) mc_fail(mc_fmt("valid-rejected:%s:edge-s", N), "crafted signature rejected");
            /* the same residue as a larger digest */
            BIGNUM *e = BN_lebin2bn(dg, sz, NULL);
            BN_add(e, e, q);
            if (BN_num_bytes(e) <= sz) { BN_bn2lebinpad(e, d2, sz); judge(p, Q, sig, d2, "digest+q", 0); }
            BN_free(e);
            if (mc_thorough ? ki == si || ki == 6 : (ki == 6 && si == 6) || (ki == si && ki < 2 && (di & 1)) || (ki == 6 && di == 6 && si < 3)) {
                /* r and s replaced by every pair of edge values */
                sig_unpack(S, sig, r, s);
                BIGNUM *ev[2][12];
                for (int w = 0; w < 2; w++) for (int j = 0; j < 12; j++) {
                    const BIGNUM *o = w ? s : r;
                    BIGNUM *b = ev[w][j] = BN_dup(o);
                    switch (j) {
                    case 1: BN_zero(b); break;
                    case 2: BN_one(b); break;
                    case 3: BN_sub(b, q, BN_value_one()); break;
                    case 4: BN_copy(b, q); break;
                    case 5: BN_add(b, q, BN_value_one()); break;
                    case 6: BN_add(b, q, o); break;
                    case 7: BN_sub(b, q, o); break;
                    case 8: BN_add_word(b, 1); break;
                    case 9: BN_zero(b); BN_set_bit(b, sz * 8); BN_sub_word(b, 1); break;
                    case 10: BN_copy(b, w ? r : s); break;
                    case 11: BN_lshift1(b, q); break;
                    }
                }
                for (int a = 0; a < 12; a++) for (int b = 0; b < 12; b++) {
                    if (BN_num_bytes(ev[0][a]) > sz || BN_num_bytes(ev[1][b]) > sz) continue;
                    sig_pack(S, ev[0][a], ev[1][b], sg);
                    judge(p, Q, sg, dg, "edge-pair", a * 100 + b);
                }
                /* through the internal entry: sign and size not limited by the encoding */
                EC_KEY *ek = EVP_PKEY_get0(p);
                for (int a = 0; a < 12; a++) for (int b = 0; b < 12; b++) for (int neg = 0; neg < 4; neg++) {
                    if (!neg && BN_num_bytes(ev[0][a]) <= sz && BN_num_bytes(ev[1][b]) <= sz) continue;
                    if (neg && (a > 6 || b > 6) ) continue;
                    BIGNUM *rr = BN_dup(ev[0][a]), *ss = BN_dup(ev[1][b]);
                    BN_set_negative(rr, neg & 1); BN_set_negative(ss, neg >> 1);
                    int want = ref_verify(S, Q, dg, sz, rr, ss);
                    ECDSA_SIG *es = ECDSA_SIG_new();
                    ECDSA_SIG_set0(es, rr, ss);
                    int got = gost_ec_verify(dg, sz, es, ek);
                    mc_n_execs++; mc_trans(1);
                    if (got != want) mc_fail(mc_fmt("internal-verify:%s", N), "r=%s s=%s: verification says %d, equation %d", bnh(rr), bnh(ss), got, want);
                    ECDSA_SIG_free(es);
                }
                for (int w = 0; w < 2; w++) for (int j = 0; j < 12; j++) BN_free(ev[w][j]);
            }
        }
        BN_free(k); BN_free(sv);
    }
    /* s = r d: the combination is the point at infinity */
    for (int e = 1; e < ND; e++) if (digv(e, dg)) {
        BIGNUM *rr = val(4), *ss = BN_new();
        BN_mod_mul(ss, rr, d, q, ecbn);
        sig_pack(S, rr, ss, sg);
        judge(p, Q, sg, dg, "infinity", e);
        BN_free(rr); BN_free(ss);
    }
    EVP_PKEY_free(p); EC_POINT_free(Q); BN_free(d); BN_free(r); BN_free(s);
}
/* every bit of signature and digest, several other keys */
static void flips(int part, int parts)
{
    BIGNUM *d = val(6), *k = val(10), *sv = val(11);
    EC_POINT *Q = ec_mul(S->c, d, NULL), *Q2;
    EVP_PKEY *p = pk_wrap(S, NULL, Q), *p2;
    u8 sig[128], dg[64];
    if (!craft(d, k, sv, sig, dg)) mc_internal("craft");
    for (int i = part; i < sz * 8; i += parts) for (int w = 0; w < 3; w++) {
        u8 *b = w == 2 ? dg : sig + w * sz;
        b[i / 8] ^= 0x80 >> i % 8;
        judge(p, Q, sig, dg, w == 2 ? "digest-bit" : w ? "r-bit" : "s-bit", i);
        b[i / 8] ^= 0x80 >> i % 8;
    }
    for (int i = -3 + part; i < 4; i += parts) {
        BIGNUM *d2 = BN_dup(d);
        if (i == 0) BN_sub(d2, q, d); else if (i > 0) BN_add_word(d2, i); else BN_sub_word(d2, -i);
        Q2 = ec_mul(S->c, d2, NULL);
        p2 = pk_wrap(S, NULL, Q2);
        judge(p2, Q2, sig, dg, "other-key", i);
        EVP_PKEY_free(p2); EC_POINT_free(Q2); BN_free(d2);
    }
    judge(p, Q, sig, dg, "unaltered", 0);
    EVP_PKEY_free(p); EC_POINT_free(Q); BN_free(d); BN_free(k); BN_free(sv);
}
static void lengths(void)
{
    BIGNUM *d = val(6), *k = val(10), *sv = val(11), *kk = BN_new();
    EC_POINT *Q = ec_mul(S->c, d, NULL);
    EVP_PKEY *p = pk_new(S, d), *pub = pk_wrap(S, NULL, Q), *priv = pk_wrap(S, d, NULL), *none = pk_wrap(S, NULL, NULL);
    u8 sig[128], dg[140], b[400];
    size_t l;
    memset(dg, 0, 140);
    if (!craft(d, k, sv, sig, dg)) mc_internal("craft");
#define REJ(n, what) do { mc_n_execs++; if (everify(pub, b, n, dg, sz)) mc_fail(mc_fmt("length-accepted:%s:%s", S->tname, what), "a signature of %zu bytes (%s) is accepted, the format has %d", (size_t)(n), what, 2 * sz); } while (0)
    for (size_t n = 0; n < 2u * sz + 140; n++) {
        if (n == 2u * sz) continue;
        mc_reset_trace(); mc_op("length %zu", n);
        memset(b, 0, 400); memcpy(b, sig, n < 2u * sz ? n : 2u * sz);
        REJ(n, "zeros behind");
        for (size_t j = 2 * sz; j < 400; j++) b[j] = sig[j % (2 * sz)];
        REJ(n, "garbage behind");
        if (n > 2u * sz) {
            memset(b, 0, 400); memcpy(b + n - 2 * sz, sig, 2 * sz);
            REJ(n, "zeros before");
            size_t h = n / 2 - sz;      /* each half zero padded */
            memset(b, 0, 400); memcpy(b + h, sig, sz); memcpy(b + n / 2 + h, sig + sz, sz);
            REJ(n, "padded halves");
            if (n & 1) { b[n - 1] = 7; REJ(n, "padded halves and one byte"); }
        }
    }
    /* halves without their leading zeros */
    for (int z = 1; z < 3; z++) {
        BIGNUM *s2 = val(7);
        u8 s3[128], g3[64];
        if (craft(d, k, s2, s3, g3)) {
            u8 save[64]; memcpy(save, dg, 64); memcpy(dg, g3, 64);
            if (s3[sz] == 0) { memcpy(b, s3 + z, sz - z); memcpy(b + sz - z, s3 + sz + z, sz - z); REJ(2 * sz - 2 * z, "leading zeros dropped"); }
            memcpy(dg, save, 64);
        }
        BN_free(s2);
    }
    /* digest lengths */
    for (size_t n = 0; n <= 130; n++) {
        u8 *g = malloc(n ? n : 1), o[128];
        memcpy(g, dg, n);
        mc_reset_trace(); mc_op("digest of %zu bytes", n);
        mc_n_execs += 2;
        int v = everify(pub, sig, 2 * sz, g, n);
        l = 2 * sz; memset(o, 0x5a, 128);
        int r = esign(p, o, &l, g, n);
        if (n != 32 && n != 64) {
            if (v) mc_fail(mc_fmt("digest-length-accepted:%s:verify", S->tname), "a digest of %zu bytes verifies", n);
            if (r == 1) mc_fail(mc_fmt("digest-length-accepted:%s:sign", S->tname), "a digest of %zu bytes is signed", n);
        } else if ((int)n == sz) {
            if (!v || r != 1) mc_fail(mc_fmt("valid-rejected:%s:length", N), "the proper digest length is refused");
        } else if (r == 1) {    /* the other GOST digest length: refused, or read as a number */
            BIGNUM *r_ = BN_new(), *s_ = BN_new();
            sig_unpack(S, o, r_, s_);
            if (!ref_nonce(S, d, g, n, r_, s_, kk)) mc_fail(mc_fmt("bad-signature:%s:other-length", N), "a wrong signature of a %zu-byte digest", n);
            if (!everify(pub, o, 2 * sz, g, n)) mc_fail(mc_fmt("valid-rejected:%s:other-length", N), "own signature of a %zu-byte digest rejected", n);
            BN_free(r_); BN_free(s_);
        }
        free(g);
    }
    /* room for the signature */
    for (size_t n = 0; n <= 2u * sz + 3; n++) {
        u8 *o = malloc(n ? n : 1);
        l = n;
        mc_reset_trace(); mc_op("room of %zu bytes", n);
        int r = esign(p, o, &l, dg, sz);
        mc_n_execs++;
        if (n < 2u * sz ? r == 1 : r != 1 || l != 2u * sz) mc_fail(mc_fmt("room:%s", S->tname), "signing into %zu bytes returns %d, length %zu", n, r, l);
        free(o);
    }
    l = 0;
    if (esign(p, NULL, &l, dg, sz) != 1 || l < 2u * sz) mc_fail(mc_fmt("size-query:%s", S->tname), "size query says %zu", l);
    if (EVP_PKEY_size(p) < 2 * sz) mc_fail(mc_fmt("pkey-size:%s", S->tname), "EVP_PKEY_size says %d", EVP_PKEY_size(p));
    mc_reset_trace(); mc_op("incomplete keys");
    l = 2 * sz;
    if (esign(pub, b, &l, dg, sz) == 1) mc_fail(mc_fmt("signs-without-key:%s", S->tname), "signing without a private key succeeds");
    l = 2 * sz;
    if (esign(none, b, &l, dg, sz) == 1) mc_fail(mc_fmt("signs-without-key:%s", S->tname), "signing without a private key succeeds");
    if (everify(none, sig, 2 * sz, dg, sz)) mc_fail(mc_fmt("verifies-without-key:%s", S->tname), "verification without a public key succeeds");
    if (everify(priv, sig, 2 * sz, dg, sz)) mc_count("verify_with_private_only", 1);
    EVP_PKEY_free(p); EVP_PKEY_free(pub); EVP_PKEY_free(priv); EVP_PKEY_free(none);
    BN_free(d); BN_free(k); BN_free(sv); BN_free(kk); EC_POINT_free(Q);
}
/* the digest-and-sign interface */
static const char *dname(void) { return S->dgst == NID_id_GostR3411_94 ? "md_gost94" : S->dgst == NID_id_GostR3411_2012_256 ? "md_gost12_256" : "md_gost12_512"; }
static u8 msg[300];
static size_t gn;
static EVP_PKEY *gk, *gpub;
static BIGNUM *gd, *gkk;
static void refdig(const u8 *m, size_t n, u8 *out)
{
    if (S->dgst == NID_id_GostR3411_94) ref_h94cp(m, n, out);
    else ref_streebog(sz * 8, m, n, out);
}
static void dsign(void *u)
{
    u8 dg[64], sig[128];
    size_t l = 2 * sz, cut = gn ? mc_choose(gn > 70 || !mc_thorough ? (gn < 3 ? gn + 1 : 3) : gn + 1) : 0, o = 0;
    int explicit = mc_choose(2), copy = mc_choose(3);
    mc_reset_trace(); mc_op("DigestSign %zu bytes cut %zu%s", gn, cut, copy ? " copied" : "");
    EVP_MD_CTX *m = EVP_MD_CTX_new(), *m2 = NULL;
    if (EVP_DigestSignInit(m, NULL, explicit ? eng_digest(dname()) : NULL, E, gk) != 1) mc_fail(mc_fmt("digest-sign-init:%s", S->tname), "init fails");
    if (EVP_DigestSignUpdate(m, msg, cut) != 1) mc_fail(mc_fmt("digest-sign-update:%s", S->tname), "update fails");
    if (copy) {
        m2 = EVP_MD_CTX_new();
        if (EVP_MD_CTX_copy_ex(m2, m) != 1) mc_fail(mc_fmt("digest-sign-copy:%s", S->tname), "copy fails");
        if (copy == 2) { EVP_MD_CTX_free(m); m = m2; m2 = NULL; }
    }
    o = cut;
    if (EVP_DigestSignUpdate(m, msg + o, gn - o) != 1) mc_fail(mc_fmt("digest-sign-update:%s", S->tname), "update fails");
    size_t ql = 0;
    if (EVP_DigestSignFinal(m, NULL, &ql) != 1 || ql < 2u * sz) mc_fail(mc_fmt("digest-sign-size:%s", S->tname), "size query %zu", ql);
    l = ql;
    u8 *out = malloc(ql);
    if (EVP_DigestSignFinal(m, out, &l) != 1 || l != 2u * sz) mc_fail(mc_fmt("digest-sign-final:%s", S->tname), "final fails or wrong length %zu", l);
    memcpy(sig, out, l); free(out);
    mc_trans(5); mc_n_execs++;
    refdig(msg, gn, dg);
    check_sig(gd, gpub, sig, dg, gkk, "digest-sign");
    if (m2) {   /* the copy goes on from the cut with the shorter message */
        l = ql;
        out = malloc(l);
        if (EVP_DigestSignFinal(m2, out, &l) != 1 || l != 2u * sz) mc_fail(mc_fmt("digest-sign-final:%s", S->tname), "final of the copy fails");
        u8 dg2[64];
        refdig(msg, cut, dg2);
        check_sig(gd, gpub, out, dg2, gkk, "digest-sign-copy");
        free(out); EVP_MD_CTX_free(m2);
    }
    EVP_MD_CTX_free(m);
    for (int bad = 0; bad < 3; bad++) {
        m = EVP_MD_CTX_new();
        if (EVP_DigestVerifyInit(m, NULL, explicit ? eng_digest(dname()) : NULL, E, gpub) != 1) mc_fail(mc_fmt("digest-verify-init:%s", S->tname), "init fails");
        if (cut && EVP_DigestVerifyUpdate(m, msg, cut) != 1) mc_fail(mc_fmt("digest-verify-update:%s", S->tname), "update fails");
        if (copy) { m2 = EVP_MD_CTX_new(); EVP_MD_CTX_copy_ex(m2, m); EVP_MD_CTX_free(m); m = m2; }
        if (bad == 1) msg[gn]++;
        if (EVP_DigestVerifyUpdate(m, msg + cut, gn - cut + (bad == 1)) != 1) mc_fail(mc_fmt("digest-verify-update:%s", S->tname), "update fails");
        if (bad == 2) sig[3] ^= 1;
        int r = EVP_DigestVerifyFinal(m, sig, 2 * sz);
        if (bad == 2) sig[3] ^= 1;
        if ((r == 1) != !bad) mc_fail(mc_fmt("%s:%s", bad ? "forged-accepted:digest" : "valid-rejected:digest", S->tname), "verification of %s message returns %d", bad ? "an altered" : "the", r);
        ERR_clear_error();
        EVP_MD_CTX_free(m);
        mc_n_execs++;
    }
}
/* one key context used again and again: every sequence of up to 4 operations */
static u8 hsig[2][128], hdg[2][64];
static void hist(void *u)
{
    EVP_PKEY_CTX *x = pk_ctx(gk), *y;
    int mode = 0;
    mc_reset_trace();
    for (int i = 0; i < (mc_thorough ? 4 : 3); i++) {
        int op = mc_choose(8), which = op & 1;
        u8 sig[128]; size_t l = 2 * sz;
        switch (op >> 1) {
        case 0:
            mc_op("sign%d", which);
            if (mode != 1 && EVP_PKEY_sign_init(x) != 1) mc_fail(mc_fmt("history:%s", S->tname), "sign_init fails");
            mode = 1;
            if (EVP_PKEY_sign(x, sig, &l, hdg[which], sz) != 1 || l != 2u * sz) mc_fail(mc_fmt("history:%s", S->tname), "signing fails");
            if (!everify(gpub, sig, l, hdg[which], sz)) mc_fail(mc_fmt("history:%s", S->tname), "signature is wrong");
            break;
        case 1: case 2:
            mc_op("verify%d %s", which, op >> 1 == 2 ? "other" : "");
            if (mode != 2 && EVP_PKEY_verify_init(x) != 1) mc_fail(mc_fmt("history:%s", S->tname), "verify_init fails");
            mode = 2;
            { int want = op >> 1 == 1;
            if ((EVP_PKEY_verify(x, hsig[which], 2 * sz, hdg[which ^ !want], sz) == 1) != want) mc_fail(mc_fmt("history:%s", S->tname), "verification should say %d", want); }
            break;
        case 3:
            mc_op(which ? "dup" : "dup, keep old");
            y = EVP_PKEY_CTX_dup(x);
            if (!y) mc_fail(mc_fmt("history:%s", S->tname), "dup fails");
            if (which) { EVP_PKEY_CTX_free(x); x = y; } else EVP_PKEY_CTX_free(y);
            break;
        }
        mc_trans(1);
    }
    ERR_clear_error();
    EVP_PKEY_CTX_free(x);
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(1);
    pk_init();
    gkk = BN_new();
    for (int i = 0; i < NPK; i++) {
        use(&PK[i]);
        for (int d = 0; d < NV; d++) MC_CASE("%s sign, private key %d", N, d) { sign_values(d); mc_outcome("signatures satisfy the equation"); }
        MC_CASE("%s nonces out of range or giving r = 0 or s = 0", N) { sign_retry(); mc_outcome("retried"); }
        for (int d = 0; d < NV; d++) MC_CASE("%s verify edge values, private key %d", N, d) { verify_edges(d); mc_outcome("verified as the equation says"); mc_sample("%s: r,s edge pairs for key %d", N, d); }
        for (int part = 0; part < 8; part++) MC_CASE("%s single-bit alterations %d", N, part) flips(part, 8);
        MC_CASE("%s lengths", N) { lengths(); mc_outcome("other lengths refused"); }
        for (int part = 0; part < 6; part++) MC_CASE("%s digest and sign %d", N, part) {
            gd = val(6); gk = pk_new(S, gd);
            EC_POINT *Q = ec_mul(S->c, gd, NULL);
            gpub = pk_wrap(S, NULL, Q);
            static const size_t ln[] = { 0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 128, 200 };
            fill(msg, 300, 9);
            for (int j = part; j < 12; j += 6) if (mc_thorough || i % 7 == 0 || j < 3 || j == 10) { gn = ln[j]; mc_explore(dsign, NULL); }
            if (part == 0) {
                static const char *mds[] = { "md_gost94", "md_gost12_256", "md_gost12_512", "gost-mac", "magma-mac", "SHA256", "SHA512", "MD5" };
                for (int j = 0; j < 8; j++) for (int v = 0; v < 2; v++) {
                    const EVP_MD *md = j < 5 ? eng_digest(mds[j]) : EVP_get_digestbyname(mds[j]);
                    int ok = !strcmp(mds[j], dname());
                    EVP_MD_CTX *m = EVP_MD_CTX_new();
                    int r = v ? EVP_DigestVerifyInit(m, NULL, md, E, gk) : EVP_DigestSignInit(m, NULL, md, E, gk);
                    mc_n_execs++;
                    if ((r == 1) != ok) mc_fail(mc_fmt("digest-type:%s:%s", S->tname, mds[j]), "%s with %s returns %d", v ? "verification" : "signing", mds[j], r);
                    ERR_clear_error();
                    EVP_MD_CTX_free(m);
                }
            }
            EVP_PKEY_free(gk); EVP_PKEY_free(gpub); EC_POINT_free(Q); BN_free(gd);
        }
        if (i == 0 || i == 8 || i == NPK - 1 || mc_thorough) MC_CASE("%s histories of one context", N) {
            gd = val(6); gk = pk_new(S, gd);
            EC_POINT *Q = ec_mul(S->c, gd, NULL);
            gpub = pk_wrap(S, NULL, Q);
            for (int w = 0; w < 2; w++) { BIGNUM *k = val(12 + w), *s = val(14 + w); if (!craft(gd, k, s, hsig[w], hdg[w])) mc_internal("craft"); BN_free(k); BN_free(s); }
            mc_explore(hist, NULL);
            EVP_PKEY_free(gk); EVP_PKEY_free(gpub); EC_POINT_free(Q); BN_free(gd);
        }
    }
    return mc_finish();
}
