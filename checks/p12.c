/* P12: randomness: key ranges and failures of the random generator. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "pk.h"
#include "aead.h"
static pkset *S;
static char N[128];
static void use(pkset *s) { S = s; snprintf(N, sizeof N, "%s", pk_name(s)); }
static uint64_t stream_seed = 0x243F6A8885A308D3ull;
static void rng_set(void) { rng_reset(RNG_STREAM); rng.s = stream_seed; }
/* the generated key is a key of this curve */
static void check_key(EVP_PKEY *k, BIGNUM *dout, const char *how)
{
    EC_KEY *e = EVP_PKEY_get0(k);
    if (EVP_PKEY_base_id(k) != S->type) mc_fail(mc_fmt("key-type:%s:%s", N, how), "generated key has type %s", OBJ_nid2sn(EVP_PKEY_base_id(k)));
    const BIGNUM *d = e ? EC_KEY_get0_private_key(e) : NULL;
    if (!d || !EC_KEY_get0_public_key(e)) mc_fail(mc_fmt("no-key:%s", how), "success without a key (%s)", N);
    if (EC_GROUP_get_curve_name(EC_KEY_get0_group(e)) != S->c->nid) mc_fail(mc_fmt("key-curve:%s:%s", N, how), "key is on curve %s", OBJ_nid2sn(EC_GROUP_get_curve_name(EC_KEY_get0_group(e))));
    if (BN_is_zero(d) || BN_is_negative(d) || BN_cmp(d, S->c->q) >= 0) mc_fail(mc_fmt("key-range:%s:%s", N, how), "private key %s is out of range", bnh(d));
    BIGNUM *dd = BN_dup(d);
    struct rng_state sv = rng; rng_reset(RNG_STREAM);
    EC_POINT *Q = ec_mul(S->c, dd, NULL);
    if (!ec_eq(S->c, Q, EC_KEY_get0_group(e), EC_KEY_get0_public_key(e))) mc_fail(mc_fmt("key-pair:%s:%s", N, how), "public key does not match private key %s", bnh(d));
    rng = sv;
    EC_POINT_free(Q);
    if (dout) BN_copy(dout, dd);
    BN_free(dd);
    mc_count("keys_checked", 1);
}
/* how: 0 keygen with paramset ctrl, 1 keygen from a key with the parameters, 2 paramgen then keygen, 3 paramset by name */
static const char *setname(void)
{
    static const struct { int nid; const char *n; } T[] = {
        { NID_id_GostR3410_2001_CryptoPro_A_ParamSet, "A" }, { NID_id_GostR3410_2001_CryptoPro_B_ParamSet, "b" }, { NID_id_GostR3410_2001_CryptoPro_C_ParamSet, "C" },
        { NID_id_GostR3410_2001_CryptoPro_XchA_ParamSet, "XA" }, { NID_id_GostR3410_2001_CryptoPro_XchB_ParamSet, "xb" }, { NID_id_GostR3410_2001_TestParamSet, "0" },
        { NID_id_tc26_gost_3410_2012_256_paramSetA, "TCA" }, { NID_id_tc26_gost_3410_2012_256_paramSetB, "tcb" }, { NID_id_tc26_gost_3410_2012_256_paramSetC, "TCC" }, { NID_id_tc26_gost_3410_2012_256_paramSetD, "TcD" },
        { NID_id_tc26_gost_3410_2012_512_paramSetA, "A" }, { NID_id_tc26_gost_3410_2012_512_paramSetB, "B" }, { NID_id_tc26_gost_3410_2012_512_paramSetC, "c" }, { NID_id_tc26_gost_3410_2012_512_paramSetTest, NULL } };
    for (unsigned i = 0; i < sizeof T / sizeof *T; i++) if (T[i].nid == S->c->nid) return T[i].n;
    return NULL;
}
static int keygen(int how, EVP_PKEY **out)
{
    EVP_PKEY_CTX *x, *y;
    EVP_PKEY *tmpl = NULL;
    int r = 0;
    *out = NULL;
    if (how == 0 || how == 3 || how == 4) {
        x = EVP_PKEY_CTX_new_id(S->type, E);
        if (EVP_PKEY_keygen_init(x) == 1) {
            int c;
            if (how == 0) c = EVP_PKEY_CTX_ctrl(x, S->type, EVP_PKEY_OP_KEYGEN, EVP_PKEY_CTRL_GOST_PARAMSET, S->c->nid, NULL);
            else c = EVP_PKEY_CTX_ctrl_str(x, "paramset", how == 3 && setname() ? setname() : OBJ_nid2sn(S->c->nid));
            if (c != 1 && how == 4 && !strncmp(S->c->name, "id-tc26", 7)) { EVP_PKEY_CTX_free(x); return -1; }    /* these have one-letter names only */
            if (c != 1) mc_fail(mc_fmt("paramset:%s:%d", N, how), "paramset refused");
            r = EVP_PKEY_keygen(x, out);
        }
    } else {
        if (how == 1) tmpl = pk_wrap(S, NULL, NULL);
        else {
            y = EVP_PKEY_CTX_new_id(S->type, E);
            if (EVP_PKEY_paramgen_init(y) != 1 || EVP_PKEY_CTX_ctrl(y, S->type, EVP_PKEY_OP_PARAMGEN, EVP_PKEY_CTRL_GOST_PARAMSET, S->c->nid, NULL) != 1 || EVP_PKEY_paramgen(y, &tmpl) != 1)
                mc_fail(mc_fmt("paramgen:%s", N), "paramgen fails");
            EVP_PKEY_CTX_free(y);
        }
        x = EVP_PKEY_CTX_new(tmpl, E);
        r = EVP_PKEY_keygen_init(x) == 1 ? EVP_PKEY_keygen(x, out) : 0;
    }
    EVP_PKEY_free(tmpl);
    EVP_PKEY_CTX_free(x);
    ERR_clear_error();
    mc_trans(1);
    return r == 1;
}
static int special(void) { int n = BN_num_bits(S->c->q); return !BN_is_bit_set(S->c->q, n - 2) && !BN_is_bit_set(S->c->q, n - 3); }
static BIGNUM *draw(int i)
{
    BIGNUM *b = BN_new();
    const BIGNUM *q = S->c->q;
    u8 x[64];
    switch (i) {
    case 0: BN_zero(b); break;
    case 1: BN_copy(b, q); break;
    case 2: BN_copy(b, q); BN_add_word(b, 1); break;
    case 3: BN_set_bit(b, BN_num_bits(q)); BN_sub_word(b, 1); break;
    case 4: BN_one(b); break;
    case 5: BN_copy(b, q); BN_sub_word(b, 1); break;
    case 6: BN_set_word(b, 2); break;
    case 7: BN_lshift(b, BN_value_one(), S->c->size * 8 - 20); break;
    case 8: fill(x, 64, 99); BN_bin2bn(x, S->c->size, b); BN_mod(b, b, q, ecbn); break;
    case 9: BN_set_bit(b, BN_num_bits(q) + 1); BN_sub_word(b, 1); break;  /* only drawn where one more bit is drawn */
    case 10: BN_copy(b, q); BN_add_word(b, 2); BN_lshift1(b, b); break;
    }
    return b;
}
#define ND 11
static void gen_exp(void *u)
{
    /* up to three scripted draws, then the stream */
    u8 raw[400]; size_t n = 0;
    int how = *(int *)u, nd = how ? 2 : S->c->size == 32 ? 3 : 2, first = -1;
    mc_reset_trace();
    rng_set();
    BIGNUM *f = NULL, *d = BN_new();
    for (int i = 0; i < nd + mc_thorough; i++) {
        int k = mc_choose(ND);
        if (!i) first = k;
        if (k >= 9 && !special()) k -= 8;
        BIGNUM *b = draw(k);
        mc_op("draw %s", bnh(b));
        n += rng_bn(S, b, raw + n);
        if (!i) f = b; else BN_free(b);
    }
    rng_set();
    rng.script = raw; rng.script_len = n;
    EVP_PKEY *k;
    int r = keygen(how, &k);
    rng_set();
    mc_n_execs++;
    if (r < 0) { BN_free(f); BN_free(d); return; }
    if (!r) mc_fail(mc_fmt("keygen-fails:%s:%d", N, how), "key generation fails with a working generator");
    check_key(k, d, "keygen");
    if (!special() && first >= 1 && first <= 3) { BN_mod(f, f, S->c->q, ecbn); if (BN_num_bits(f) > 8 && !BN_cmp(f, d)) mc_fail(mc_fmt("reduced-draw:%s", N), "an out-of-range draw is reduced and used as key"); }
    BN_free(f); BN_free(d);
    EVP_PKEY_free(k);
}
/* ---- failures: every operation that needs randomness, with the components that must be random */
enum { O_KEYGEN, O_KEYGEN_T, O_SIGN, O_DSIGN, O_KT, O_KT_PEER, O_PST_M, O_PST_K, O_PST_UKM, O_SEED_M, O_SEED_K, NO };
static const char *ON[] = { "keygen", "keygen from parameters", "sign", "digest-sign", "key transport", "key transport with own key", "2018 transport magma", "2018 transport kuznyechik", "2018 transport, given UKM", "magma-ctr-acpkm-omac", "kuznyechik-ctr-acpkm-omac" };
typedef struct { int n; u8 v[4][200]; size_t l[4]; } comps;
static void comp(comps *c, const void *p, size_t n) { memcpy(c->v[c->n], p, n); c->l[c->n++] = n; }
static void compbn(comps *c, const BIGNUM *b) { u8 x[80]; BN_bn2binpad(b, x, 80); comp(c, x, 80); }
static EVP_PKEY *RK, *RP, *AK; static BIGNUM *RD, *AD_;
static u8 sk[32];
static int dosign(int o, comps *c)
{
    u8 dg[64], sig[128]; size_t l = 2 * S->c->size;
    BIGNUM *r = BN_new(), *s = BN_new(), *k = BN_new();
    int ok;
    memset(dg, 0, 64); fill(dg, S->c->size, 12);
    if (o == O_SIGN) {
        EVP_PKEY_CTX *x = pk_ctx(RK);
        ok = EVP_PKEY_sign_init(x) == 1 && EVP_PKEY_sign(x, sig, &l, dg, S->c->size) == 1;
        EVP_PKEY_CTX_free(x);
    } else {
        EVP_MD_CTX *m = EVP_MD_CTX_new();
        ok = EVP_DigestSignInit(m, NULL, NULL, E, RK) == 1 && EVP_DigestSignUpdate(m, "abc", 3) == 1 && EVP_DigestSignFinal(m, sig, &l) == 1;
        if (S->dgst == NID_id_GostR3411_94) ref_h94cp((u8 *)"abc", 3, dg); else ref_streebog(S->c->size * 8, (u8 *)"abc", 3, dg);
        EVP_MD_CTX_free(m);
    }
    if (ok) {
        struct rng_state sv = rng; rng_reset(RNG_STREAM);
        sig_unpack(S, sig, r, s);
        if (!ref_nonce(S, RD, dg, S->c->size, r, s, k)) mc_fail(mc_fmt("bad-signature:%s", S->tname), "success with a wrong signature");
        rng = sv;
        compbn(c, k);
    }
    BN_free(r); BN_free(s); BN_free(k);
    return ok;
}
static int dokt(int o, comps *c)
{
    u8 out[600], raw[600]; size_t l = sizeof out;
    int is18 = o != O_KT && o != O_KT_PEER;
    EVP_PKEY_CTX *x = pk_ctx(RP);
    int ok = EVP_PKEY_encrypt_init(x) == 1;
    if (is18 && EVP_PKEY_CTX_ctrl(x, -1, -1, EVP_PKEY_CTRL_CIPHER, o == O_PST_K ? NID_kuznyechik_ctr : NID_magma_ctr, NULL) != 1) mc_fail(mc_fmt("cipher-ctrl:%s", S->tname), "cipher refused");
    if (o == O_KT_PEER && EVP_PKEY_derive_set_peer(x, AK) != 1) { EVP_PKEY_CTX_free(x); return 0; }
    if (o == O_PST_UKM) { u8 u[32]; fill(u, 32, 4); EVP_PKEY_CTX_ctrl(x, -1, -1, EVP_PKEY_CTRL_SET_IV, 32, u); }
    memset(out, 0, sizeof out);
    int r = ok ? EVP_PKEY_encrypt(x, out, &l, sk, 32) : 0;
    EVP_PKEY_CTX_free(x);
    if (r != 1) return 0;
    memcpy(raw, out, l);
    ktrans t;
    struct rng_state sv = rng; rng_reset(RNG_STREAM);
    if (!kt_parse(S, is18, raw, l, &t)) mc_fail(mc_fmt("bad-transport:%s", S->tname), "success with an ill-formed result");
    /* it decrypts */
    u8 u[64], w[64];
    if (is18) {
        u8 ex[160];
        if (!ref_keg(S, t.eph, RD, t.ukm, u)) mc_fail(mc_fmt("bad-transport:%s", S->tname), "no shared key");
        ref_kexp15(o == O_PST_K ? BC_KUZ : BC_MAGMA, u + 32, u, t.ukm + 24, o == O_PST_K ? 8 : 4, sk, 32, ex);
        if (t.enclen != (o == O_PST_K ? 48u : 40u) || memcmp(ex, t.enc, t.enclen)) mc_fail(mc_fmt("bad-transport:%s:2018", S->tname), "success with a wrong key");
    } else {
        sbox_t *sb = S->type == NID_id_GostR3410_2001 ? SBSEL[1].sb : SBSEL[0].sb;
        EC_POINT *pe = o == O_KT_PEER ? ec_mul(S->c, AD_, NULL) : EC_POINT_dup(t.eph, S->c->g);
        if (!ref_vko(S, pe, RD, t.ukm, 8, S->dgst == NID_id_GostR3411_94 ? S->dgst : NID_id_GostR3411_2012_256, u)) mc_fail(mc_fmt("bad-transport:%s", S->tname), "no shared key");
        ref_cp_wrap(u, *sb, t.ukm, sk, w);
        if (memcmp(w + 8, t.enc, 32) || memcmp(w + 40, t.mac, 4)) mc_fail(mc_fmt("bad-transport:%s:cp", S->tname), "success with a wrong key");
        EC_POINT_free(pe);
    }
    rng = sv;
    if (o != O_PST_UKM) comp(c, t.ukm, t.ukmlen);
    if (t.has_eph) { pt_le(S->c, t.eph, raw); comp(c, raw, 2 * S->c->size); EC_POINT_free(t.eph); }
    return 1;
}
static int doseed(int o, comps *c)
{
    const adesc *A = &AD[o == O_SEED_M ? 2 : 3];
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
    u8 iv[16], ct[64], tag[16]; int l;
    fill(iv, 16, 3);
    int ok = EVP_EncryptInit_ex(x, eng_cipher(A->sn), E, sk, iv) == 1 && EVP_CipherUpdate(x, ct, &l, sk, 20) == 1 && EVP_CipherFinal_ex(x, ct + 20, &l) == 1 && omac_get_tag(x, tag, A->taglen);
    if (ok) {
        ASN1_TYPE *t = ASN1_TYPE_new();
        if (EVP_CIPHER_param_to_asn1(x, t) > 0 && t->type == V_ASN1_SEQUENCE) {
            ASN1_STRING *s = t->value.sequence;
            comp(c, s->data + s->length - 8, 8);
        }
        ASN1_TYPE_free(t);
    }
    EVP_CIPHER_CTX_free(x);
    return ok;
}
static int doop(int o, comps *c)
{
    EVP_PKEY *k = NULL; int r = 0;
    c->n = 0;
    mc_trans(1);
    switch (o) {
    case O_KEYGEN: case O_KEYGEN_T:
        r = keygen(o == O_KEYGEN ? 0 : 1, &k);
        if (r) { BIGNUM *d = BN_new(); check_key(k, d, "rng-failure"); compbn(c, d); BN_free(d); }
        EVP_PKEY_free(k);
        break;
    case O_SIGN: case O_DSIGN: r = dosign(o, c); break;
    case O_KT: case O_KT_PEER: case O_PST_M: case O_PST_K: case O_PST_UKM: r = dokt(o, c); break;
    default: r = doseed(o, c);
    }
    ERR_clear_error();
    return r;
}
static void failures(int o)
{
    comps a, b;
    mc_reset_trace();
    rng_set();
    if (!doop(o, &a)) {
        if (o == O_KT_PEER || S->type == NID_id_GostR3410_2001) return;
        mc_fail(mc_fmt("op-fails:%s", ON[o]), "%s fails with a working generator on %s", ON[o], N);
    }
    long calls = rng.calls;
    mc_count("rng_calls", calls);
    if (a.n == 0) mc_internal("no component");
    for (int sticky = 0; sticky < 2; sticky++) for (int ret = 0; ret >= -1; ret--) for (long i = 1; i <= calls + 1; i++) {
        mc_reset_trace(); mc_op("%s, call %ld of the generator returns %d%s", ON[o], i, ret, sticky ? " and all later ones" : "");
        mc_n_execs++;
        rng_set();
        rng.fail_at = i; rng.fail_sticky = sticky; rng.fail_ret = ret;
        int r = doop(o, &a);
        int hit = rng.calls >= i;
        rng_set();
        if (!hit) { if (!r) mc_fail(mc_fmt("op-fails:%s", ON[o]), "%s fails though the generator did not", ON[o]); continue; }
        if (!r) { mc_outcome("%s: failure reported", ON[o]); continue; }
        /* success: every component must still depend on what the generator returned */
        uint64_t sv = stream_seed;
        stream_seed = 0x123456789ABCDEFull;
        rng_set();
        rng.fail_at = i; rng.fail_sticky = sticky; rng.fail_ret = ret;
        int r2 = doop(o, &b);
        stream_seed = sv;
        rng_set();
        if (!r2) continue;
        for (int j = 0; j < a.n; j++) if (a.l[j] == b.l[j] && !memcmp(a.v[j], b.v[j], a.l[j]))
            mc_fail(mc_fmt("not-random:%s:%d", ON[o], j), "%s succeeds on %s although the generator failed; value %d is the same for other random data: %s", ON[o], N, j, mc_hex(a.v[j], a.l[j]));
        mc_outcome("%s: success with random values", ON[o]);
    }
    /* afterwards everything works */
    rng_set();
    if (!doop(o, &a)) mc_fail(mc_fmt("op-fails-later:%s", ON[o]), "%s fails after a failure", ON[o]);
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(1);
    pk_init();
    fill(sk, 32, 8);
    for (int i = 0; i < NPK; i++) {
        use(&PK[i]);
        for (int how = 0; how < 5; how++) MC_CASE("%s key generation, way %d", N, how) { mc_explore(gen_exp, &how); mc_outcome("keys in range"); mc_sample("%s: draws 0, q, q+1, all ones, then valid", N); }
        for (int o = 0; o < O_SEED_M; o++) MC_CASE("%s %s with failing generator", N, ON[o]) {
            u8 x[64];
            RD = BN_new(); AD_ = BN_new();
            fill(x, 64, 21); BN_bin2bn(x, S->c->size, RD); BN_mod(RD, RD, S->c->q, ecbn);
            fill(x, 64, 22); BN_bin2bn(x, S->c->size, AD_); BN_mod(AD_, AD_, S->c->q, ecbn);
            RK = pk_new(S, RD); AK = pk_new(S, AD_);
            EC_POINT *Q = ec_mul(S->c, RD, NULL);
            RP = pk_wrap(S, NULL, Q);
            failures(o);
            EVP_PKEY_free(RK); EVP_PKEY_free(RP); EVP_PKEY_free(AK); EC_POINT_free(Q); BN_free(RD); BN_free(AD_);
        }
    }
    for (int o = O_SEED_M; o < NO; o++) MC_CASE("%s with failing generator", ON[o]) { use(&PK[0]); failures(o); }
    return mc_finish();
}
