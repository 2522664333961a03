/* P09: key agreement (VKO, KEG) equals the standard, in both directions, for every UKM. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "pk.h"
extern int VKO_compute_key(unsigned char *shared_key, const EC_POINT *pub_key, const EC_KEY *priv_key, const unsigned char *ukm, const size_t ukm_size, const int vko_dgst_nid);
static pkset *S;
static char N[128];
static const BIGNUM *q;
static void use(pkset *s) { S = s; q = s->c->q; snprintf(N, sizeof N, "%s", pk_name(s)); }
static BIGNUM *val(int i)
{
    BIGNUM *b = BN_new();
    u8 x[64];
    switch (i) {
    case 0: fill(x, 64, 77); BN_bin2bn(x, S->c->size, b); BN_mod(b, b, q, ecbn); break;
    case 1: BN_one(b); break;
    case 2: BN_sub(b, q, BN_value_one()); break;
    case 3: BN_set_word(b, 2); break;
    case 4: BN_rshift1(b, q); break;
    case 5: BN_lshift(b, BN_value_one(), S->c->size * 8 - 17); break;
    default: fill(x, 64, 70 + i); BN_bin2bn(x, S->c->size, b); BN_mod(b, b, q, ecbn);
    }
    return b;
}
#define NV 7
/* UKM classes of n bytes; 0 when there is no such */
static int ukmv(int i, u8 *u, size_t n)
{
    BIGNUM *b = NULL;
    memset(u, 0, n);
    switch (i) {
    case 0: fill(u, n, 40); break;
    case 1: break;                              /* zero */
    case 2: u[0] = 1; break;                    /* one, little endian */
    case 3: u[n - 1] = 1; break;
    case 4: memset(u, 0xff, n); break;
    case 5: if (n < 2) return 0; fill(u, n, 41); u[n - 1] = 0; break;
    case 6: if (n < 2) return 0; fill(u, n, 42); u[0] = 0; break;
    case 7: if (n < 8) return 0; fill(u, n, 43); memset(u, 0, n / 2); break;
    case 8: if (n < 8) return 0; fill(u, n, 44); memset(u + n / 2, 0, n - n / 2); break;
    case 9: case 10: case 11:                   /* around the order */
        b = BN_dup(q);
        if (i == 10) BN_add_word(b, 1); else if (i == 11) BN_sub_word(b, 1);
        if (BN_num_bytes(b) > (int)n) { BN_free(b); return 0; }
        BN_bn2lebinpad(b, u, n);
        BN_free(b);
        break;
    case 12: u[0] = 0x80; break;
    case 13: if (n < 24) return 0; u[n - 16] = 1; break;    /* only the second half set */
    case 14: if (n < 16) return 0; u[15] = 1; break;
    case 15: if (n < 16) return 0; fill(u, n, 45); memset(u, 0, 8); break;           /* the first word of the first half is zero */
    case 16: if (n < 16) return 0; fill(u, n, 46); memset(u + 8, 0, 8); break;
    default:                                    /* a single byte of the UKM set */
        if (i - 17 >= (int)n) return 0;
        u[i - 17] = 0xa5;
    }
    return 1;
}
#define NU (17 + 32)
enum { M_VKO256, M_VKO512, M_LEGACY, M_KEG };
static const char *MN[] = { "VKO-256", "VKO-512", "VKO with default digest", "KEG" };
static int expect(int mode, const BIGNUM *d, const EC_POINT *Q, const u8 *u, size_t n, u8 *out)
{
    switch (mode) {
    case M_VKO256: return ref_vko(S, Q, d, u, n, NID_id_GostR3411_2012_256, out) ? 32 : 0;
    case M_VKO512: return ref_vko(S, Q, d, u, n, NID_id_GostR3411_2012_512, out) ? 64 : 0;
    case M_LEGACY: return ref_vko(S, Q, d, u, 8, S->dgst == NID_id_GostR3411_94 ? S->dgst : NID_id_GostR3411_2012_256, out) ? 32 : 0;
    default: return S->type == NID_id_GostR3410_2001 ? 0 : ref_keg(S, Q, d, u, out) ? 64 : 0;
    }
}
static const char *hexs(const u8 *u, size_t n) { static char b[140]; for (size_t i = 0; i < n; i++) sprintf(b + 2 * i, "%02x", u[i]); b[2 * n] = 0; return b; }
static int setup(EVP_PKEY_CTX *x, int mode, const u8 *u, size_t n, int str)
{
    u8 t[64];
    int r;
    memcpy(t, u, n);
    r = str ? EVP_PKEY_CTX_ctrl_str(x, "ukmhex", hexs(u, n)) : EVP_PKEY_CTX_ctrl(x, -1, EVP_PKEY_OP_DERIVE, EVP_PKEY_CTRL_SET_IV, n, t);
    memset(t, 0xcc, 64);
    if (r != 1) return 0;
    if (mode == M_VKO256 || mode == M_VKO512)
        r = str ? EVP_PKEY_CTX_ctrl_str(x, "vko", mode == M_VKO256 ? "256" : "512") : EVP_PKEY_CTX_ctrl(x, -1, EVP_PKEY_OP_DERIVE, EVP_PKEY_CTRL_SET_VKO, mode == M_VKO256 ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_2012_512, NULL);
    return r == 1;
}
/* derive and compare; returns 1 if a value was produced */
static void derive(EVP_PKEY *mine, EVP_PKEY *peer, int mode, const u8 *u, size_t n, int want, const u8 *exp, int str, const char *dir)
{
    EVP_PKEY_CTX *x = pk_ctx(mine);
    size_t l = 0, l2;
    mc_n_execs++; mc_trans(4);
    if (EVP_PKEY_derive_init(x) != 1 || EVP_PKEY_derive_set_peer(x, peer) != 1) mc_fail(mc_fmt("set-peer:%s", S->tname), "peer refused");
    if (!setup(x, mode, u, n, str)) mc_fail(mc_fmt("set-ukm:%s", S->tname), "UKM of %zu bytes or mode refused", n);
    int r = EVP_PKEY_derive(x, NULL, &l);
    if (want && (r != 1 || l != (size_t)want)) mc_fail(mc_fmt("size-query:%s:%s", S->tname, MN[mode]), "size query returns %d, %zu, but %d bytes are produced", r, l, want);
    if (l > 200) mc_fail(mc_fmt("size-query:%s:%s", S->tname, MN[mode]), "size query says %zu", l);
    u8 *o = malloc(l ? l : 64);
    l2 = l ? l : 64;
    r = EVP_PKEY_derive(x, o, &l2);
    if ((r == 1) != !!want) mc_fail(mc_fmt("%s:%s:%s", want ? "derive-fails" : "derives-anyway", N, MN[mode]), "%s: UKM %s: derivation returns %d, the standard has %s", dir, mc_hex(u, n), r, want ? "a value" : "none");
    if (want && (l2 != (size_t)want || memcmp(o, exp, want))) mc_fail(mc_fmt("wrong-value:%s:%s", N, MN[mode]), "%s: UKM %s: got %s expected %s", dir, mc_hex(u, n), mc_hex(o, l2), mc_hex(exp, want));
    free(o);
    EVP_PKEY_CTX_free(x);
    ERR_clear_error();
}
static void values(int da, int db)
{
    BIGNUM *a = val(da), *b = val(db);
    EC_POINT *A = ec_mul(S->c, a, NULL), *B = ec_mul(S->c, b, NULL);
    EVP_PKEY *ka = pk_wrap(S, a, A), *kb = pk_wrap(S, b, B), *pa = pk_wrap(S, NULL, A), *pb = pk_wrap(S, NULL, B);
    EC_KEY *ea = EVP_PKEY_get0(ka); const EC_POINT *eb = EC_KEY_get0_public_key(EVP_PKEY_get0(kb));
    u8 u[80], e[64], e2[64], o[64];
    for (int mode = 0; mode < 4; mode++) for (int c = 0; c < NU; c++) {
        static const int sizes[] = { 8, 32, 16, 1, 2, 9, 17, 24, 31 };
        for (int k = 0; k < 9; k++) {
            size_t n = sizes[k];
            if (mode == M_LEGACY ? n != 8 : mode == M_KEG ? n != 32 : n > 32) continue;
            if (!mc_thorough && k > 2 && (da || db || c > 4)) continue;
            if (!mc_thorough && c > 16 && (da || db)) continue;
            if (!ukmv(c, u, n)) continue;
            mc_reset_trace(); mc_op("%s keys %d,%d UKM class %d of %zu bytes", MN[mode], da, db, c, n);
            int want = expect(mode, a, B, u, n, e);
            derive(ka, pb, mode, u, n, want, e, 0, "A with B's public key");
            if (want && (da <= db)) {
                if (expect(mode, b, A, u, n, e2) != want || memcmp(e, e2, want)) mc_internal("oracle not symmetric");
                derive(kb, pa, mode, u, n, want, e, c & 1, "B with A's public key");
            }
            mc_count(want ? "agreed" : "undefined", 1);
        }
    }
    /* the internal entry with longer UKM and every digest */
    if (da < 2 && db < 2) for (int c = 0; c < NU; c++) for (size_t n = 1; n <= 66; n += n < 40 ? 1 : 5) for (int m = 0; m < 3; m++) {
        int md = m == 0 ? NID_id_GostR3411_94 : m == 1 ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_2012_512, want = m == 2 ? 64 : 32;
        if (m && (n % 5 != 3) && !mc_thorough) continue;
        if (!ukmv(c, u, n)) continue;
        mc_n_execs++; mc_trans(1);
        if (!ref_vko(S, B, a, u, n, md, e)) want = 0;
        int r = VKO_compute_key(o, eb, ea, u, n, md);
        if (r != want || memcmp(o, e, want)) mc_fail(mc_fmt("wrong-value:%s:internal", N), "UKM of %zu bytes %s digest %d: returns %d", n, mc_hex(u, n), md, r);
        ERR_clear_error();
    }
    EVP_PKEY_free(ka); EVP_PKEY_free(kb); EVP_PKEY_free(pa); EVP_PKEY_free(pb);
    EC_POINT_free(A); EC_POINT_free(B); BN_free(a); BN_free(b);
}
/* every UKM size, missing or unusable parts, room */
static void refuse(EVP_PKEY_CTX *x, const char *what)
{
    size_t l = 64; u8 o[64];
    mc_n_execs++; mc_trans(1);
    mc_op("%s", what);
    int r = EVP_PKEY_derive(x, o, &l);
    if (r == 1) mc_fail(mc_fmt("derives-anyway:%s:%s", S->tname, what), "derivation succeeds %s", what);
    EVP_PKEY_CTX_free(x);
    ERR_clear_error();
    mc_count("refused", 1);
}
static EVP_PKEY_CTX *mk(EVP_PKEY *mine, EVP_PKEY *peer, int mode, const u8 *u, size_t n)
{
    EVP_PKEY_CTX *x = pk_ctx(mine);
    if (EVP_PKEY_derive_init(x) != 1) mc_fail(mc_fmt("derive-init:%s", S->tname), "init fails");
    if (peer) EVP_PKEY_derive_set_peer(x, peer);
    if (n) setup(x, mode, u, n, 0);
    return x;
}
static void refusals(void)
{
    BIGNUM *a = val(0), *b = val(6), *z = BN_new();
    EC_POINT *A = ec_mul(S->c, a, NULL), *B = ec_mul(S->c, b, NULL);
    EVP_PKEY *ka = pk_wrap(S, a, A), *kb = pk_wrap(S, b, B), *pb = pk_wrap(S, NULL, B), *none = pk_wrap(S, NULL, NULL), *pub = pk_wrap(S, NULL, A), *other = NULL, *zero = pk_wrap(S, z, A);
    EVP_PKEY *bare = EVP_PKEY_new();
    u8 u[64], e[64];
    fill(u, 64, 3);
    for (int mode = 0; mode < 4; mode++) {
        size_t n = mode == M_LEGACY ? 8 : 32;
        mc_reset_trace(); mc_op("%s:", MN[mode]);
        refuse(mk(ka, NULL, mode, u, n), "without peer key");
        refuse(mk(ka, pb, mode, u, 0), "without UKM");
        refuse(mk(ka, none, mode, u, n), "with a peer that has no public key");
        refuse(mk(pub, pb, mode, u, n), "without a private key");
        refuse(mk(none, pb, mode, u, n), "with parameters only");
        refuse(mk(zero, pb, mode, u, n), "with a private key of zero");
        if (mode == M_KEG && S->type == NID_id_GostR3410_2001) refuse(mk(ka, pb, mode, u, n), "KEG with a 2001 key");
    }
    /* a peer on another curve, of another type, or of another algorithm */
    for (int i = 0; i < NPK; i++) {
        if (PK[i].c->nid == S->c->nid && PK[i].type == S->type) continue;
        EC_POINT *O = ec_mul(PK[i].c, BN_value_one(), NULL);
        other = pk_wrap(&PK[i], NULL, O);
        mc_reset_trace(); mc_op("peer %s", pk_name(&PK[i]));
        for (int mode = 0; mode < 4; mode++) {
            EVP_PKEY_CTX *x = mk(ka, other, mode, u, mode == M_LEGACY ? 8 : 32);
            refuse(x, "with a peer on another curve or of another type");
        }
        EVP_PKEY_free(other); EC_POINT_free(O);
    }
    {
        EC_KEY *p256 = EC_KEY_new_by_curve_name(NID_X9_62_prime256v1);
        EC_KEY_generate_key(p256);
        other = EVP_PKEY_new();
        EVP_PKEY_assign(other, EVP_PKEY_EC, p256);
        mc_reset_trace();
        for (int mode = 0; mode < 4; mode++) refuse(mk(ka, other, mode, u, mode == M_LEGACY ? 8 : 32), "with an EC peer key");
        EVP_PKEY_free(other);
    }
    EVP_PKEY_set_type(bare, S->type);
    EVP_PKEY_CTX *bx = EVP_PKEY_CTX_new(bare, E);
    if (bx) { if (EVP_PKEY_derive_init(bx) == 1) { EVP_PKEY_CTX_ctrl(bx, -1, -1, EVP_PKEY_CTRL_SET_IV, 32, u); refuse(bx, "with an empty key"); } else EVP_PKEY_CTX_free(bx); }
    /* UKM sizes */
    for (int n = -1; n <= 40; n++) {
        EVP_PKEY_CTX *x = mk(ka, pb, 0, u, 0);
        mc_reset_trace(); mc_op("UKM of %d bytes", n);
        u8 *t = malloc(n > 0 ? n : 1);
        memcpy(t, u, n > 0 ? n : 0);
        int r = EVP_PKEY_CTX_ctrl(x, -1, -1, EVP_PKEY_CTRL_SET_IV, n, t);
        free(t);
        if ((n < 0 || n > 32) && r == 1) mc_fail(mc_fmt("ukm-size:%s", S->tname), "UKM of %d bytes accepted", n);
        if (n != 8 && n != 32) refuse(x, "with a UKM of a size that has no meaning");
        else EVP_PKEY_CTX_free(x);
        char h[200];
        if (n > 0) {
            x = mk(ka, pb, 0, u, 0);
            for (int i = 0; i < n; i++) sprintf(h + 2 * i, "%02X", u[i]);
            r = EVP_PKEY_CTX_ctrl_str(x, "ukmhex", h);
            if (n > 32 && r == 1) mc_fail(mc_fmt("ukm-size:%s", S->tname), "hexadecimal UKM of %d bytes accepted", n);
            h[2 * n - 1] = 'g';
            if (EVP_PKEY_CTX_ctrl_str(x, "ukmhex", h) == 1) mc_fail(mc_fmt("ukm-hex:%s", S->tname), "bad hexadecimal UKM accepted");
            EVP_PKEY_CTX_free(x);
        }
    }
    static const char *vk[] = { "0", "255", "257", "512x", "-1", "", "64", "2560" };
    for (int i = 1; i < 8; i++) {
        EVP_PKEY_CTX *x = mk(ka, pb, 0, u, 0);
        int r = EVP_PKEY_CTX_ctrl_str(x, "vko", vk[i]);
        if (r == 1 && i != 3 && i != 5) mc_fail(mc_fmt("vko-mode:%s", S->tname), "mode \"%s\" accepted", vk[i]);
        EVP_PKEY_CTX_free(x);
    }
    { EVP_PKEY_CTX *x = mk(ka, pb, 0, u, 0); if (EVP_PKEY_CTX_ctrl(x, -1, -1, EVP_PKEY_CTRL_SET_VKO, NID_id_GostR3411_94, NULL) == 1 || EVP_PKEY_CTX_ctrl(x, -1, -1, EVP_PKEY_CTRL_SET_VKO, NID_sha256, NULL) == 1) mc_fail(mc_fmt("vko-mode:%s", S->tname), "digest accepted"); EVP_PKEY_CTX_free(x); }
    /* room */
    for (int mode = 0; mode < 4; mode++) {
        int want = expect(mode, a, B, u, mode == M_LEGACY ? 8 : 32, e);
        if (want) for (size_t n = 0; n < 70; n++) {
            EVP_PKEY_CTX *x = mk(ka, pb, mode, u, mode == M_LEGACY ? 8 : 32);
            u8 *o = malloc(n ? n : 1);
            size_t l = n;
            mc_reset_trace(); mc_op("%s into %zu bytes", MN[mode], n);
            int r = EVP_PKEY_derive(x, o, &l);
            mc_n_execs++;
            if (n < (size_t)want ? r == 1 : r != 1 || l != (size_t)want || memcmp(o, e, want)) mc_fail(mc_fmt("room:%s:%s", S->tname, MN[mode]), "deriving into %zu bytes returns %d, length %zu", n, r, l);
            free(o); EVP_PKEY_CTX_free(x); ERR_clear_error();
        }
    }
    EVP_PKEY_free(ka); EVP_PKEY_free(kb); EVP_PKEY_free(pb); EVP_PKEY_free(none); EVP_PKEY_free(pub); EVP_PKEY_free(zero); EVP_PKEY_free(bare);
    EC_POINT_free(A); EC_POINT_free(B); BN_free(a); BN_free(b); BN_free(z);
}
/* one context, reconfigured: every sequence */
static EVP_PKEY *hk, *hp[2]; static BIGNUM *hd; static EC_POINT *hQ[2];
static void hist(void *v)
{
    EVP_PKEY_CTX *x = pk_ctx(hk), *y;
    int mode = M_KEG, peer = -1, usize = 0, cur = 0;
    u8 u[3][32], e[64], o[64];
    fill(u[0], 32, 50); fill(u[1], 32, 51); memset(u[2], 0, 32);
    mc_reset_trace();
    if (EVP_PKEY_derive_init(x) != 1) mc_fail(mc_fmt("derive-init:%s", S->tname), "init fails");
    for (int i = 0; i < (mc_thorough ? 5 : 4); i++) {
        int op = mc_choose(8);
        mc_trans(1);
        switch (op) {
        case 0: case 1: mc_op("peer%d", op); peer = op; if (EVP_PKEY_derive_set_peer(x, hp[op]) != 1) mc_fail(mc_fmt("set-peer:%s", S->tname), "peer refused"); break;
        case 2: case 3: case 4: mc_op("ukm%d", op); usize = op == 3 ? 8 : 32; cur = op - 2; if (EVP_PKEY_CTX_ctrl(x, -1, -1, EVP_PKEY_CTRL_SET_IV, usize, u[cur]) != 1) mc_fail(mc_fmt("set-ukm:%s", S->tname), "UKM refused"); break;
        case 5: mode = mode == M_KEG ? M_VKO256 : mode == M_VKO256 ? M_VKO512 : M_KEG; mc_op("mode %s", MN[mode]);
            if (EVP_PKEY_CTX_ctrl(x, -1, -1, EVP_PKEY_CTRL_SET_VKO, mode == M_KEG ? 0 : mode == M_VKO256 ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_2012_512, NULL) != 1) mc_fail(mc_fmt("vko-mode:%s", S->tname), "mode refused");
            break;
        case 6: mc_op("dup"); y = EVP_PKEY_CTX_dup(x); if (!y) mc_fail(mc_fmt("dup:%s", S->tname), "dup fails"); EVP_PKEY_CTX_free(x); x = y; break;
        case 7: mc_op("init"); EVP_PKEY_derive_init(x); break;
        }
        /* whatever happened, derive now */
        size_t l = 64;
        int m = mode == M_KEG && usize == 8 ? M_LEGACY : mode;
        int r = EVP_PKEY_derive(x, o, &l);
        int want = 0;
        if (peer >= 0 && usize) {
            int new; u8 key[8] = { m, peer, usize, cur }; struct { void *p; u8 k[8]; } kk; memset(&kk, 0, sizeof kk); kk.p = S; memcpy(kk.k, key, 8);
            u8 *s = mc_memo(&kk, sizeof kk, 65, &new);
            if (new) { memset(s, 0, 65); s[64] = expect(m, hd, hQ[peer], u[cur], usize, s); }
            want = s[64]; memcpy(e, s, 64);
        }
        if (r != 1 && op == 7 && want) break;   /* an init may forget everything */
        if (r != 1 && i && want) { /* after an init inside the history the settings may be gone */ }
        if ((r == 1) != !!want || (want && (l != (size_t)want || memcmp(o, e, want)))) mc_fail(mc_fmt("history:%s", S->tname), "derivation returns %d (%s), expected %s", r, mc_hex(o, 8), want ? mc_hex(e, 8) : "failure");
        mc_n_execs++;
    }
    EVP_PKEY_CTX_free(x);
    ERR_clear_error();
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(1);
    pk_init();
    for (int i = 0; i < NPK; i++) {
        use(&PK[i]);
        for (int a = 0; a < NV; a++) for (int b = 0; b < NV; b++) {
            if (!mc_thorough && a && b && a != b && b != 6) continue;
            MC_CASE("%s keys %d and %d", N, a, b) { values(a, b); mc_outcome("%s: both sides derive the standard's value", S->tname); mc_sample("%s keys %d,%d: every UKM class", N, a, b); }
        }
        MC_CASE("%s refusals", N) { refusals(); mc_outcome("unusable inputs refused"); }
        if (i == 0 || i == 7 || i == NPK - 1 || mc_thorough) MC_CASE("%s histories", N) {
            hd = val(0); hk = pk_new(S, hd);
            for (int w = 0; w < 2; w++) { BIGNUM *b = val(8 + w); hQ[w] = ec_mul(S->c, b, NULL); hp[w] = pk_wrap(S, NULL, hQ[w]); BN_free(b); }
            mc_explore(hist, NULL);
            EVP_PKEY_free(hk); BN_free(hd);
            for (int w = 0; w < 2; w++) { EVP_PKEY_free(hp[w]); EC_POINT_free(hQ[w]); }
        }
    }
    return mc_finish();
}
