/* P21: the provider against the same reference as the engine. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "aead.h"
#include "cpar.h"
#include "alloc.h"
#include <openssl/provider.h>
#include <openssl/core_names.h>
#include <openssl/params.h>
extern OSSL_provider_init_fn GOST_provider_init;
extern const OSSL_ALGORITHM GOST_prov_ciphers[], GOST_prov_digests[], GOST_prov_macs[];
static OSSL_PROVIDER *PV;
static u8 MS[20000], K[4][32], V[4][16];
static void load(void)
{
    if (!OSSL_PROVIDER_add_builtin(NULL, "gostprov", GOST_provider_init)) mc_internal("add_builtin");
    if (!OSSL_PROVIDER_load(NULL, "default")) mc_internal("default provider");
    if (!(PV = OSSL_PROVIDER_load(NULL, "gostprov"))) { ERR_print_errors_fp(stderr); mc_fail("load", "the provider does not load"); }
}
const EVP_CIPHER *eng_cipher(const char *sn)
{
    static struct { const char *sn; EVP_CIPHER *c; } m[40]; static int n;
    for (int i = 0; i < n; i++) if (!strcmp(m[i].sn, sn)) return m[i].c;
    EVP_CIPHER *c = EVP_CIPHER_fetch(NULL, sn, "provider=gostprov");
    if (!c) c = EVP_CIPHER_fetch(NULL, sn, NULL);
    if (!c) mc_fail(mc_fmt("no-cipher:%s", sn), "the provider does not offer %s", sn);
    m[n].sn = strdup(sn); m[n].c = c; n++;
    return c;
}
const EVP_MD *eng_digest(const char *sn)
{
    static struct { const char *sn; EVP_MD *c; } m[40]; static int n;
    for (int i = 0; i < n; i++) if (!strcmp(m[i].sn, sn)) return m[i].c;
    EVP_MD *c = EVP_MD_fetch(NULL, sn, NULL);
    if (!c) mc_fail(mc_fmt("no-digest:%s", sn), "the provider does not offer %s", sn);
    m[n].sn = strdup(sn); m[n].c = c; n++;
    return c;
}
/* ---------------------------------------------------------------- plain ciphers: histories */
static const cdesc *D;
static EVP_CIPHER_CTX *C; static int depth;
static int kk, vv, enc, started, sec; static u8 acc[6000], want[6000]; static size_t pos, done;
static int set_size(const char *name, size_t v)
{
    OSSL_PARAM p[2] = { OSSL_PARAM_construct_size_t(name, &v), OSSL_PARAM_END };
    return EVP_CIPHER_CTX_set_params(C, p);
}
enum { I_FULL, I_KEYIV, I_IV, I_KEY_IV, I_RESET, I_PARAMS, I_NR };
static const char *const INM[] = { "cipher, key, IV", "key, IV", "IV", "key; IV", "reset; cipher, key, IV", "cipher, key, IV, parameters" };
static void rest(void)
{
    if (D->mode == M_ECB || D->mode == M_CBC) { if (EVP_CIPHER_CTX_set_padding(C, 0) != 1) mc_fail(mc_fmt("padding:%s", D->sn), "padding cannot be switched off"); }
    if (D->acpkm && sec) { if (set_size("key-mesh", sec) != 1) mc_fail(mc_fmt("key-mesh:%s", D->sn), "key-mesh %d refused", sec); }
}
static void init(int how)
{
    const EVP_CIPHER *ci = eng_cipher(D->sn);
    u8 k[32], v[16]; int r = 1;
    if (how != I_IV) kk = (kk + 1) % 3;
    vv = (vv + 1) % 3;
    enc = 1 - mc_choose(2);
    mc_op("init(%s) for %scryption", INM[how], enc ? "en" : "de");
    memcpy(k, K[kk], 32); memcpy(v, V[vv], 16);
    const u8 *iv = D->ivlen ? v : NULL;
    if (how == I_FULL || how == I_RESET || how == I_PARAMS) sec = D->acpkm ? D->bl * 2 : 0;
    size_t s = sec; unsigned pad = 0;
    OSSL_PARAM pp[3], *p = pp;
    if (D->acpkm) *p++ = OSSL_PARAM_construct_size_t("key-mesh", &s);
    if (D->mode == M_ECB || D->mode == M_CBC) *p++ = OSSL_PARAM_construct_uint("padding", &pad);
    *p = OSSL_PARAM_construct_end();
    switch (how) {
    case I_RESET: EVP_CIPHER_CTX_reset(C); /* fall through */
    case I_FULL: r = EVP_CipherInit_ex(C, ci, NULL, k, iv, enc); break;
    case I_PARAMS: r = EVP_CipherInit_ex2(C, ci, k, iv, enc, pp); break;
    case I_KEYIV: r = EVP_CipherInit_ex(C, NULL, NULL, k, iv, enc); break;
    case I_KEY_IV: r = EVP_CipherInit_ex(C, NULL, NULL, k, NULL, enc) == 1 && EVP_CipherInit_ex(C, NULL, NULL, NULL, iv, enc) == 1; break;
    case I_IV: r = EVP_CipherInit_ex(C, NULL, NULL, NULL, iv, enc); break;
    }
    memset(k, 0x5c, 32); memset(v, 0x5c, 16);
    if (r != 1) mc_fail(mc_fmt("init:%s:%s", D->sn, INM[how]), "init(%s) gives %d", INM[how], r);
    if (how != I_PARAMS) rest();
    pos = done = 0; started = 1;
    mc_trans(1);
}
static void expect(void)
{
    cconf f; conf_defaults(&f, D, 1);
    memcpy(f.key, K[kk], 32); memcpy(f.iv, V[vv], D->ivlen); memset(f.iv + D->ivlen, 0, 16 - D->ivlen);
    if (D->acpkm) f.section = sec;
    conf_ref(&f, acc, want, (D->mode == M_ECB || D->mode == M_CBC) ? pos / D->bl * D->bl : pos, enc);
}
static void update(size_t n)
{
    static u8 in[6000], out[6100]; int l = -1;
    int block = D->mode == M_ECB || D->mode == M_CBC;
    mc_op("update(%zu)", n);
    memcpy(in, MS + pos, n); memcpy(acc + pos, in, n);
    memset(out, 0xee, n + 40);
    if (EVP_CipherUpdate(C, out, &l, in, n) != 1) mc_fail(mc_fmt("update:%s", D->sn), "update of %zu bytes at %zu fails", n, pos);
    pos += n;
    size_t upto = block ? pos / D->bl * D->bl : pos;
    expect();
    if (l < 0 || (size_t)l != upto - done) mc_fail(mc_fmt("length:%s", D->sn), "update of %zu bytes at %zu gives %d", n, pos - n, l);
    if (memcmp(out, want + done, l)) { size_t i = 0; while (out[i] == want[done + i]) i++; mc_fail(mc_fmt("wrong:%s", D->sn), "byte %zu: got %02x, expected %02x", done + i, out[i], want[done + i]); }
    for (size_t i = l; i < n + 40; i++) if (out[i] != 0xee) mc_fail(mc_fmt("overrun:%s", D->sn), "update(%zu) gave %d bytes and wrote byte %zu", n, l, i);
    done = upto;
    mc_trans(1);
}
static void final(void)
{
    u8 t[64]; int l = -1;
    int block = D->mode == M_ECB || D->mode == M_CBC;
    mc_op("final");
    int r = EVP_CipherFinal_ex(C, t, &l);
    if (block && pos % D->bl ? r == 1 : r != 1 || l != 0) mc_fail(mc_fmt("final:%s", D->sn), "final after %zu bytes gives %d, %d bytes", pos, r, l);
    started = 0;
    mc_trans(1);
}
static void meta(void)
{
    int stream = D->mode != M_ECB && D->mode != M_CBC;
    mc_op("sizes");
    if (EVP_CIPHER_CTX_block_size(C) != (stream ? 1 : D->bl) || EVP_CIPHER_CTX_iv_length(C) != D->ivlen || EVP_CIPHER_CTX_key_length(C) != 32)
        mc_fail(mc_fmt("sizes:%s", D->sn), "block %d, IV %d, key %d", EVP_CIPHER_CTX_block_size(C), EVP_CIPHER_CTX_iv_length(C), EVP_CIPHER_CTX_key_length(C));
    static const int MODE[] = { EVP_CIPH_ECB_MODE, EVP_CIPH_CBC_MODE, EVP_CIPH_CFB_MODE, EVP_CIPH_OFB_MODE, EVP_CIPH_CTR_MODE, -1 };
    if (MODE[D->mode] >= 0 && D->kind != BC_G89 && EVP_CIPHER_get_mode(eng_cipher(D->sn)) != MODE[D->mode]) mc_fail(mc_fmt("mode:%s", D->sn), "mode %d", EVP_CIPHER_get_mode(eng_cipher(D->sn)));
}
static void dup(int how)
{
    EVP_CIPHER_CTX *n = EVP_CIPHER_CTX_new(); u8 t[200]; int l;
    mc_op("copy, then %s the other", how == 0 ? "free" : how == 1 ? "feed" : "re-key");
    if (EVP_CIPHER_CTX_copy(n, C) != 1) mc_fail(mc_fmt("copy:%s", D->sn), "copy fails");
    EVP_CIPHER_CTX *o = how == 3 ? n : C; if (how == 3) n = C;      /* or keep the original and use up the copy */
    if (how) EVP_CipherUpdate(o, t, &l, MS + 77, 100);
    if (how >= 2) { EVP_CipherInit_ex(o, NULL, NULL, K[3], D->ivlen ? V[3] : NULL, enc); EVP_CipherUpdate(o, t, &l, MS, 64); }
    if (how != 3) { EVP_CIPHER_CTX_free(o); C = n; } else EVP_CIPHER_CTX_free(o);
    if (how == 3) C = n;
    mc_trans(1);
}
static void cseq(void *u)
{
    mc_reset_trace();
    rng_reset(RNG_STREAM);
    EVP_CIPHER_CTX_free(C); C = EVP_CIPHER_CTX_new();
    kk = vv = 0; started = 0; sec = 0;
    init(mc_choose(2) ? I_PARAMS : I_FULL);
    size_t big = D->meshsw ? 1020 : D->bl * 5 + 3, S[] = { 1, D->bl, D->bl + 3, big };
    for (int i = 0; i < depth; i++) {
        int a = mc_choose(12);
        if (!started) { if (a >= I_NR) return; init(a); continue; }
        if (a < 4) update(S[a]);
        else if (a < 8) { if (a == 7 || i == depth - 1) { if (a != 7) return; final(); } else dup(a - 4); }
        else if (a == 8) meta();
        else if (a == 9) init(I_IV);
        else if (a == 10) init(I_KEYIV);
        else init(I_RESET);
    }
    if (started) { if (pos < 5000) update(D->bl * 2 + 1); final(); }
}
/* padding: every length and cut */
static void padded(const cdesc *d)
{
    for (size_t n = 0; n <= (size_t)d->bl * 4; n++) for (size_t a = 0; a <= n; a++) {
        u8 c[200], p[200]; int l = 0, l2 = 0, t; size_t tot = (n / d->bl + 1) * d->bl;
        cconf f; conf_defaults(&f, d, 1); memcpy(f.key, K[0], 32); memcpy(f.iv, V[0], d->ivlen);
        memcpy(p, MS, n); memset(p + n, tot - n, tot - n); conf_ref(&f, p, want, tot, 1);
        EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
        mc_reset_trace(); mc_op("encrypt %zu bytes as %zu + %zu", n, a, n - a);
        if (EVP_CipherInit_ex(x, eng_cipher(d->sn), NULL, K[0], V[0], 1) != 1 || EVP_CipherUpdate(x, c, &l, MS, a) != 1 || EVP_CipherUpdate(x, c + l, &l2, MS + a, n - a) != 1 || EVP_CipherFinal_ex(x, c + l + l2, &t) != 1) mc_fail(mc_fmt("padded:%s", d->sn), "fails");
        if ((size_t)(l + l2 + t) != tot || memcmp(c, want, tot)) mc_fail(mc_fmt("padded:%s", d->sn), "%d bytes, expected %zu, or wrong", l + l2 + t, tot);
        if (EVP_CipherInit_ex(x, NULL, NULL, K[0], V[0], 0) != 1 || EVP_CipherUpdate(x, p, &l, c, a) != 1 || EVP_CipherUpdate(x, p + l, &l2, c + a, tot - a) != 1 || EVP_CipherFinal_ex(x, p + l + l2, &t) != 1 || (size_t)(l + l2 + t) != n || memcmp(p, MS, n)) mc_fail(mc_fmt("padded:%s", d->sn), "does not decrypt");
        EVP_CIPHER_CTX_free(x);
        mc_trans(8); mc_n_execs++;
    }
}
/* padding switched on and off between and during messages: the last setting before final counts, for this and later messages */
static void padseq(void *u)
{
    const cdesc *d = D; u8 o[200], p[200]; int l, l2, on = 1;
    mc_reset_trace();
    EVP_CIPHER_CTX_free(C); C = EVP_CIPHER_CTX_new();
    for (int m = 0; m < 3; m++) {
        int how = mc_choose(m ? 3 : 1), s1 = mc_choose(3), s2 = mc_choose(3), n = mc_choose(2) ? d->bl * 2 : d->bl + 3; enc = 1;
        mc_op("message %d: init %d, padding %s, %d bytes, padding %s", m, how, s1 == 0 ? "left" : s1 == 1 ? "on" : "off", n, s2 == 0 ? "left" : s2 == 1 ? "on" : "off");
        if ((how == 0 ? EVP_EncryptInit_ex(C, eng_cipher(d->sn), NULL, K[0], V[0]) : how == 1 ? EVP_EncryptInit_ex(C, NULL, NULL, K[0], V[0]) : (EVP_CIPHER_CTX_reset(C), on = 1, EVP_EncryptInit_ex(C, eng_cipher(d->sn), NULL, K[0], V[0]))) != 1) mc_fail(mc_fmt("padding-init:%s", d->sn), "init fails");
        if (s1) { on = s1 == 1; if (EVP_CIPHER_CTX_set_padding(C, on) != 1) mc_fail(mc_fmt("padding-set:%s", d->sn), "refused"); }
        if (EVP_EncryptUpdate(C, o, &l, MS, n) != 1 || l != n / d->bl * d->bl) mc_fail(mc_fmt("padding-update:%s", d->sn), "%d bytes", l);
        if (s2) { on = s2 == 1; if (EVP_CIPHER_CTX_set_padding(C, on) != 1) mc_fail(mc_fmt("padding-set:%s", d->sn), "refused"); }
        int r = EVP_EncryptFinal_ex(C, o + l, &l2);
        int tot = on ? (n / d->bl + 1) * d->bl : n;
        if (!on && n % d->bl) { if (r == 1) mc_fail(mc_fmt("padding-final:%s", d->sn), "a partial block is accepted without padding"); return; }
        cconf f; conf_defaults(&f, d, 1); memcpy(f.key, K[0], 32); memcpy(f.iv, V[0], d->ivlen);
        memcpy(p, MS, n); memset(p + n, tot - n, tot - n); conf_ref(&f, p, want, tot, 1);
        if (r != 1 || l + l2 != tot || memcmp(o, want, tot)) mc_fail(mc_fmt("padding-final:%s", d->sn), "padding %s: result %d, %d bytes, expected %d", on ? "on" : "off", r, l + l2, tot);
        mc_trans(4);
    }
}
/* long updates after a few bytes, in one call and in place of many */
static u8 *BI, *BO, *BW;
#define BIG ((1 << 20) + 40)
static void bigs(const cdesc *d)
{
    static const size_t N[] = { 4093, 16384, 16389, 65536, 65553, 131077, (1 << 20) + 3 };
    if (!BI) { BI = malloc(BIG); BO = malloc(BIG + 64); BW = malloc(BIG + 64); fill(BI, BIG, 9); }
    for (int i = 0; i < (int)(sizeof N / sizeof *N) - !mc_thorough; i++) for (int a = 0; a < d->bl; a += d->bl / 2 - 1) for (int e = 1; e >= 0; e--) {
        int l = 0, l2 = 0, t = 0, block = d->mode == M_ECB || d->mode == M_CBC; size_t tot = (N[i] + a + 8) / d->bl * d->bl;
        cconf f; conf_defaults(&f, d, 1); memcpy(f.key, K[1], 32); memcpy(f.iv, V[1], d->ivlen);
        conf_ref(&f, BI, BW, tot, e);
        mc_reset_trace(); mc_op("%scrypt %d bytes and then %zu", e ? "en" : "de", a, tot - a);
        EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
        memset(BO + tot, 0xee, 40);
        if (EVP_CipherInit_ex(x, eng_cipher(d->sn), NULL, K[1], V[1], e) != 1 || EVP_CIPHER_CTX_set_padding(x, 0) != 1 || (a && EVP_CipherUpdate(x, BO, &l, BI, a) != 1) || EVP_CipherUpdate(x, BO + l, &l2, BI + a, tot - a) != 1 || EVP_CipherFinal_ex(x, BO + l + l2, &t) != 1) mc_fail(mc_fmt("long:%s", d->sn), "fails");
        if ((size_t)(l + l2) != tot || (l && block) || t || memcmp(BO, BW, tot) || BO[tot] != 0xee) mc_fail(mc_fmt("long:%s", d->sn), "%d + %d bytes, or wrong", l, l2);
        if (block && e) {       /* and back, padded: the last block is held */
            size_t n = tot - a; u8 *z = BW; int q = d->bl - n % d->bl;
            memcpy(BO, BI, n); memset(BO + n, q, q); conf_ref(&f, BO, z, n + q, 1);
            l = l2 = t = 0; memset(BO, 0, n);
            if (EVP_CIPHER_CTX_set_padding(x, 1) != 1 || EVP_CipherInit_ex(x, NULL, NULL, K[1], V[1], 0) != 1 || (a && EVP_CipherUpdate(x, BO, &l, z, a) != 1) || EVP_CipherUpdate(x, BO + l, &l2, z + a, n + q - a) != 1 || EVP_CipherFinal_ex(x, BO + l + l2, &t) != 1 || l + l2 + t != (int)n || memcmp(BO, BI, n)) mc_fail(mc_fmt("long:%s", d->sn), "a padded message of %zu does not come back: %d + %d + %d bytes", n, l, l2, t);
        }
        EVP_CIPHER_CTX_free(x);
        mc_trans(4); mc_n_execs++;
    }
}
/* a cipher that is offered can be initialised */
static int usable(const char *sn)
{
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); rng_reset(RNG_STREAM);
    int r = EVP_CipherInit_ex(x, eng_cipher(sn), NULL, K[0], V[0], 1);
    EVP_CIPHER_CTX_free(x);
    mc_n_execs++; mc_trans(1);
    return r == 1;
}
/* ---------------------------------------------------------------- algorithm parameters */
static void params(int i)
{
    const pc *p = &PC[i]; const cdesc *d = PCD(p); const EVP_CIPHER *ci = eng_cipher(p->sn);
    for (int v = 0; v < 3; v++) for (size_t n = d->bl; n <= (size_t)d->bl * 3; n += d->mode == M_CBC ? d->bl : 1) {
        par w; u8 der[200], out[300], back[300], *q = NULL; int l, l2; size_t rp;
        memset(&w, 0, sizeof w); memcpy(w.iv, V[v], d->ivlen); w.sb = d->mode == M_CNT && !d->cnt12 && d->kind == BC_G89 ? 1 : 0;
        EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); ASN1_TYPE *t = ASN1_TYPE_new();
        mc_reset_trace(); mc_op("write parameters, IV %d, message of %zu", v, n);
        rng_reset(RNG_STREAM);
        if (EVP_CipherInit_ex(x, ci, NULL, NULL, NULL, 1) != 1) mc_fail(mc_fmt("par-init:%s", p->sn), "init fails");
        rng_reset(RNG_STREAM);
        if (EVP_CipherInit_ex(x, NULL, NULL, K[0], V[v], 1) != 1) mc_fail(mc_fmt("par-init:%s", p->sn), "init with key fails");
        if (p->omac) memcpy(w.seed, rng.log, 8);
        if (EVP_CIPHER_param_to_asn1(x, t) <= 0) mc_fail(mc_fmt("par-write:%s", p->sn), "the parameters cannot be written");
        int dl = i2d_ASN1_TYPE(t, &q);
        if (!p->g89 && dl >= 4 + d->ivlen + 8) memcpy(w.seed, q + 4 + d->ivlen, 8);
        rp = ref_par(p, &w, der);
        if (dl != (int)rp || memcmp(q, der, rp)) mc_fail(mc_fmt("par-value:%s", p->sn), "written %s, expected %s", mc_hex(q, dl), mc_hex(der, rp));
        EVP_CIPHER_CTX_set_padding(x, 0);
        if (EVP_CipherUpdate(x, out, &l, MS, n) != 1 || l != (int)n) mc_fail(mc_fmt("par-enc:%s", p->sn), "encryption fails");
        EVP_CIPHER_CTX_free(x); x = EVP_CIPHER_CTX_new();
        mc_op("read parameters");
        if (EVP_CipherInit_ex(x, ci, NULL, NULL, NULL, 0) != 1 || EVP_CIPHER_asn1_to_param(x, t) <= 0 || EVP_CipherInit_ex(x, NULL, NULL, K[0], NULL, 0) != 1) mc_fail(mc_fmt("par-read:%s", p->sn), "the parameters cannot be read");
        EVP_CIPHER_CTX_set_padding(x, 0);
        if (EVP_CipherUpdate(x, back, &l2, out, n) != 1 || l2 != (int)n || memcmp(back, MS, n)) mc_fail(mc_fmt("par-dec:%s", p->sn), "the message does not come back");
        EVP_CIPHER_CTX_free(x); ASN1_TYPE_free(t); OPENSSL_free(q);
        mc_trans(8); mc_n_execs++;
    }
}
/* ---------------------------------------------------------------- authenticated ciphers */
static void aead(const adesc *a)
{
    size_t L[] = { 0, 1, a->bl - 1, a->bl, a->bl + 1, a->bl * 2, a->bl * 3 + 2 };
    int NL = sizeof L / sizeof *L;
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(), *y;
    const EVP_CIPHER *ci = eng_cipher(a->sn);
    int it = 0, l, l2, t;
    if (EVP_CIPHER_get_iv_length(ci) != a->ivlen || EVP_CIPHER_get_key_length(ci) != 32 || EVP_CIPHER_get_block_size(ci) != 1) mc_fail(mc_fmt("sizes:%s", a->sn), "IV %d, key %d, block %d", EVP_CIPHER_get_iv_length(ci), EVP_CIPHER_get_key_length(ci), EVP_CIPHER_get_block_size(ci));
    for (int i = 0; i < (a->omac ? 1 : NL); i++) for (int j = 0; j < NL; j++) for (size_t ca = 0; ca <= L[i]; ca++) for (size_t cp = 0; cp <= L[j]; cp += a->omac || mc_thorough ? 1 : 7) {
        const u8 *k = K[it % 3], *v0 = V[it / 3 % 3]; u8 v[16], ct[200], tag[16], out[200], tg[16], sd[8];
        size_t an = L[i], n = L[j];
        memcpy(v, v0, 16); if (!a->omac) v[0] &= 0x7f;
        if (!an && !n) continue;
        mc_reset_trace(); mc_op("%s aad %zu = %zu + %zu, text %zu = %zu + %zu", it % 2 ? "reused context" : "copied context", an, ca, an - ca, n, cp, n - cp);
        it++;
#define T(e) do { if (!(e)) mc_fail(mc_fmt("refused:%s", a->sn), "%s", #e); } while (0)
        rng_reset(RNG_STREAM);
        T(EVP_CipherInit_ex(x, it % 5 ? NULL : ci, NULL, it % 5 ? NULL : k, it % 5 ? NULL : v, 1) == 1 || it < 5);
        rng_reset(RNG_STREAM);
        T(EVP_CipherInit_ex(x, ci, NULL, k, v, 1) == 1);
        memcpy(sd, rng.log, 8);
        if (a->omac) ref_ctr_omac(a, k, v, sd, a->section, MS + 100, n, ct, tag); else ref_mgm(a->kind, k, v, MS, an, MS + 100, n, ct, tag);
        if (ca) T(EVP_CipherUpdate(x, NULL, &l, MS, ca) == 1);
        if (an - ca) T(EVP_CipherUpdate(x, NULL, &l, MS + ca, an - ca) == 1);
        l = l2 = 0;
        if (cp) T(EVP_CipherUpdate(x, out, &l, MS + 100, cp) == 1);
        if (it % 2 == 0) { y = EVP_CIPHER_CTX_new(); T(EVP_CIPHER_CTX_copy(y, x) == 1); if (!a->omac || n - cp) { u8 z[40]; int q; EVP_CipherUpdate(x, z, &q, MS, 20); } EVP_CIPHER_CTX_free(x); x = y; }
        if (n - cp) T(EVP_CipherUpdate(x, out + l, &l2, MS + 100 + cp, n - cp) == 1);
        if (l + l2 != (int)n || memcmp(out, ct, n)) mc_fail(mc_fmt("text:%s", a->sn), "got %s expected %s", mc_hex(out, l + l2), mc_hex(ct, n));
        if (a->omac) { mc_n_execs++; mc_trans(4); continue; }
        T(EVP_CipherFinal_ex(x, out + n, &t) == 1 && t == 0);
        memset(tg, 0, 16);
        T(EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, a->taglen, tg) == 1);
        if (memcmp(tg, tag, a->taglen)) mc_fail(mc_fmt("tag:%s", a->sn), "tag %s expected %s", mc_hex(tg, a->taglen), mc_hex(tag, a->taglen));
        /* back, with the right tag, each bit of it wrong, and none */
        for (int b = -2; b < a->taglen * 8; b += b < 0 || mc_thorough ? 1 : 5) {
            memcpy(tg, tag, a->taglen); if (b >= 0) tg[b / 8] ^= 1 << b % 8;
            T(EVP_CipherInit_ex(x, ci, NULL, k, v, 0) == 1);
            if (b != -2) T(EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_TAG, a->taglen, tg) == 1);
            if (an) T(EVP_CipherUpdate(x, NULL, &l, MS, an) == 1);
            l = l2 = 0;
            if (cp) T(EVP_CipherUpdate(x, out, &l, ct, cp) == 1);
            if (n - cp) T(EVP_CipherUpdate(x, out + l, &l2, ct + cp, n - cp) == 1);
            int r = EVP_CipherFinal_ex(x, out + n, &t);
            if (b == -1 ? r != 1 || memcmp(out, MS + 100, n) : r == 1) mc_fail(mc_fmt("verify:%s", a->sn), "decryption with %s tag gives %d", b == -1 ? "the right" : b == -2 ? "no" : "a wrong", r);
            mc_trans(5);
        }
        mc_n_execs++;
    }
#undef T
    EVP_CIPHER_CTX_free(x);
}
/* ---------------------------------------------------------------- digests */
static const struct { const char *sn; size_t n, bl; void (*f)(const u8 *, size_t, u8 *); } DG[] = {
    { "md_gost94", 32, 32, ref_h94cp }, { "md_gost12_256", 32, 64, ref_h12_256 }, { "md_gost12_512", 64, 64, ref_h12_512 } };
static int dgi; static EVP_MD_CTX *MD;
static void dseq(void *u)
{
    const EVP_MD *m = eng_digest(DG[dgi].sn); size_t n = 0; u8 o[80], w[64]; unsigned l; int live = 1;
    static const size_t S[] = { 1, 31, 33, 64, 65, 0 };
    mc_reset_trace();
    EVP_MD_CTX_free(MD); MD = EVP_MD_CTX_new();
#define T(e) do { if (!(e)) mc_fail(mc_fmt("refused:%s", DG[dgi].sn), "%s", #e); } while (0)
    mc_op("init"); T(EVP_DigestInit_ex(MD, m, NULL) == 1);
    for (int i = 0; i < depth; i++) {
        int a = mc_choose(12);
        mc_trans(1);
        if (!live && a >= 2 && a != 11) return;
        if (!live || a >= 9) switch (live ? a - 9 : a) {
        case 0: mc_op("init(same)"); T(EVP_DigestInit_ex(MD, NULL, NULL) == 1); n = 0; live = 1; continue;
        case 1: mc_op("init"); T(EVP_DigestInit_ex(MD, m, NULL) == 1); n = 0; live = 1; continue;
        default: mc_op("reset, init"); EVP_MD_CTX_reset(MD); T(EVP_DigestInit_ex(MD, m, NULL) == 1); n = 0; live = 1; continue;
        }
        if (a < 6) { mc_op("update(%zu)", S[a]); T(EVP_DigestUpdate(MD, MS + n, S[a]) == 1); n += S[a]; continue; }
        if (a == 6 || a == 7) {
            EVP_MD_CTX *y = EVP_MD_CTX_new(), *z;
            mc_op("copy, use up the %s", a == 6 ? "copy" : "original");
            T(EVP_MD_CTX_copy_ex(y, MD) == 1);
            z = a == 6 ? y : MD; if (a == 7) MD = y;
            T(EVP_DigestUpdate(z, "disturb", 7) == 1 && EVP_DigestFinal_ex(z, o, &l) == 1);
            EVP_MD_CTX_free(z);
            continue;
        }
        mc_op("final"); memset(o, 0xa5, sizeof o); l = 999;
        T(EVP_DigestFinal_ex(MD, o, &l) == 1);
        DG[dgi].f(MS, n, w);
        if (l != DG[dgi].n || memcmp(o, w, l) || o[l] != 0xa5) mc_fail(mc_fmt("value:%s", DG[dgi].sn), "%u bytes %s, expected %s", l, mc_hex(o, l > 64 ? 64 : l), mc_hex(w, DG[dgi].n));
        live = 0;
    }
    if (live) { l = 0; T(EVP_DigestFinal_ex(MD, o, &l) == 1); DG[dgi].f(MS, n, w); if (l != DG[dgi].n || memcmp(o, w, l)) mc_fail(mc_fmt("value:%s", DG[dgi].sn), "%s, expected %s", mc_hex(o, DG[dgi].n), mc_hex(w, DG[dgi].n)); }
#undef T
}
/* ---------------------------------------------------------------- MACs */
static const struct { const char *sn; size_t def, max, bl; } MA[] = { { "gost-mac", 4, 8, 8 }, { "gost-mac-12", 4, 8, 8 }, { "magma-mac", 8, 8, 8 }, { "kuznyechik-mac", 16, 16, 16 }, { "kuznyechik-ctr-acpkm-omac", 16, 16, 16 } };
static int mai; static EVP_MAC *MAC; static EVP_MAC_CTX *X;
static size_t msize; static int mk, msec, mtsec; static size_t mn;
static void mref(u8 *w)
{
    switch (mai) {
    case 0: ref_imit(K[mk], RSB_A, 1, MS, mn, w); break;
    case 1: ref_imit(K[mk], RSB_Z, 1, MS, mn, w); break;
    case 2: ref_omac(BC_MAGMA, K[mk], MS, mn, w); break;
    case 3: ref_omac(BC_KUZ, K[mk], MS, mn, w); break;
    case 4: ref_omac_acpkm(K[mk], msec ? msec : 4096, mtsec ? mtsec : msec && 0 ? 0 : mtsec, MS, mn, w); break;
    }
}
static void mfinal(void)
{
    u8 *o = malloc(msize + 1), w[16]; size_t l = 999, q = 999;
    mc_op("final, %zu bytes", msize);
    if (EVP_MAC_CTX_get_mac_size(X) != msize) mc_fail(mc_fmt("mac-size:%s", MA[mai].sn), "the size is said to be %zu, set %zu", EVP_MAC_CTX_get_mac_size(X), msize);
    if (EVP_MAC_final(X, NULL, &q, 0) != 1 || q != msize) mc_fail(mc_fmt("mac-query:%s", MA[mai].sn), "asking for the size gives %zu, set %zu", q, msize);
    u8 *b = malloc(msize);      /* exactly: the sanitizer sees any byte more */
    if (EVP_MAC_final(X, b, &l, msize) != 1) mc_fail(mc_fmt("mac-final:%s", MA[mai].sn), "final of %zu bytes, size %zu, fails", mn, msize);
    mref(w);
    if (l != msize || memcmp(b, w, l)) mc_fail(mc_fmt("mac-value:%s", MA[mai].sn), "%zu bytes, size %zu: %zu bytes %s, expected %s", mn, msize, l, mc_hex(b, msize), mc_hex(w, msize));
    free(b); free(o);
    mc_trans(1);
}
static int mset(const char *n, size_t v) { OSSL_PARAM p[2] = { OSSL_PARAM_construct_size_t(n, &v), OSSL_PARAM_END }; return EVP_MAC_CTX_set_params(X, p); }
static void minit(int how)
{
    u8 k[32]; int r; size_t z = MA[mai].max - 1; OSSL_PARAM pp[3];
    mk = (mk + 1) % 3; memcpy(k, K[mk], 32);
    switch (how) {
    case 0: mc_op("init(key)"); r = EVP_MAC_init(X, k, 32, NULL); break;
    case 1: mc_op("init(key, size)"); pp[0] = OSSL_PARAM_construct_size_t("size", &z); pp[1] = OSSL_PARAM_construct_end(); r = EVP_MAC_init(X, k, 32, pp); msize = z; break;
    case 2: mc_op("key as a parameter"); pp[0] = OSSL_PARAM_construct_octet_string("key", k, 32); pp[1] = OSSL_PARAM_construct_end(); r = EVP_MAC_init(X, NULL, 0, pp); break;
    case 3: mc_op("init(key, key-mesh 32)"); z = 32; pp[0] = OSSL_PARAM_construct_size_t("key-mesh", &z); pp[1] = OSSL_PARAM_construct_end(); r = EVP_MAC_init(X, k, 32, pp); break;
    }
    memset(k, 0x5c, 32);
    if (r != 1) mc_fail(mc_fmt("mac-init:%s", MA[mai].sn), "init %d fails", how);
    mn = 0; msec = how == 3 ? 32 : 0; mtsec = 0;
    mc_trans(1);
}
static void mseq(void *u)
{
    size_t S[] = { 0, 1, MA[mai].bl, MA[mai].bl * 2 + 1, 1030 }; int live = 1;
    mc_reset_trace();
    rng_reset(RNG_STREAM);
    EVP_MAC_CTX_free(X); X = EVP_MAC_CTX_new(MAC); msize = MA[mai].def; mk = 0; mn = 0;
    if (!X) mc_fail(mc_fmt("mac-new:%s", MA[mai].sn), "no context");
    minit(mc_choose(3));
    for (int i = 0; i < depth; i++) {
        int a = mc_choose(14);
        if (!live && a > 3 && a != 9) return;
        if (!live && a == 9) { if (mai != 4) return; minit(3); live = 1; continue; }
        if (live ? a == 13 : a == 3) {      /* the same key again, where that is offered */
                mc_op("init(same key)"); if (EVP_MAC_init(X, NULL, 0, NULL) != 1) return; mn = 0; live = 1; msec = mtsec = 0; continue; }
        if (!live) { minit(a); live = 1; continue; }
        if (a < 5) { mc_op("update(%zu)", S[a]); if (EVP_MAC_update(X, MS + mn, S[a]) != 1) { mc_fail(mc_fmt("mac-update:%s", MA[mai].sn), "update fails"); } mn += S[a]; mc_trans(1); continue; }
        if (a == 5) { msize = MA[mai].max; mc_op("size %zu", msize); if (mset("size", msize) != 1) mc_fail(mc_fmt("mac-size:%s", MA[mai].sn), "size %zu refused", msize); continue; }
        if (a == 6) { msize = 3; mc_op("size 3"); if (mset("size", 3) != 1) mc_fail(mc_fmt("mac-size:%s", MA[mai].sn), "size 3 refused"); continue; }
        if (a == 7 || a == 8) {
            EVP_MAC_CTX *y = EVP_MAC_CTX_dup(X), *z; u8 o[16]; size_t l;
            mc_op("copy, use up the %s", a == 7 ? "copy" : "original");
            if (!y) mc_fail(mc_fmt("mac-copy:%s", MA[mai].sn), "no copy");
            z = a == 7 ? y : X; if (a == 8) X = y;
            if (EVP_MAC_update(z, MS, 5) != 1 || EVP_MAC_final(z, o, &l, 16) != 1) mc_fail(mc_fmt("mac-copy:%s", MA[mai].sn), "the %s fails", a == 7 ? "copy" : "original");
            EVP_MAC_CTX_free(z);
            continue;
        }
        if (a == 9) { if (mai != 4 || mn) return; msec = 32; mc_op("key-mesh 32"); if (mset("key-mesh", 32) != 1) mc_fail("mac-mesh", "key-mesh refused"); continue; }
        if (a == 10) { minit(0); live = 1; continue; }
        if (a == 11) { if (!mn && mai < 2) return; mfinal(); live = 0; continue; }
        minit(1); live = 1;
    }
    if (live && (mn || mai > 1)) mfinal();
}
/* sizes no MAC has are refused, at the latest by final */
static void msizes(void)
{
    for (size_t z = 0; z <= 70; z++) for (int how = 0; how < 2; how++) {
        u8 o[80]; size_t l = 999; OSSL_PARAM pp[2] = { OSSL_PARAM_construct_size_t("size", &z), OSSL_PARAM_construct_end() };
        mc_reset_trace(); mc_op("size %zu %s", z, how ? "at init" : "after init");
        X = EVP_MAC_CTX_new(MAC); mk = 1; mn = 37; msize = z;
        int ok = how ? EVP_MAC_init(X, K[1], 32, pp) == 1 : EVP_MAC_init(X, K[1], 32, NULL) == 1 && EVP_MAC_CTX_set_params(X, pp) == 1;
        ok = ok && EVP_MAC_update(X, MS, 37) == 1;
        memset(o, 0xa5, sizeof o);
        ok = ok && EVP_MAC_final(X, o, &l, sizeof o) == 1;
        u8 w[16]; mref(w);
        if (z >= 1 && z <= MA[mai].max ? !ok || l != z || memcmp(o, w, z) || o[z] != 0xa5 : ok) mc_fail(mc_fmt("mac-size:%s:%s", MA[mai].sn, z && z <= MA[mai].max ? "fit" : "unfit"), "size %zu: %s, %zu bytes", z, ok ? "accepted" : "refused", l);
        EVP_MAC_CTX_free(X); X = NULL;
        mc_trans(4); mc_n_execs++;
    }
    for (size_t kl = 0; kl <= 70; kl++) if (kl != 32) {
        X = EVP_MAC_CTX_new(MAC); u8 *k = malloc(kl ? kl : 1); u8 o[16]; size_t l; memset(k, 7, kl ? kl : 1);
        if (EVP_MAC_init(X, k, kl, NULL) == 1 && EVP_MAC_update(X, MS, 9) == 1 && EVP_MAC_final(X, o, &l, 16) == 1) mc_fail(mc_fmt("mac-key-length:%s", MA[mai].sn), "a key of %zu bytes is taken", kl);
        free(k); EVP_MAC_CTX_free(X); X = NULL; mc_n_execs++;
    }
}
/* ---------------------------------------------------------------- copies under allocation failure */
static void copy_fail(int kind, const char *sn)
{
    for (long at = 1;; at++) {
        u8 o[64], w[64]; int l = 0; unsigned ul; size_t sl; void *y = NULL; int r = 0;
        mc_reset_trace(); mc_op("allocation %ld fails while copying", at);
        rng_reset(RNG_STREAM);
        EVP_CIPHER_CTX *c = NULL; EVP_MD_CTX *m = NULL; EVP_MAC_CTX *x = NULL;
        if (kind == 0) { c = EVP_CIPHER_CTX_new(); y = EVP_CIPHER_CTX_new(); if (EVP_CipherInit_ex(c, eng_cipher(sn), NULL, K[0], V[0], 1) != 1 || EVP_CipherUpdate(c, o, &l, MS, 5) != 1) mc_fail(mc_fmt("setup:%s", sn), "init and update fail"); }
        if (kind == 1) { m = EVP_MD_CTX_new(); y = EVP_MD_CTX_new(); if (EVP_DigestInit_ex(m, eng_digest(sn), NULL) != 1 || EVP_DigestUpdate(m, MS, 5) != 1) mc_fail(mc_fmt("setup:%s", sn), "init and update fail"); }
        if (kind == 2) { MAC = EVP_MAC_fetch(NULL, sn, NULL); x = EVP_MAC_CTX_new(MAC); if (EVP_MAC_init(x, K[0], 32, NULL) != 1 || EVP_MAC_update(x, MS, 5) != 1) mc_fail(mc_fmt("setup:%s", sn), "init and update fail"); }
        al.n = 0; al.fail_at = at; al.failed = 0; al.armed = 1;
        if (kind == 0) r = EVP_CIPHER_CTX_copy(y, c); else if (kind == 1) r = EVP_MD_CTX_copy_ex(y, m); else r = !!(y = EVP_MAC_CTX_dup(x));
        al.armed = 0;
        if (r == 1) {
            int bad;
            if (kind == 0) { int l2 = 0, l1 = 0; bad = EVP_CipherUpdate(c, w, &l1, MS + 5, 30) != 1 || EVP_CipherUpdate(y, o, &l2, MS + 5, 30) != 1 || l1 != l2 || memcmp(o, w, l1); }
            else if (kind == 1) bad = EVP_DigestFinal_ex(m, w, &ul) != 1 || EVP_DigestFinal_ex(y, o, &ul) != 1 || memcmp(o, w, ul);
            else bad = EVP_MAC_final(x, w, &sl, 64) != 1 || EVP_MAC_final(y, o, &sl, 64) != 1 || memcmp(o, w, sl);
            if (bad) mc_fail(mc_fmt("false-copy:%s", sn), "the copy succeeds although an allocation failed, and is no copy");
        }
        if (kind == 0) { EVP_CIPHER_CTX_free(c); EVP_CIPHER_CTX_free(y); } else if (kind == 1) { EVP_MD_CTX_free(m); EVP_MD_CTX_free(y); } else { EVP_MAC_CTX_free(x); EVP_MAC_CTX_free(y); EVP_MAC_free(MAC); }
        mc_trans(3); mc_n_execs++;
        if (!al.failed) break;
        if (at > 200) mc_internal("copy never stops allocating");
    }
}
/* ---------------------------------------------------------------- tables and loading */
static void table(const OSSL_ALGORITHM *t, const char *what, int op)
{
    for (; t->algorithm_names; t++) {
        const OSSL_DISPATCH *d = t->implementation; int n = 0;
        mc_op("%s %s", what, t->algorithm_names);
        for (; d->function_id; d++, n++) if (!d->function || n > 40) mc_fail(mc_fmt("table:%s", what), "%s: entry %d", t->algorithm_names, n);
        char b[300], *s, *sv; snprintf(b, sizeof b, "%s", t->algorithm_names);
        for (s = strtok_r(b, ":", &sv); s; s = strtok_r(NULL, ":", &sv)) {
            void *x = op == 0 ? (void *)EVP_CIPHER_fetch(NULL, s, NULL) : op == 1 ? (void *)EVP_MD_fetch(NULL, s, NULL) : (void *)EVP_MAC_fetch(NULL, s, NULL);
            if (!x) mc_fail(mc_fmt("fetch:%s", s), "%s cannot be fetched as %s", t->algorithm_names, s);
            if (op == 0) EVP_CIPHER_free(x); else if (op == 1) EVP_MD_free(x); else EVP_MAC_free(x);
        }
        mc_n_execs++;
    }
}
static int once(void)
{
    u8 o[64]; unsigned l; int ol; size_t sl; int ok = 1;
    OSSL_PROVIDER *p = OSSL_PROVIDER_load(NULL, "gostprov");
    if (!p) return 0;
    EVP_MD *m = EVP_MD_fetch(NULL, "md_gost12_256", NULL); EVP_CIPHER *c = EVP_CIPHER_fetch(NULL, "kuznyechik-mgm", NULL), *c2 = EVP_CIPHER_fetch(NULL, "gost89", NULL); EVP_MAC *a = EVP_MAC_fetch(NULL, "kuznyechik-mac", NULL);
    EVP_MD_CTX *mx = EVP_MD_CTX_new(); EVP_CIPHER_CTX *cx = EVP_CIPHER_CTX_new(); EVP_MAC_CTX *ax = a ? EVP_MAC_CTX_new(a) : NULL;
    ok &= m && c && c2 && ax && EVP_DigestInit_ex(mx, m, NULL) == 1 && EVP_DigestUpdate(mx, MS, 100) == 1 && EVP_DigestFinal_ex(mx, o, &l) == 1;
    ok &= EVP_CipherInit_ex(cx, c, NULL, K[0], V[0], 1) == 1 && EVP_CipherUpdate(cx, o, &ol, MS, 20) == 1;
    ok &= EVP_CipherInit_ex(cx, c2, NULL, K[0], V[0], 1) == 1 && EVP_CipherUpdate(cx, o, &ol, MS, 20) == 1;
    ok &= EVP_MAC_init(ax, K[0], 32, NULL) == 1 && EVP_MAC_update(ax, MS, 20) == 1 && EVP_MAC_final(ax, o, &sl, 64) == 1;
    EVP_MD_CTX_free(mx); EVP_CIPHER_CTX_free(cx); EVP_MAC_CTX_free(ax);
    EVP_MD_free(m); EVP_CIPHER_free(c); EVP_CIPHER_free(c2); EVP_MAC_free(a);
    return ok & OSSL_PROVIDER_unload(p);
}
static void cycles(void *u)
{
    long at[6];
    OSSL_PROVIDER_unload(PV);
    for (int i = 0; i < 6; i++) { mc_op("load, use, unload"); if (!once()) { ERR_print_errors_fp(stderr); mc_fail("reload", "round %d fails", i); } ERR_clear_error(); at[i] = al.live; }
    if (at[5] != at[4] || at[4] != at[3]) mc_fail("left-behind", "%ld blocks stay allocated with each load and unload", at[5] - at[4]);
}
int main(int argc, char **argv)
{
    alloc_install();
    mc_init(argc, argv);
    eng_init(0);
    load();
    fill(MS, sizeof MS, 5);
    for (int i = 0; i < 4; i++) { fill(K[i], 32, 40 + i); fill(V[i], 16, 60 + i); }
    cpar_init();
    MC_CASE("tables") { table(GOST_prov_ciphers, "cipher", 0); table(GOST_prov_digests, "digest", 1); table(GOST_prov_macs, "MAC", 2); }
    MC_CASE("load and unload") { mc_isolate(cycles, NULL); }
    for (int i = 0; i < NCD; i++) if (strcmp(CD[i].sn, "magma-ecb")) {
        MC_CASE("histories of %s", CD[i].sn) { D = &CD[i]; depth = mc_thorough ? 4 : 3; mc_explore(cseq, NULL); }
        if (CD[i].mode == M_CBC || CD[i].mode == M_ECB) MC_CASE("padding of %s", CD[i].sn) padded(&CD[i]);
        if (CD[i].mode == M_CBC || CD[i].mode == M_ECB) MC_CASE("padding settings of %s", CD[i].sn) { D = &CD[i]; mc_explore(padseq, NULL); }
        MC_CASE("long updates of %s", CD[i].sn) bigs(&CD[i]);
    }
    for (int i = 0; i < 4; i++) MC_CASE("init of %s", AD[i].sn) if (!usable(AD[i].sn)) mc_fail(mc_fmt("unusable:%s", AD[i].sn), "the provider offers %s, but it cannot be initialised with a key", AD[i].sn);
    for (int i = 0; i < NPC; i++) MC_CASE("parameters of %s", PC[i].sn) if (!PC[i].omac || usable(PC[i].sn)) params(i);
    for (int i = 0; i < 4; i++) MC_CASE("%s", AD[i].sn) if (!AD[i].omac || usable(AD[i].sn)) aead(&AD[i]);
    for (int i = 0; i < 3; i++) MC_CASE("histories of %s", DG[i].sn) {
        if (EVP_MD_get_size(eng_digest(DG[i].sn)) != (int)DG[i].n || EVP_MD_get_block_size(eng_digest(DG[i].sn)) != (int)DG[i].bl) mc_fail(mc_fmt("sizes:%s", DG[i].sn), "size %d, block %d", EVP_MD_get_size(eng_digest(DG[i].sn)), EVP_MD_get_block_size(eng_digest(DG[i].sn)));
        dgi = i; depth = mc_thorough ? 5 : 4; mc_explore(dseq, NULL);
    }
    for (int i = 0; i < 5; i++) {
        MC_CASE("histories of MAC %s", MA[i].sn) { mai = i; if (!(MAC = EVP_MAC_fetch(NULL, MA[i].sn, NULL))) mc_fail(mc_fmt("no-mac:%s", MA[i].sn), "not offered"); depth = mc_thorough ? 4 : 3; mc_explore(mseq, NULL); }
        MC_CASE("sizes of MAC %s", MA[i].sn) { mai = i; if (!(MAC = EVP_MAC_fetch(NULL, MA[i].sn, NULL))) mc_fail(mc_fmt("no-mac:%s", MA[i].sn), "not offered"); msizes(); }
    }
    for (int i = 0; i < NCD; i++) if (strcmp(CD[i].sn, "magma-ecb")) MC_CASE("failing copy of %s", CD[i].sn) copy_fail(0, CD[i].sn);
    for (int i = 0; i < 4; i++) MC_CASE("failing copy of %s", AD[i].sn) if (!AD[i].omac || usable(AD[i].sn)) copy_fail(0, AD[i].sn);
    for (int i = 0; i < 3; i++) MC_CASE("failing copy of %s", DG[i].sn) copy_fail(1, DG[i].sn);
    for (int i = 0; i < 5; i++) MC_CASE("failing copy of MAC %s", MA[i].sn) copy_fail(2, MA[i].sn);
    return mc_finish();
}
