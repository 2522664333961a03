/* P15: cipher algorithm parameters. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "cpar.h"
static const char *const NOPAR[] = { "magma-ecb", "magma-mgm", "kuznyechik-ecb", "kuznyechik-cbc", "kuznyechik-ofb", "kuznyechik-cfb", "kuznyechik-mgm" };
static u8 *M, *C, *X; enum { CAP = 600000 };
static u8 K[32], K2[32];
static size_t const LENS[] = { 1, 16, 24, 100, 1024, 1040, 3000, 8191, 8200, 16400 };
static void upd(EVP_CIPHER_CTX *c, const u8 *in, u8 *out, size_t n, const char *w, const pc *p)
{
    int ol = 0, z = 0;
    if (EVP_CipherUpdate(c, out, &ol, in, n) != 1) mc_fail(mc_fmt("refused:%s:%s", p->sn, w), "%s: processing %zu bytes fails", w, n);
    if (!p->omac) { if (EVP_CipherFinal_ex(c, out + ol, &z) != 1) mc_fail(mc_fmt("refused:%s:%s", p->sn, w), "%s: final of %zu bytes fails", w, n); ol += z; }
    if ((size_t)ol != n) mc_fail(mc_fmt("length:%s", p->sn), "%s: %d of %zu bytes", w, ol, n);
}
static size_t fit(const pc *p, size_t n) { int bl = PCD(p)->mode == M_CBC ? PCD(p)->bl : 1; return n / bl * bl; }
static void set_iv_class(const pc *p, u8 *iv, int v)
{
    int l = PCD(p)->ivlen;
    memset(iv, 0, 16);
    switch (v) { case 0: fill(iv, l, 77); break; case 1: break; case 2: memset(iv, 0xff, l); break; case 3: iv[0] = 1; break; case 4: iv[l - 1] = 1; break; case 5: iv[0] = 0x80; break; case 6: fill(iv, l, 5); iv[l - 1] = 0; break; case 7: fill(iv, l, 5); iv[0] = 0; break; }
}
/* writing a context; the parameters as an independent reading understands them */
static size_t write_par(EVP_CIPHER_CTX *c, const pc *p, par *v, int sb, u8 *der)
{
    ASN1_TYPE *t = ASN1_TYPE_new();
    int r = EVP_CIPHER_param_to_asn1(c, t);
    if (r <= 0) mc_fail(mc_fmt("write:%s", p->sn), "writing the parameters fails: %d", r);
    if (ASN1_TYPE_get(t) != V_ASN1_SEQUENCE) mc_fail(mc_fmt("type:%s", p->sn), "parameters of type %d", ASN1_TYPE_get(t));
    size_t n = t->value.sequence->length;
    if (n > 200) mc_fail(mc_fmt("long:%s", p->sn), "parameters of %zu bytes", n);
    memcpy(der, t->value.sequence->data, n);
    ASN1_TYPE_free(t);
    int l = PCD(p)->ivlen;
    if (!p->g89) { if (n < 4 + l + 8u) mc_fail(mc_fmt("short:%s", p->sn), "parameters %s", mc_hex(der, n)); memcpy(v->seed, der + 4 + l, 8); }
    v->sb = sb;
    u8 w[200]; size_t m = ref_par(p, v, w);
    if (m != n || memcmp(w, der, n)) mc_fail(mc_fmt("wrong-parameters:%s", p->sn), "written %s, the context has %s", mc_hex(der, n), mc_hex(w, m));
    return n;
}
static int read_par(EVP_CIPHER_CTX *c, const u8 *der, size_t n) { return get_par(c, V_ASN1_SEQUENCE, der, n); }
static const char *const RF[] = { "parameters then key", "key then parameters", "other message before", "other parameters before", "IV again NULL", "damaged before" };
/* reads parameters into a context along one of the routes */
static void reader(EVP_CIPHER_CTX *r, const pc *p, int flow, const u8 *der, size_t n)
{
    const EVP_CIPHER *ci = eng_cipher(p->sn);
    u8 iv2[16], tmp[64], oth[200]; int ol;
    fill(iv2, 16, 4242);
    par o; memset(&o, 0, sizeof o); memcpy(o.iv, iv2, PCD(p)->ivlen); fill(o.seed, 8, 99); o.sb = PCD(p)->sboxsel ? 3 : 0;
    size_t on = ref_par(p, &o, oth);
#define I(e) do { int r_ = (e); if (r_ <= 0) mc_fail(mc_fmt("refused:%s:%s", p->sn, RF[flow]), "%s: " #e " gives %d", RF[flow], r_); } while (0)
    switch (flow) {
    case 0: I(EVP_CipherInit_ex(r, ci, E, NULL, NULL, 0)); I(read_par(r, der, n)); I(EVP_CipherInit_ex(r, NULL, NULL, K, NULL, 0)); break;
    case 1: I(EVP_CipherInit_ex(r, ci, E, K, iv2, 0)); I(read_par(r, der, n)); break;
    case 2: I(EVP_CipherInit_ex(r, ci, E, K2, iv2, 0)); I(EVP_CipherUpdate(r, tmp, &ol, M, 32)); I(read_par(r, der, n)); I(EVP_CipherInit_ex(r, NULL, NULL, K, NULL, 0)); break;
    case 3: I(EVP_CipherInit_ex(r, ci, E, NULL, NULL, 0)); I(read_par(r, oth, on)); I(EVP_CipherInit_ex(r, NULL, NULL, K, NULL, 0)); I(EVP_CipherUpdate(r, tmp, &ol, M, 24)); I(EVP_CipherInit_ex(r, ci, E, NULL, NULL, 0)); I(read_par(r, der, n)); I(EVP_CipherInit_ex(r, NULL, NULL, K, NULL, 0)); break;
    case 4: I(EVP_CipherInit_ex(r, ci, E, NULL, NULL, 0)); I(read_par(r, der, n)); I(EVP_CipherInit_ex(r, NULL, NULL, K, NULL, 0)); I(EVP_CipherUpdate(r, tmp, &ol, M, 16)); I(EVP_CipherInit_ex(r, NULL, NULL, K, NULL, 0)); break;
    case 5: I(EVP_CipherInit_ex(r, ci, E, NULL, NULL, 0)); if (read_par(r, der, n - 1) > 0) mc_fail(mc_fmt("accepts:%s", p->sn), "accepts parameters cut by one byte"); I(read_par(r, der, n)); I(EVP_CipherInit_ex(r, NULL, NULL, K, NULL, 0)); break;
    }
#undef I
}
enum { NFLOW = 6 };
static void roundtrip(const pc *p, int sb, int ivc, int wf, size_t maxlen)
{
    par v; memset(&v, 0, sizeof v);
    u8 der[200], iv2[16]; int ol;
    set_iv_class(p, v.iv, ivc); fill(iv2, 16, 31);
    EVP_CIPHER_CTX *w = EVP_CIPHER_CTX_new();
    const EVP_CIPHER *ci = eng_cipher(p->sn);
    mc_reset_trace();
    rng_reset(RNG_STREAM);
    u8 t[64];
#define I(e) do { if ((e) <= 0) mc_fail(mc_fmt("init:%s", p->sn), #e " fails"); } while (0)
    int defsb = PCD(p)->mode == M_CNT && !PCD(p)->cnt12 ? 1 : 0;
    mc_op("IV class %d, %s, writer %d", ivc, sb < 0 ? "default S-box" : SBSEL[sb].name, wf);
    switch (wf) {
    case 0: /* as CMS does */
        I(EVP_CipherInit_ex(w, ci, E, NULL, NULL, 1));
        if (sb >= 0) I(EVP_CIPHER_CTX_ctrl(w, EVP_CTRL_SET_SBOX, 0, (void *)SBSEL[sb].name));
        I(EVP_CipherInit_ex(w, NULL, NULL, K, v.iv, 1)); break;
    case 1: I(EVP_CipherInit_ex(w, ci, E, K, v.iv, 1));
        if (sb >= 0) I(EVP_CIPHER_CTX_ctrl(w, EVP_CTRL_SET_SBOX, 0, (void *)SBSEL[sb].name));
        break;
    case 2: /* another message under another key and IV before */
        I(EVP_CipherInit_ex(w, ci, E, K2, iv2, 1));
        if (sb >= 0) I(EVP_CIPHER_CTX_ctrl(w, EVP_CTRL_SET_SBOX, 0, (void *)SBSEL[sb].name));
        I(EVP_CipherUpdate(w, t, &ol, M, 40));
        I(EVP_CipherInit_ex(w, NULL, NULL, K, v.iv, 1)); break;
    case 3: /* IV given apart from the key */
        I(EVP_CipherInit_ex(w, ci, E, NULL, NULL, 1));
        if (sb >= 0) I(EVP_CIPHER_CTX_ctrl(w, EVP_CTRL_SET_SBOX, 0, (void *)SBSEL[sb].name));
        I(EVP_CipherInit_ex(w, NULL, NULL, K, iv2, 1)); I(EVP_CipherInit_ex(w, NULL, NULL, NULL, v.iv, 1)); break;
    case 4: { /* copied context */
        EVP_CIPHER_CTX *z = EVP_CIPHER_CTX_new();
        I(EVP_CipherInit_ex(z, ci, E, K, v.iv, 1));
        if (sb >= 0) I(EVP_CIPHER_CTX_ctrl(z, EVP_CTRL_SET_SBOX, 0, (void *)SBSEL[sb].name));
        I(EVP_CIPHER_CTX_copy(w, z)); EVP_CIPHER_CTX_free(z); break; }
    }
    EVP_CIPHER_CTX_set_padding(w, 0);
    size_t n = write_par(w, p, &v, sb < 0 ? defsb : sb, der);
    if (!p->g89) mc_sample("%s: iv %s seed %s", p->sn, mc_hex(v.iv, PCD(p)->ivlen), mc_hex(v.seed, 8));
    size_t len = 0;
    for (unsigned i = 0; i < sizeof LENS / sizeof *LENS; i++) if (LENS[i] <= maxlen) len = LENS[i];
    if (maxlen > 100000) len = maxlen;
    len = fit(p, len);
    /* the writer's message */
    upd(w, M, C, len, "writer", p);
    ref_msg(p, K, &v, M, X, len, 1);
    if (memcmp(C, X, len)) { size_t q = 0; while (C[q] == X[q]) q++; mc_fail(mc_fmt("writer:%s", p->sn), "message of %zu bytes is not what the parameters say, from byte %zu", len, q); }
    /* parameters written now, after the data, still say the same */
    u8 d2[200]; size_t n2 = write_par(w, p, &v, v.sb, d2);
    if (n2 != n || memcmp(d2, der, n)) mc_fail(mc_fmt("after-data:%s", p->sn), "parameters change with the data: %s then %s", mc_hex(der, n), mc_hex(d2, n2));
    for (int f = 0; f < NFLOW; f++) {
        if (p->omac && f == 1) continue;        /* the key is derived from the parameters */
        mc_n_execs++; mc_trans(2);
        EVP_CIPHER_CTX *r = EVP_CIPHER_CTX_new();
        reader(r, p, f, der, n);
        memset(X, 0, len + 32);
        EVP_CIPHER_CTX_set_padding(r, 0);
        upd(r, C, X, len, RF[f], p);
        if (memcmp(X, M, len)) { size_t q = 0; while (X[q] == M[q]) q++; mc_fail(mc_fmt("reader:%s:%s", p->sn, RF[f]), "%s: message of %zu bytes wrong from byte %zu", RF[f], len, q); }
        write_par(r, p, &v, v.sb, d2);
        EVP_CIPHER_CTX_free(r);
    }
    EVP_CIPHER_CTX_free(w);
    mc_outcome("same message");
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(1);
    M = malloc(CAP); C = malloc(CAP); X = malloc(CAP);
    fill(M, CAP, 1); fill(K, 32, 2); fill(K2, 32, 3);
    cpar_init();
    for (int i = 0; i < NPC; i++) {
        pc *p = &PC[i];
        int nsb = p->g89 && PCD(p)->sboxsel ? 6 : 0;
        for (int sb = -1; sb < nsb; sb++)
            MC_CASE("%s %s", p->sn, sb < 0 ? "default" : SBSEL[sb].name)
                for (int wf = 0; wf < 5; wf++) for (int iv = 0; iv < 8; iv++) {
                    roundtrip(p, sb, iv, wf, !iv ? (p->g89 && !mc_thorough ? 3000 : 16400) : mc_thorough ? 3000 : 100);
                }
        if (p->sec > 100000) for (int wf = 0; wf < (mc_thorough ? 5 : 1); wf++) MC_CASE("%s second section, writer %d", p->sn, wf) roundtrip(p, -1, 0, wf, 262144 + 5000);
        if (PCD(p)->mode == M_CTR && !p->sec) MC_CASE("%s long", p->sn) roundtrip(p, -1, 0, 0, 262144 + 5000);
        MC_CASE("%s damaged", p->sn) cpar_damage(p, mc_thorough);
    }
    for (unsigned i = 0; i < sizeof NOPAR / sizeof *NOPAR; i++)
        MC_CASE("%s has no parameters", NOPAR[i]) {
            const char *sn = NOPAR[i];
            for (int enc = 0; enc < 2; enc++) for (int kind = 0; kind < 2; kind++) {
                EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); u8 k[64], iv[16]; fill(k, 64, 1); fill(iv, 16, 2);
                EVP_CIPHER_CTX_set_flags(c, EVP_CIPHER_CTX_FLAG_WRAP_ALLOW);
                if (EVP_CipherInit_ex(c, eng_cipher(sn), E, k, iv, enc) != 1) mc_fail(mc_fmt("init:%s", sn), "init");
                ASN1_TYPE *t = ASN1_TYPE_new();
                int r = EVP_CIPHER_param_to_asn1(c, t);
                if (r > 0) mc_fail(mc_fmt("writes:%s", sn), "writes parameters that do not carry its state");
                ASN1_TYPE_free(t);
                par v; memset(&v, 0, sizeof v); u8 d[200]; size_t n = ref_par(kind ? &PC[7] : &PC[10], &v, d);
                if (get_par(c, V_ASN1_SEQUENCE, d, n) > 0) mc_fail(mc_fmt("reads:%s", sn), "reads parameters of another cipher");
                EVP_CIPHER_CTX_free(c); ERR_clear_error(); mc_n_execs++; mc_trans(2);
            }
            mc_outcome("no parameters");
        }
    return mc_finish();
}
