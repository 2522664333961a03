/* P05: MACs against the reference: every chunking, size, interface, parameter
 * set and re-keying interval. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "mdx.h"
#ifndef NID_kuznyechik_mac
# define NID_kuznyechik_mac NID_grasshopper_mac
#endif
#define ACPKM "kuznyechik-ctr-acpkm-omac"
enum { IMIT_A, IMIT_Z, MAGMA, KUZ, KACPKM };
static const struct { const char *sn, *alt; int max, def, bl; } A[] = {
    { "gost-mac", 0, 8, 4, 8 }, { "gost-mac-12", 0, 8, 4, 8 }, { "magma-mac", 0, 8, 8, 8 },
    { "kuznyechik-mac", "grasshopper-mac", 16, 16, 16 }, { ACPKM, 0, 16, 16, 16 },
};
static int alg_nid(int a)
{
    int n = OBJ_sn2nid(A[a].sn);
    if (n == NID_undef && A[a].alt) n = OBJ_sn2nid(A[a].alt);
    return n;
}
static const EVP_MD *alg_md(int a)
{
    const EVP_MD *m = ENGINE_get_digest(E, alg_nid(a));
    if (!m) mc_fail("no-digest", "no %s", A[a].sn);
    return m;
}
typedef struct { u8 key[32]; int sbi; int section, tsec; int size; } mconf;
enum { API_CTRL, API_CTRL_XOF, API_SIGN, API_SIGN_STR, API_STRUCT };
static mconf MC;
static EVP_PKEY *newkey(int a, int api, const mconf *m)
{
    EVP_PKEY *k = NULL;
    if (api == API_SIGN && !m->size) k = EVP_PKEY_new_mac_key(alg_nid(a), E, m->key, 32);
    else {
        EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(alg_nid(a), E);
        if (!c || EVP_PKEY_keygen_init(c) != 1) mc_fail(mc_fmt("keygen-init:%s", A[a].sn), "keygen init fails");
        if (EVP_PKEY_CTX_ctrl_str(c, "hexkey", mc_hex(m->key, 32)) <= 0) mc_fail(mc_fmt("hexkey:%s", A[a].sn), "hexkey refused");
        if (m->sbi && EVP_PKEY_CTX_ctrl_str(c, "paramset", SBSEL[m->sbi - 1].name) <= 0)
            mc_fail(mc_fmt("paramset:%s", A[a].sn), "parameter set %s refused", SBSEL[m->sbi - 1].name);
        if (EVP_PKEY_keygen(c, &k) != 1) k = NULL;
        EVP_PKEY_CTX_free(c);
    }
    if (!k) mc_fail(mc_fmt("mac-key:%s", A[a].sn), "cannot create a MAC key");
    return k;
}
static EVP_MD_CTX *start(mdx *s)
{
    rng_reset(RNG_STREAM);      /* the key mask is random: same state, same bytes */
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    int a = s->a, api = s->b;
    const mconf *m = s->p;
    if (api == API_SIGN || api == API_SIGN_STR) {
        EVP_PKEY *k = newkey(a, api, m);
        EVP_PKEY_CTX *pc = NULL;
        int r = EVP_DigestSignInit(c, &pc, alg_md(a), E, k);
        EVP_PKEY_free(k);
        if (r != 1) mc_fail(mc_fmt("sign-init:%s", A[a].sn), "DigestSignInit returns %d", r);
        if (m->size) {
            r = api == API_SIGN ? EVP_PKEY_CTX_ctrl(pc, -1, -1, EVP_PKEY_CTRL_MAC_LEN, m->size, NULL)
                                : EVP_PKEY_CTX_ctrl_str(pc, "size", mc_fmt("%d", m->size));
            if (r <= 0) mc_fail(mc_fmt("size-refused:%s:%s", A[a].sn, api == API_SIGN ? "ctrl" : "str"), "MAC size %d refused (%d)", m->size, r);
        }
        return c;
    }
    if (!c || EVP_DigestInit_ex(c, alg_md(a), E) != 1) mc_fail(mc_fmt("init:%s", A[a].sn), "EVP_DigestInit_ex fails");
    u8 kk[32];
    memcpy(kk, m->key, 32);
    if (EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_SET_KEY, 32, kk) != 1) mc_fail(mc_fmt("set-key:%s", A[a].sn), "SET_KEY fails");
    memset(kk, 0x5c, 32);       /* the context must own its key */
    if (m->section) {
        int t = m->tsec;
        if (EVP_MD_CTX_ctrl(c, EVP_CTRL_KEY_MESH, m->section, t ? &t : NULL) != 1) mc_fail("key-mesh", "KEY_MESH(%d,%d) fails", m->section, t);
    }
    if (api == API_CTRL && m->size && EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_XOF_LEN, m->size, NULL) != 1)
        mc_fail(mc_fmt("xof-len:%s", A[a].sn), "XOF_LEN %d refused", m->size);
    return c;
}
static int finish(mdx *s, EVP_MD_CTX *c, u8 *out, size_t *len)
{
    const mconf *m = s->p;
    if (s->b == API_SIGN || s->b == API_SIGN_STR) {
        size_t l = 0;
        if (EVP_DigestSignFinal(c, NULL, &l) != 1) return 0;
        if (l != s->outlen) mc_fail(mc_fmt("size-query:%s", s->name), "size query says %zu, expected %zu", l, s->outlen);
        u8 *b = malloc(l);
        size_t l2 = l;
        int r = EVP_DigestSignFinal(c, b, &l2);
        if (r == 1) memcpy(out, b, l);
        free(b);
        *len = l2;
        return r;
    }
    if (s->b == API_CTRL_XOF) {
        size_t n = m->size ? m->size : A[s->a].def;
        u8 *b = malloc(n);
        int r = EVP_DigestFinalXOF(c, b, n);
        memcpy(out, b, n);
        free(b);
        *len = n;
        return r;
    }
    unsigned l = 999;
    u8 *b = malloc(EVP_MD_size(EVP_MD_CTX_md(c)) > (int)s->outlen ? EVP_MD_size(EVP_MD_CTX_md(c)) : s->outlen);
    int r = EVP_DigestFinal_ex(c, b, &l);
    memcpy(out, b, s->outlen);
    free(b);
    *len = m->size ? s->outlen : l;
    return r;
}
static sbox_t sbof(int a, const mconf *m)
{
    return m->sbi ? *SBSEL[m->sbi - 1].sb : a == IMIT_A ? RSB_A : RSB_Z;
}
static void ref(mdx *s, const u8 *msg, size_t n, u8 *o)
{
    const mconf *m = s->p;
    switch (s->a) {
    case IMIT_A: case IMIT_Z: ref_imit(m->key, sbof(s->a, m), 1, msg, n, o); break;
    case MAGMA: ref_omac(BC_MAGMA, m->key, msg, n, o); break;
    case KUZ: ref_omac(BC_KUZ, m->key, msg, n, o); break;
    default: ref_omac_acpkm(m->key, m->section ? m->section : 4096, m->tsec ? m->tsec : 4096, msg, n, o);
    }
}
static u8 *M;
#define MMAX (1 << 17)
static void setup(mdx *s, int a, int api, int size, unsigned seed)
{
    memset(s, 0, sizeof *s);
    memset(&MC, 0, sizeof MC);
    fill(MC.key, 32, seed);
    if (seed == 2) memset(MC.key, 0, 32);
    if (seed == 3) memset(MC.key, 0xff, 32);
    MC.size = size;
    s->name = A[a].sn; s->a = a; s->b = api; s->start = start; s->finish = finish; s->ref = ref;
    s->outlen = size ? size : A[a].def;
    s->msg = M; s->p = &MC; s->total = MMAX;
    /* a signing context does not survive a second final: no final on its copy */
    fill(M, MMAX, 11);
}
static const char *apin[] = { "ctrl", "xof", "sign", "sign-str" };
/* what follows a final: nothing crashes, nothing is a MAC until a key is set, and then it is the right one */
static int AFA;
static void after_final(void *u)
{
    u8 o[64], w[64]; unsigned l = 0; mdx s; int a = AFA;
    mc_reset_trace();
    setup(&s, a, API_CTRL, 0, 3);
    EVP_MD_CTX *c = start(&s);
    if (EVP_DigestUpdate(c, M, 9) != 1 || EVP_DigestFinal_ex(c, o, &l) != 1) mc_fail(mc_fmt("first-final:%s", A[a].sn), "the first MAC fails");
    for (int i = 0; i < 3; i++) {
        int sec = 32;
        switch (mc_choose(8)) {
        case 0: mc_op("XOF_LEN 1"); EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_XOF_LEN, 1, NULL); break;
        case 1: mc_op("XOF_LEN %d", A[a].max); EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_XOF_LEN, A[a].max, NULL); break;
        case 2: mc_op("KEY_LEN"); EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_KEY_LEN, 0, &l); break;
        case 3: mc_op("KEY_MESH 32"); EVP_MD_CTX_ctrl(c, EVP_CTRL_KEY_MESH, sec, NULL); break;
        case 4: mc_op("update"); if (EVP_DigestUpdate(c, M, 5) == 1 && EVP_DigestFinal_ex(c, o, &l) == 1) mc_fail(mc_fmt("no-key-after-final:%s", A[a].sn), "a MAC without a key is given"); break;
        case 5: mc_op("final"); EVP_DigestFinal_ex(c, o, &l); break;
        case 6: { mc_op("copy"); EVP_MD_CTX *y = EVP_MD_CTX_new(); if (EVP_MD_CTX_copy_ex(y, c) == 1) { EVP_MD_CTX_free(c); c = y; } else EVP_MD_CTX_free(y); break; }
        case 7: mc_op("nothing"); break;
        }
        mc_trans(1);
    }
    mc_op("SET_KEY, update(21), final");
    l = 0;
    if (EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_SET_KEY, 32, MC.key) != 1 || EVP_DigestUpdate(c, M, 21) != 1 || EVP_DigestFinal_ex(c, o, &l) != 1) mc_fail(mc_fmt("re-key:%s", A[a].sn), "the context cannot be keyed again");
    ref(&s, M, 21, w);
    if (l < (unsigned)A[a].def || memcmp(o, w, A[a].def)) mc_fail(mc_fmt("re-key-value:%s", A[a].sn), "MAC %s, expected %s", mc_hex(o, A[a].def), mc_hex(w, A[a].def));
    EVP_MD_CTX_free(c);
}
int main(int argc, char **argv)
{
    mdx s;
    static const size_t extra[] = { 64, 1024, 1031, 4096 };
    mc_init(argc, argv);
    eng_init(1);
    M = malloc(MMAX);
    for (int a = 0; a <= KACPKM; a++) {
        int bl = A[a].bl, blob = a <= IMIT_Z;
        for (int api = 0; api < 4; api++) {
            /* every size */
            for (int size = 0; size <= A[a].max; size++)
                MC_CASE("%s %s size %d", A[a].sn, apin[api], size) {
                    setup(&s, a, api, size, 1);
                    s.win = size ? (size == A[a].max ? 2 * bl + 2 : bl + 2) : mc_thorough || !api ? 3 * bl + 2 : 2 * bl + 2;
                    if (bl == 16 && !mc_thorough) s.win = size ? 18 : 36;
                    mdx_cuts(&s, size ? 2 : s.win <= 26 ? 4 : 3);
                    mc_outcome("%s %s size %d", A[a].sn, apin[api], size);
                }
        }
        for (unsigned seed = 2; seed < 5; seed++)
            MC_CASE("%s key pattern %u", A[a].sn, seed) {
                setup(&s, a, API_CTRL, 0, seed);
                s.win = 4 * bl + 1;
                mdx_cuts(&s, bl == 16 && !mc_thorough ? 2 : 3);
            }
        /* state search of the MAC context */
        if (blob) {
            for (int sb = 0; sb <= 6; sb++)
                MC_CASE("%s states sbox %d", A[a].sn, sb) {
                    setup(&s, a, sb ? API_SIGN_STR : API_CTRL, sb ? 8 : 0, 20 + sb);
                    MC.sbi = sb;
                    s.win = mc_thorough ? 60 : 34;
                    s.extra = extra; s.nextra = 4;
                    mdx_states(&s);
                }
            for (int w = 1; w < 4; w++)
                for (int sb = 0; sb <= 6; sb++)
                    MC_CASE("%s window %d sbox %d", A[a].sn, w, sb) {
                        setup(&s, a, sb ? API_SIGN_STR : API_CTRL, sb ? 8 : 0, 20 + sb);
                        MC.sbi = sb;
                        s.base = 1024 * w - 18;
                        s.win = 28;
                        mdx_cuts(&s, mc_thorough || !sb ? 3 : 2);
                        if (w == 1) mc_sample("%s: all cuts around offset %zu", A[a].sn, s.base);
                    }
        }
        else for (int w = 0; w < 3; w++)
            MC_CASE("%s cuts at offset %d", A[a].sn, w == 0 ? 256 : w == 1 ? 1024 : 4096) {
                setup(&s, a, API_CTRL, 0, 30);
                size_t at = w == 0 ? 256 : w == 1 ? 1024 : 4096;
                s.base = at - bl - 2;
                s.win = 2 * bl + 4;
                mdx_cuts(&s, 3);
            }
        /* every message length, one update and byte by byte */
        MC_CASE("%s all lengths", A[a].sn) {
            setup(&s, a, API_CTRL, 0, 40);
            for (size_t n = 0; n <= (mc_thorough ? 4200 : 2100); n++) {
                u8 o[16], e[16]; size_t l;
                EVP_MD_CTX *c = start(&s);
                EVP_DigestUpdate(c, M, n);
                if (finish(&s, c, o, &l) != 1) mc_fail("final", "final fails");
                EVP_MD_CTX_free(c);
                ref(&s, M, n, e);
                mc_n_execs++; mc_trans(2);
                if (n % 64 == 0) mc_alive();
                if (memcmp(o, e, s.outlen)) mc_fail(mc_fmt("wrong-value:%s", A[a].sn), "%zu bytes: got %s expected %s", n, mc_hex(o, s.outlen), mc_hex(e, s.outlen));
            }
        }
        /* sizes outside the range */
        static const int bad[] = { 0, -1, -2147483647 - 1, 9, 17, 32, 64, 255, 256, 257, 260, 264, 65537, 0x7fffffff, 0x10004 };
        for (int i = 0; i < (int)(sizeof bad / sizeof *bad); i++) {
            if (bad[i] == 9 && A[a].max == 16) continue;
            MC_CASE("%s bad size %d", A[a].sn, bad[i]) {
                u8 o[128]; size_t l = 64;
                setup(&s, a, API_CTRL, 0, 1);
                s.base = 0; s.win = 20;
                mc_op("ctrl XOF_LEN %d", bad[i]);
                EVP_MD_CTX *c = start(&s);
                if (EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_XOF_LEN, bad[i], NULL) > 0) mc_fail(mc_fmt("bad-size-accepted:%s", A[a].sn), "XOF_LEN %d accepted", bad[i]);
                /* and the context still gives the default MAC */
                EVP_DigestUpdate(c, M, 20);
                if (finish(&s, c, o, &l) != 1) mc_fail("final", "final after a refused size fails");
                u8 e[16]; ref(&s, M, 20, e);
                if (memcmp(o, e, A[a].def)) mc_fail(mc_fmt("bad-size-effect:%s", A[a].sn), "a refused size changed the MAC");
                EVP_MD_CTX_free(c);
                s.b = API_SIGN;
                c = start(&s);
                EVP_PKEY_CTX *pc = EVP_MD_CTX_pkey_ctx(c);
                if (EVP_PKEY_CTX_ctrl(pc, -1, -1, EVP_PKEY_CTRL_MAC_LEN, bad[i], NULL) > 0 || EVP_PKEY_CTX_ctrl_str(pc, "size", mc_fmt("%d", bad[i])) > 0)
                    mc_fail(mc_fmt("bad-size-accepted:%s", A[a].sn), "MAC_LEN %d accepted", bad[i]);
                if (EVP_PKEY_CTX_ctrl_str(pc, "size", "4x") > 0) mc_fail("bad-size-text", "size 4x accepted");
                EVP_DigestSignUpdate(c, M, 20);
                l = 64;
                if (EVP_DigestSignFinal(c, o, &l) != 1 || l != A[a].def || memcmp(o, e, l)) mc_fail(mc_fmt("bad-size-effect:%s", A[a].sn), "a refused size changed the MAC");
                EVP_MD_CTX_free(c);
                if (bad[i] > 0 && bad[i] < 100) {
                    c = EVP_MD_CTX_new();
                    s.b = API_CTRL_XOF;
                    EVP_MD_CTX_free(c);
                    c = start(&s);
                    EVP_DigestUpdate(c, M, 20);
                    if (EVP_DigestFinalXOF(c, o, bad[i]) == 1) mc_fail(mc_fmt("bad-size-accepted:%s", A[a].sn), "DigestFinalXOF(%d) succeeds", bad[i]);
                    EVP_MD_CTX_free(c);
                }
                mc_n_execs++;
                mc_outcome("%s bad size refused", A[a].sn);
            }
        }
        /* a buffer one byte too small must not be overrun */
        MC_CASE("%s short buffer", A[a].sn)
            for (int size = 0; size <= A[a].max; size++) {
                setup(&s, a, API_SIGN, size, 1);
                for (int have = 0; have < (size ? size : A[a].def); have++) {
                    EVP_MD_CTX *c = start(&s);
                    EVP_DigestSignUpdate(c, M, 20);
                    size_t l = have;
                    u8 b[64];
                    memset(b, 0xA5, 64);
                    mc_op("DigestSignFinal with %d of %zu bytes", have, s.outlen);
                    int r = EVP_DigestSignFinal(c, b, &l);
                    mc_n_execs++;
                    for (int i = have; i < 64; i++)
                        if (b[i] != 0xA5) mc_fail("short-buffer-overrun:DigestSignFinal", "%s: a %d-byte buffer got more bytes (result %d)", A[a].sn, have, r);
                    if (r == 1 && l > (size_t)have) mc_fail("short-buffer-length", "%s: success with %zu bytes in a %d-byte buffer", A[a].sn, l, have);
                    EVP_MD_CTX_free(c);
                    mc_reset_trace();
                }
            }
        MC_CASE("%s after a final", A[a].sn) { AFA = a; mc_explore(after_final, NULL); }
        /* no key: refused */
        MC_CASE("%s without a key", A[a].sn) {
            u8 o[64]; unsigned l = 0;
            EVP_MD_CTX *c = EVP_MD_CTX_new();
            EVP_DigestInit_ex(c, alg_md(a), E);
            if (EVP_DigestUpdate(c, "x", 1) == 1) mc_fail(mc_fmt("no-key-update:%s", A[a].sn), "update without a key succeeds");
            if (EVP_DigestFinal_ex(c, o, &l) == 1) mc_fail(mc_fmt("no-key-final:%s", A[a].sn), "final without a key succeeds");
            EVP_MD_CTX_free(c);
            for (int kl = 0; kl < 70; kl++) {
                u8 k[80] = {0};
                c = EVP_MD_CTX_new();
                EVP_DigestInit_ex(c, alg_md(a), E);
                if (kl != 32 && kl && EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_SET_KEY, kl, k) > 0) mc_fail(mc_fmt("bad-key-length:%s", A[a].sn), "key of %d bytes accepted", kl);
                EVP_MD_CTX_free(c);
                EVP_PKEY_CTX *pc = EVP_PKEY_CTX_new_id(alg_nid(a), E);
                EVP_PKEY_keygen_init(pc);
                char hx[200], tx[100];
                strcpy(hx, mc_hex(k, kl)); memset(tx, 'k', 99); tx[kl] = 0;
                if (kl != 32 && (EVP_PKEY_CTX_ctrl_str(pc, "hexkey", hx) > 0 || EVP_PKEY_CTX_ctrl_str(pc, "key", tx) > 0
                    || EVP_PKEY_CTX_ctrl(pc, -1, -1, EVP_PKEY_CTRL_SET_MAC_KEY, kl, k) > 0))
                    mc_fail(mc_fmt("bad-key-length:%s", A[a].sn), "pkey key of %d bytes accepted", kl);
                EVP_PKEY *pk = NULL;
                if (kl != 32 && EVP_PKEY_keygen(pc, &pk) == 1) mc_fail(mc_fmt("keygen-no-key:%s", A[a].sn), "keygen without a key succeeds");
                EVP_PKEY_CTX_free(pc);
                mc_n_execs++;
            }
        }
    }
    /* ACPKM intervals */
    static const int sec[] = { 16, 32, 48, 64, 128, 4096 };
    static const int ts[] = { 0, 16, 48, 64, 96, 112, 192, 768 };
    for (int i = 0; i < 6; i++)
        for (int j = 0; j < 8; j++) {
            if (sec[i] == 4096 && j > 2 && !mc_thorough) continue;
            if (j == 1 && i) continue;
            MC_CASE("acpkm section %d T %d", sec[i], ts[j]) {
                setup(&s, KACPKM, API_CTRL, 0, 50 + i);
                MC.section = sec[i]; MC.tsec = ts[j];
                if (ts[j] && ts[j] < 48) s.name = "kuznyechik-ctr-acpkm-omac:T<48";
                s.win = sec[i] <= 32 && mc_thorough ? 84 : 52;
                mdx_cuts(&s, mc_thorough ? 3 : 2);
                for (int w = 1; w < 4; w++) {
                    s.base = (size_t)w * sec[i] * (w == 3 ? 5 : 1);
                    if (s.base < 40) s.base = 40;
                    s.base -= 18; s.win = mc_thorough ? 36 : 22;
                    mdx_cuts(&s, mc_thorough || s.base < 100 ? 3 : 2);
                }
                mc_outcome("acpkm section %d T %d", sec[i], ts[j]);
            }
            MC_CASE("acpkm section %d T %d all lengths", sec[i], ts[j]) {
                setup(&s, KACPKM, API_CTRL, 0, 60 + i);
                MC.section = sec[i]; MC.tsec = ts[j];
                for (size_t n = 0; n < 120; n++) {
                    size_t m = n < 40 ? n : n < 80 ? sec[i] * (n - 40) + 1 : sec[i] * (n - 80);
                    if (m > MMAX) continue;
                    u8 o[16], e[16]; size_t l;
                    EVP_MD_CTX *c = start(&s);
                    EVP_DigestUpdate(c, M, m);
                    if (finish(&s, c, o, &l) != 1) mc_fail("final", "final fails");
                    EVP_MD_CTX_free(c);
                    ref(&s, M, m, e);
                    mc_n_execs++; mc_trans(2);
                    mc_alive();
                    if (memcmp(o, e, 16)) mc_fail(mc_fmt("wrong-value:%s%s", s.name, ts[j] && ts[j] < 48 ? ":T<48" : ""), "section %d T %d: %zu bytes: got %s expected %s", sec[i], ts[j], m, mc_hex(o, 16), mc_hex(e, 16));
                }
            }
        }
    static const int badsec[] = { 0, 1, 8, 15, 17, 24, 4095 };
    for (int i = 0; i < 7; i++)
        MC_CASE("acpkm bad section %d", badsec[i]) {
            setup(&s, KACPKM, API_CTRL, 0, 1);
            EVP_MD_CTX *c = start(&s);
            if (EVP_MD_CTX_ctrl(c, EVP_CTRL_KEY_MESH, badsec[i], NULL) > 0) mc_fail("bad-section", "section %d accepted", badsec[i]);
            EVP_MD_CTX_free(c);
            mc_n_execs++;
        }
    return mc_finish();
}
