/* P17: engine loading, use, unloading in every order; engine parameters. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "eng.h"
#include <unistd.h>
#ifdef VARIANT_SO
/* the engine is a loadable module beside this program */
static int so_load(void)
{
    char path[512];
    ssize_t n = readlink("/proc/self/exe", path, 500);
    if (n <= 0) mc_internal("own path");
    strcpy(path + n, ".so");
    ENGINE *d = ENGINE_by_id("dynamic");
    if (!d) mc_internal("no dynamic engine");
    int r = ENGINE_ctrl_cmd_string(d, "SO_PATH", path, 0) && ENGINE_ctrl_cmd_string(d, "ID", "gost", 0)
        && ENGINE_ctrl_cmd_string(d, "LIST_ADD", "1", 0) && ENGINE_ctrl_cmd_string(d, "LOAD", NULL, 0);
    ENGINE_free(d);
    ERR_clear_error();
    return r;
}
void ENGINE_load_gost(void) { so_load(); }
#else
extern void ENGINE_load_gost(void);
#endif
/* ---------------------------------------------------------------- fingerprints */
static const char *CN[] = { "gost89", "gost89-cnt", "gost89-cnt-12", "gost89-cbc", "kuznyechik-ecb", "kuznyechik-cbc", "kuznyechik-cfb", "kuznyechik-ofb", "kuznyechik-ctr", "magma-ecb",
    "kuznyechik-mgm", "magma-cbc", "magma-ctr", "magma-ctr-acpkm", "magma-ctr-acpkm-omac", "magma-mgm", "kuznyechik-ctr-acpkm", "kuznyechik-ctr-acpkm-omac", "magma-kexp15", "kuznyechik-kexp15" };
static const char *DN[] = { "md_gost94", "gost-mac", "md_gost12_256", "md_gost12_512", "gost-mac-12", "magma-mac", "kuznyechik-mac", "kuznyechik-ctr-acpkm-omac" };
static const char *PN[] = { "gost2001", "id-GostR3410-2001DH", "gost-mac", "gost2012_256", "gost2012_512", "gost-mac-12", "magma-mac", "kuznyechik-mac", "magma-ctr-acpkm-omac", "kuznyechik-ctr-acpkm-omac" };
#define NC 20
#define ND 8
#define NP 10
static struct fp { int set; uint64_t c[NC], d[ND]; } *FP;   /* results of a fresh process */

static uint64_t cipher_fp(const char *sn, const EVP_CIPHER *c, ENGINE *e, const char *how)
{
    u8 key[64], iv[16], in[100], out[200];
    int n = 0, m = 0, wrap = strstr(sn, "kexp15") != NULL;
    fill(key, 64, 1); fill(iv, 16, 2); fill(in, 100, 3);
    iv[0] &= 0x7f;
    rng_reset(RNG_STREAM);
    if (wrap) {                         /* an altered wrapped key is refused: the decrypting context is alive */
        EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
        EVP_CIPHER_CTX_set_flags(x, EVP_CIPHER_CTX_FLAG_WRAP_ALLOW);
        if (EVP_CipherInit_ex(x, c, e, key, iv, 0) != 1) mc_fail(mc_fmt("unusable:%s:%s", how, sn), "%s cannot be initialised (%s)", sn, how);
        int r = EVP_CipherUpdate(x, out, &n, in, strstr(sn, "magma") ? 40 : 48);
        EVP_CIPHER_CTX_free(x);
        return r > 0;
    }
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
    int blk = EVP_CIPHER_get_block_size(c);
    if (EVP_CipherInit_ex(x, c, e, key, EVP_CIPHER_get_iv_length(c) ? iv : NULL, 1) != 1) mc_fail(mc_fmt("unusable:%s:%s", how, sn), "%s cannot be initialised (%s)", sn, how);
    EVP_CIPHER_CTX_set_padding(x, 0);
    int len = blk > 1 ? 96 : 97;
    if (EVP_CipherUpdate(x, out, &n, in, len) <= 0 || EVP_CipherFinal_ex(x, out + n, &m) <= 0)
        mc_fail(mc_fmt("unusable:%s:%s", how, sn), "%s does not encrypt (%s)", sn, how);
    EVP_CIPHER_CTX_free(x);
    for (int i = 0; i < NCD; i++) if (!strcmp(CD[i].sn, sn)) {
        cconf f; u8 w[100];
        conf_defaults(&f, &CD[i], 0); memcpy(f.key, key, 32); memcpy(f.iv, iv, CD[i].ivlen);
        conf_ref(&f, in, w, len, 1);
        if (n + m != len || memcmp(w, out, len)) mc_fail(mc_fmt("wrong:%s:%s", how, sn), "%s encrypts wrongly (%s)", sn, how);
    }
    return mc_hash(out, n + m, 7);
}
static uint64_t digest_fp(const char *sn, const EVP_MD *md, ENGINE *e, const char *how)
{
    u8 key[32], in[100], out[64];
    unsigned n = 0;
    fill(key, 32, 1); fill(in, 100, 3);
    EVP_MD_CTX *x = EVP_MD_CTX_new();
    int r = EVP_DigestInit_ex(x, md, e) == 1;
    if (r && strstr(sn, "mac")) r = EVP_MD_CTX_ctrl(x, EVP_MD_CTRL_SET_KEY, 32, key) == 1;
    r = r && EVP_DigestUpdate(x, in, 100) == 1 && EVP_DigestFinal_ex(x, out, &n) == 1;
    EVP_MD_CTX_free(x);
    if (!r) mc_fail(mc_fmt("unusable:%s:%s", how, sn), "%s does not work (%s)", sn, how);
    if (!strncmp(sn, "md_gost12", 9)) {
        u8 w[64]; ref_streebog(n * 8, in, 100, w);
        if (memcmp(w, out, n)) mc_fail(mc_fmt("wrong:%s:%s", how, sn), "%s is wrong (%s)", sn, how);
    }
    return mc_hash(out, n, 9);
}
static void pkey_use(int nid, ENGINE *e, const char *how)
{
    const char *sn = OBJ_nid2sn(nid);
    EVP_PKEY_CTX *x = EVP_PKEY_CTX_new_id(nid, e);
    EVP_PKEY *k = NULL;
    u8 h[64], sig[128];
    size_t l = sizeof sig;
    int mac = strstr(sn, "mac") != NULL;
    rng_reset(RNG_STREAM);
    fill(h, 64, 5);
    if (!x) mc_fail(mc_fmt("unusable:%s:%s", how, sn), "no key type %s (%s)", sn, how);
    int r = EVP_PKEY_keygen_init(x) == 1;
    if (r && !mac) r = EVP_PKEY_CTX_ctrl_str(x, "paramset", "A") == 1;
    if (r && mac) r = EVP_PKEY_CTX_ctrl(x, -1, -1, EVP_PKEY_CTRL_SET_MAC_KEY, 32, h) == 1;
    r = r && EVP_PKEY_keygen(x, &k) == 1;
    EVP_PKEY_CTX_free(x);
    if (!r) { mc_fail(mc_fmt("unusable:%s:%s", how, sn), "no key of type %s can be made (%s)", sn, how); }
    if (!mac) {
        int n = nid == NID_id_GostR3410_2012_512 ? 64 : 32;
        x = EVP_PKEY_CTX_new(k, NULL);
        r = x && EVP_PKEY_sign_init(x) == 1 && EVP_PKEY_sign(x, sig, &l, h, n) == 1 && EVP_PKEY_verify_init(x) == 1 && EVP_PKEY_verify(x, sig, l, h, n) == 1;
        if (r) { sig[3] ^= 1; r = EVP_PKEY_verify(x, sig, l, h, n) != 1; }
        EVP_PKEY_CTX_free(x);
        u8 *d = NULL; int dl = i2d_PUBKEY(k, &d);
        if (!r || dl <= 0) mc_fail(mc_fmt("unusable:%s:%s", how, sn), "%s does not sign, verify or encode (%s)", sn, how);
        const u8 *q = d;
        EVP_PKEY *p = d2i_PUBKEY(NULL, &q, dl);
        if (!p || EVP_PKEY_eq(p, k) != 1) mc_fail(mc_fmt("unusable:%s:%s", how, sn), "%s does not decode its public key (%s)", sn, how);
        EVP_PKEY_free(p); OPENSSL_free(d);
    }
    EVP_PKEY_free(k);
}
static int listed_nid(const char *sn, const int *nids, int n)
{
    for (int i = 0; i < n; i++) if (OBJ_nid2sn(nids[i]) && !strcmp(OBJ_nid2sn(nids[i]), sn)) return nids[i];
    return 0;
}
/* everything the initialised engine announces works and gives the results of a fresh process */
static void use_all(ENGINE *e, int reg, int deflt)
{
    const int *nids;
    int n = ENGINE_get_ciphers(e)(e, NULL, &nids, 0);
    if (n != NC) mc_fail("announced-ciphers", "%d ciphers announced", n);
    for (int i = 0; i < NC; i++) {
        int nid = listed_nid(CN[i], nids, n);
        if (!nid) mc_fail(mc_fmt("not-announced:%s", CN[i]), "cipher %s is not announced", CN[i]);
        if (OBJ_sn2nid(CN[i]) != nid) mc_fail(mc_fmt("nid:%s", CN[i]), "name %s does not lead to the announced cipher", CN[i]);
        const EVP_CIPHER *c = ENGINE_get_cipher(e, nid);
        if (!c || EVP_CIPHER_get_nid(c) != nid) mc_fail(mc_fmt("cipher:%s", CN[i]), "announced cipher %s is not provided under its number", CN[i]);
        if (!deflt && strstr(CN[i], "-omac")) continue;     /* these need the MAC key types */
        uint64_t h = cipher_fp(CN[i], c, e, "engine");
        if (FP->set && h != FP->c[i]) mc_fail(mc_fmt("result:%s", CN[i]), "%s gives another result than in a fresh process", CN[i]);
        if (!FP->set) FP->c[i] = h;
        if (reg) {
            const EVP_CIPHER *b = EVP_get_cipherbyname(CN[i]);
            if (!b) mc_fail(mc_fmt("byname:%s", CN[i]), "cipher %s is not found by name", CN[i]);
            h = cipher_fp(CN[i], b, NULL, "by-name");
            if (FP->set && h != FP->c[i]) mc_fail(mc_fmt("result:by-name:%s", CN[i]), "%s by name gives another result than in a fresh process", CN[i]);
        }
    }
    n = ENGINE_get_digests(e)(e, NULL, &nids, 0);
    if (n != ND) mc_fail("announced-digests", "%d digests announced", n);
    for (int i = 0; i < ND; i++) {
        int nid = listed_nid(DN[i], nids, n);
        if (!nid) mc_fail(mc_fmt("not-announced:%s", DN[i]), "digest %s is not announced", DN[i]);
        const EVP_MD *d = ENGINE_get_digest(e, nid);
        if (!d || EVP_MD_get_type(d) != nid) mc_fail(mc_fmt("digest:%s", DN[i]), "announced digest %s is not provided", DN[i]);
        uint64_t h = digest_fp(DN[i], d, e, "engine");
        if (FP->set && h != FP->d[i]) mc_fail(mc_fmt("result:%s", DN[i]), "%s gives another result than in a fresh process", DN[i]);
        if (!FP->set) FP->d[i] = h;
        if (reg) {
            const EVP_MD *b = EVP_get_digestbyname(DN[i]);
            if (!b) mc_fail(mc_fmt("byname:%s", DN[i]), "digest %s is not found by name", DN[i]);
            h = digest_fp(DN[i], b, NULL, "by-name");
            if (FP->set && h != FP->d[i]) mc_fail(mc_fmt("result:by-name:%s", DN[i]), "%s by name gives another result than in a fresh process", DN[i]);
        }
    }
    if (reg) {                          /* the second names of the digests */
        static const char *AL[][2] = { { "streebog256", "md_gost12_256" }, { "streebog512", "md_gost12_512" } };
        for (int i = 0; i < 2; i++) {
            const EVP_MD *b = EVP_get_digestbyname(AL[i][0]);
            if (!b || EVP_MD_get_type(b) != OBJ_sn2nid(AL[i][1])) mc_fail(mc_fmt("alias:%s", AL[i][0]), "digest name %s is lost", AL[i][0]);
            digest_fp(AL[i][1], b, NULL, "alias");
        }
    }
    ENGINE_PKEY_METHS_PTR pm = ENGINE_get_pkey_meths(e);
    n = pm(e, NULL, &nids, 0);
    if (n != NP) mc_fail("announced-keys", "%d key types announced", n);
    for (int i = 0; i < NP; i++) {
        int nid = listed_nid(PN[i], nids, n);
        if (!nid) mc_fail(mc_fmt("not-announced:key:%s", PN[i]), "key type %s is not announced", PN[i]);
        if (i == 8) continue;           /* see methods() */
        if (!ENGINE_get_pkey_meth(e, nid) || !ENGINE_get_pkey_asn1_meth(e, nid)) mc_fail(mc_fmt("no-method:%s", PN[i]), "announced key type %s has no method", PN[i]);
        if (deflt) { pkey_use(nid, e, "engine"); pkey_use(nid, NULL, "default"); }  /* key types need their methods registered */
    }
    ERR_clear_error();
    /* errors of the engine have a text */
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
    EVP_CipherInit_ex(x, ENGINE_get_cipher(e, NID_gost89_cbc), e, NULL, NULL, 1);
    if (EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_SET_SBOX, 0, "no such set") > 0) mc_fail("bad-sbox", "unknown S-box accepted");
    unsigned long er = ERR_peek_last_error();
    if (er && !ERR_reason_error_string(er)) mc_fail("no-error-text", "error %lx of the engine has no text", er);
    EVP_CIPHER_CTX_free(x);
    ERR_clear_error();
    mc_count("full_uses", 1);
}
/* names that the engine has registered never lead to freed methods */
static void touch_names(int alive)
{
    for (int i = 0; i < NC; i++) { const EVP_CIPHER *c = EVP_get_cipherbyname(CN[i]); if (c && !strstr(CN[i], "-omac")) cipher_fp(CN[i], c, NULL, "left-name"); else if (c) EVP_CIPHER_get_nid(c); }
    for (int i = 0; i < ND; i++) { const EVP_MD *d = EVP_get_digestbyname(DN[i]); if (d) digest_fp(DN[i], d, NULL, "left-name"); }
    static const char *AL[] = { "streebog256", "streebog512" };
    for (int i = 0; i < 2; i++) { const EVP_MD *d = EVP_get_digestbyname(AL[i]); if (d) digest_fp("md_gost12_512", d, NULL, "left-name"); }
    ERR_clear_error();
}
/* ---------------------------------------------------------------- histories */
enum { O_LOAD, O_GET, O_INIT, O_FINISH, O_FREE, O_DEFAULT, O_REMOVE, O_USE, O_HOLD, O_HELD, O_DROP, O_N };
static const char *ON[] = { "load", "get", "init", "finish", "free", "set default", "unregister and remove", "use everything", "open contexts", "use held contexts", "close contexts" };
static int depth, pre[3], npre;
static struct { int listed, reg, def, nh, nf, held; } M;
static EVP_CIPHER_CTX *HC; static EVP_MD_CTX *HD; static EVP_PKEY *HK; static EVP_PKEY_CTX *HP;
static int hpos;
static int alive(void) { return M.listed || M.nh || M.nf || M.held; }
static int enabled(int o)
{
    switch (o) {
    case O_LOAD: return 1;
    case O_GET: return M.nh < 2;
    case O_INIT: return M.nh > 0 && M.nf < 2;
    case O_FINISH: return M.nf > 0;
    case O_FREE: return M.nh > 0;
    case O_DEFAULT: return M.nf > 0 || M.nh > 0;
    case O_REMOVE: return M.listed;
    case O_USE: return M.nf > 0;
    case O_HOLD: return M.nf > 0 && !M.held;
    case O_HELD: return M.held;
    case O_DROP: return M.held;
    }
    return 0;
}
static u8 hin[64], hw[64];
static void hold(void)
{
    cconf f;
    fill(hin, 64, 11); hpos = 5;
    conf_defaults(&f, &CD[12], 21);
    if (strcmp(f.d->sn, "kuznyechik-ctr")) mc_internal("table");
    conf_ref(&f, hin, hw, 64, 1);
    HC = EVP_CIPHER_CTX_new(); HD = EVP_MD_CTX_new();
    int n; u8 b[64];
    if (!conf_init(&f, HC, 1, NULL, 0) || EVP_CipherUpdate(HC, b, &n, hin, 5) != 1 || memcmp(b, hw, 5)) mc_fail("hold-cipher", "cipher context fails");
    if (EVP_DigestInit_ex(HD, eng_digest("md_gost12_256"), E) != 1 || EVP_DigestUpdate(HD, hin, 5) != 1) mc_fail("hold-digest", "digest context fails");
    if (M.def) {
        EVP_PKEY_CTX *x = EVP_PKEY_CTX_new_id(NID_id_GostR3410_2012_256, E);
        rng_reset(RNG_STREAM);
        if (EVP_PKEY_keygen_init(x) != 1 || EVP_PKEY_CTX_ctrl_str(x, "paramset", "A") != 1 || EVP_PKEY_keygen(x, &HK) != 1) mc_fail("hold-key", "no key");
        EVP_PKEY_CTX_free(x);
        HP = EVP_PKEY_CTX_new(HK, NULL);
        if (EVP_PKEY_sign_init(HP) != 1) mc_fail("hold-sign", "sign init fails");
    }
    M.held = 1;
}
static void held(void)
{
    u8 b[64], w[64], s[64], h[32]; int n; unsigned l; size_t sl = 64;
    if (EVP_CipherUpdate(HC, b, &n, hin + hpos, 7) != 1 || n != 7 || memcmp(b, hw + hpos, 7)) mc_fail("held-cipher", "a cipher context opened before gives wrong data");
    if (EVP_DigestUpdate(HD, hin + hpos, 7) != 1) mc_fail("held-digest", "a digest context opened before fails");
    hpos += 7;
    EVP_MD_CTX *x = EVP_MD_CTX_new();
    if (EVP_MD_CTX_copy_ex(x, HD) != 1 || EVP_DigestFinal_ex(x, b, &l) != 1) mc_fail("held-digest", "a digest context opened before fails");
    EVP_MD_CTX_free(x);
    ref_streebog(256, hin, hpos, w);
    if (memcmp(w, b, 32)) mc_fail("held-digest", "a digest context opened before gives a wrong digest");
    if (HK && M.def) {      /* libcrypto finds the type of a key in its tables */
        fill(h, 32, hpos);
        if (EVP_PKEY_sign(HP, s, &sl, h, 32) != 1) mc_fail("held-sign", "a key made before does not sign");
        EVP_PKEY_CTX *v = EVP_PKEY_CTX_new(HK, NULL);
        if (!v || EVP_PKEY_verify_init(v) != 1 || EVP_PKEY_verify(v, s, sl, h, 32) != 1) mc_fail("held-verify", "a key made before does not verify");
        EVP_PKEY_CTX_free(v);
    }
}
static void drop(void)
{
    EVP_CIPHER_CTX_free(HC); EVP_MD_CTX_free(HD); EVP_PKEY_CTX_free(HP); EVP_PKEY_free(HK);
    HC = NULL; HD = NULL; HP = NULL; HK = NULL; M.held = 0;
}
static void step(int o)
{
    int was = alive();
    switch (o) {
    case O_LOAD:
        ENGINE_load_gost();
        if (!was) M.listed = M.reg = 1;
        ENGINE *e = ENGINE_by_id("gost");
        if (!!e != M.listed) mc_fail(e ? "load:listed" : "load:missing", e ? "an engine appears that should not" : "the engine cannot be loaded");
        ENGINE_free(e);
        break;
    case O_GET: {
        ENGINE *g = ENGINE_by_id("gost");
        if (!!g != M.listed) mc_fail(g ? "get:listed" : "get:missing", g ? "an engine appears that should not" : "the loaded engine is not found");
        if (g) { if (M.nh && g != E) mc_fail("get:other", "another engine under the same name"); E = g; M.nh++; }
        break;
    }
    case O_INIT:
        if (ENGINE_init(E) != 1) mc_fail("init", "ENGINE_init fails");
        M.nf++;
        break;
    case O_FINISH:
        if (ENGINE_finish(E) != 1) mc_fail("finish", "ENGINE_finish fails");
        M.nf--;
        break;
    case O_FREE: ENGINE_free(E); M.nh--; break;
    case O_DEFAULT:
        if (ENGINE_set_default(E, ENGINE_METHOD_ALL) != 1) mc_fail("default", "ENGINE_set_default fails");
        M.def = M.reg = 1;
        break;
    case O_REMOVE: {
        ENGINE *g = ENGINE_by_id("gost");
        ENGINE_unregister_ciphers(g); ENGINE_unregister_digests(g); ENGINE_unregister_pkey_meths(g); ENGINE_unregister_pkey_asn1_meths(g);
        if (ENGINE_remove(g) != 1) mc_fail("remove", "ENGINE_remove fails");
        ENGINE_free(g);
        M.listed = M.reg = M.def = 0;
        break;
    }
    case O_USE: use_all(E, M.reg, M.def); break;
    case O_HOLD: hold(); break;
    case O_HELD: held(); break;
    case O_DROP: drop(); break;
    }
    if (!alive()) { E = NULL; if (was) mc_count("unloads", 1); }
    if (was && !alive() || o == O_REMOVE) touch_names(alive());
}
/* how the first operations change the model (no contexts yet) */
static void model(int o)
{
    int was = alive();
    if (o == O_LOAD && !was) M.listed = M.reg = 1;
    if (o == O_GET && M.listed) M.nh++;
    if (o == O_INIT) M.nf++;
    if (o == O_FINISH) M.nf--;
    if (o == O_FREE) M.nh--;
    if (o == O_DEFAULT) M.def = M.reg = 1;
    if (o == O_REMOVE) M.listed = M.reg = M.def = 0;
    if (o == O_HOLD) M.held = 1;
}
static void teardown(void)
{
    if (M.held) { held(); drop(); }
    while (M.nf) { M.nf--; if (ENGINE_finish(E) != 1) mc_fail("finish", "ENGINE_finish fails"); }
    while (M.nh) { M.nh--; ENGINE_free(E); }
    if (M.listed) step(O_REMOVE);
    if (M.reg) {    /* made default again after it was removed from the list */
        mc_internal("registered without being listed");
    }
}
static void history(void *a)
{
    memset(&M, 0, sizeof M); E = NULL;
    OPENSSL_init_crypto(OPENSSL_INIT_NO_LOAD_CONFIG | OPENSSL_INIT_LOAD_CRYPTO_STRINGS, NULL);
    for (int i = 0; i < depth; i++) {
        int en[O_N], n = 0, o;
        if (i < npre) o = pre[i];
        else {
            for (int k = 0; k < O_N; k++) if (enabled(k) && !(k == O_DEFAULT && !M.listed)) en[n++] = k;
            o = en[mc_choose(n)];
        }
        mc_op("%s", ON[o]);
        step(o);
        mc_trans(1);
        mc_state(&M, sizeof M);
    }
    /* whatever came before, the engine works now, and once more after unloading */
    mc_op("then a full use");
    if (!alive()) step(O_LOAD);
    if (M.listed || M.nf) {
        if (!M.nf && !M.nh) step(O_GET);
        if (!M.nf) step(O_INIT);
        step(O_USE);
    }
    mc_op("unload");
    teardown();
    mc_op("load again");
    step(O_LOAD); step(O_GET); step(O_INIT); step(O_DEFAULT); step(O_USE);
    if (depth & 1) { mc_op("and unload"); teardown(); }
}
static void one(void *a) { mc_isolate(history, a); }
/* ---------------------------------------------------------------- parameters */
static const char *CMD[] = { "CRYPT_PARAMS", "PBE_PARAMS", "GOST_PK_FORMAT" }, *ENVN[] = { "CRYPT_PARAMS", "GOST_PBE_HMAC", "GOST_PK_FORMAT" };
static const char *VAL[3][4] = {
    { NULL, "id-Gost28147-89-CryptoPro-A-ParamSet", "1.2.643.2.2.31.3", "no-such-set" },
    { NULL, "md_gost12_256", "md_gost94", "unknown" },
    { NULL, "LEGACY_PK_WRAP", "default", "LEGACY_PK_WRAP " },
};
static int envv[3], pdepth;
/* what the engine does at present under parameter p: index of the value it acts on, as far as it can be told */
static int effect(int p)
{
    if (p == 0) {
        u8 key[32], iv[8], in[16], out[32], w[32]; int n;
        fill(key, 32, 1); fill(iv, 8, 2); fill(in, 16, 3);
        EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
        int r = EVP_CipherInit_ex(x, eng_cipher("gost89-cbc"), E, key, iv, 1);
        EVP_CIPHER_CTX_set_padding(x, 0);
        if (r == 1) r = EVP_CipherUpdate(x, out, &n, in, 16);
        EVP_CIPHER_CTX_free(x);
        ERR_clear_error();
        if (r != 1) return 3;
        sbox_t *s[3] = { &RSB_Z, &RSB_A, &RSB_C };
        for (int i = 0; i < 3; i++) {
            rbc c; rbc_init(&c, BC_G89, key, *s[i]);
            ref_cbc(&c, iv, in, w, 16, 1);
            if (!memcmp(w, out, 16)) return i;
        }
        mc_fail("param:sbox", "gost89-cbc uses an S-box that nobody set");
    }
    if (p == 1) {
        int nid = 0;
        EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
        EVP_CipherInit_ex(x, eng_cipher("gost89"), E, NULL, NULL, 1);
        int r = EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_PBE_PRF_NID, 0, &nid);
        EVP_CIPHER_CTX_free(x);
        ERR_clear_error();
        if (r != 1) mc_fail("param:pbe", "no PBE digest");
        if (nid == NID_id_tc26_hmac_gost_3411_2012_512) return 0;
        if (nid == NID_id_tc26_hmac_gost_3411_2012_256) return 1;
        if (nid == NID_id_HMACGostR3411_94) return 2;
        mc_fail("param:pbe", "PBE digest %d that nobody set", nid);
    }
    EVP_PKEY_CTX *x = EVP_PKEY_CTX_new_id(NID_id_GostR3410_2012_256, E); EVP_PKEY *k = NULL;
    rng_reset(RNG_STREAM);
    if (EVP_PKEY_keygen_init(x) != 1 || EVP_PKEY_CTX_ctrl_str(x, "paramset", "A") != 1 || EVP_PKEY_keygen(x, &k) != 1) mc_fail("param:key", "no key");
    EVP_PKEY_CTX_free(x);
    PKCS8_PRIV_KEY_INFO *p8 = EVP_PKEY2PKCS8(k);
    const unsigned char *b; int l;
    if (!p8 || !PKCS8_pkey_get0(NULL, &b, &l, NULL, p8)) mc_fail("param:p8", "no PKCS#8");
    int r = l == 34 && b[0] == 4 && b[1] == 32 ? 1 : l == 32 ? 0 : -1;
    if (r < 0) mc_fail("param:p8", "unknown private key format of %d bytes", l);
    PKCS8_PRIV_KEY_INFO_free(p8); EVP_PKEY_free(k);
    return r;
}
static int expect(int p, int v)
{
    if (p == 0) return v;
    if (p == 1) return v == 3 ? 0 : v;
    return v == 1;
}
static void params(void *a)
{
    int cur[3];
    for (int p = 0; p < 3; p++) {
        if (envv[p]) setenv(ENVN[p], VAL[p][envv[p]], 1); else unsetenv(ENVN[p]);
        cur[p] = 0;
    }
    ENGINE_load_gost();
    E = ENGINE_by_id("gost");
    if (!E || ENGINE_init(E) != 1) mc_fail("load:missing", "the engine cannot be loaded");
    if (ENGINE_set_default(E, ENGINE_METHOD_ALL) != 1) mc_fail("default", "ENGINE_set_default fails");
    for (int i = 0; i < pdepth; i++) {
        int k = mc_choose(3 * 8 + 3);
        if (k < 24) {
            int p = k / 8, how = k % 8, v = how < 4 ? how : how - 4, r;
            if (how == 0) { mc_op("observe %s", CMD[p]); int g = effect(p), w = expect(p, envv[p] ? envv[p] : cur[p]); if (g != w) mc_fail(mc_fmt("param:%s", CMD[p]), "%s: value %d is in force, not %d", CMD[p], g, w); continue; }
            if (how == 4) { mc_op("clear %s", CMD[p]); r = ENGINE_ctrl(E, ENGINE_CMD_BASE + p, 0, NULL, NULL); v = 0; }
            else if (how < 4) { mc_op("set %s to %s by name", CMD[p], VAL[p][v]); r = ENGINE_ctrl_cmd_string(E, CMD[p], VAL[p][v], 0); }
            else { char t[64]; snprintf(t, sizeof t, "%s", VAL[p][v]); mc_op("set %s to %s by number", CMD[p], t); r = ENGINE_ctrl(E, ENGINE_CMD_BASE + p, 0, t, NULL); memset(t, 'x', sizeof t); }
            if (r != 1) mc_fail(mc_fmt("param-set:%s", CMD[p]), "setting %s is refused", CMD[p]);
            cur[p] = v;
        } else if (k == 24) {
            mc_op("unknown command");
            if (ENGINE_ctrl_cmd_string(E, "NO_SUCH_COMMAND", "1", 0) > 0) mc_fail("unknown-command", "an unknown command is accepted");
            if (ENGINE_ctrl_cmd_string(E, "NO_SUCH_COMMAND", "1", 1) != 1) mc_fail("optional-command", "an optional unknown command is an error");
        } else if (k == 25) {
            mc_op("unknown numbers");
            static const int N[] = { 3, 4, 5, 100, 1000000, -1, -2, -100 };
            for (int j = 0; j < 8; j++) if (ENGINE_ctrl(E, ENGINE_CMD_BASE + N[j], 0, "x", NULL) > 0) mc_fail("unknown-number", "command number base%+d is accepted", N[j]);
            if (ENGINE_cmd_is_executable(E, ENGINE_CMD_BASE + 3) || ENGINE_cmd_is_executable(E, ENGINE_CMD_BASE + 4)) mc_fail("unknown-number", "command number is executable");
        } else {
            mc_op("unload and load");
            ENGINE_unregister_ciphers(E); ENGINE_unregister_digests(E); ENGINE_unregister_pkey_meths(E); ENGINE_unregister_pkey_asn1_meths(E);
            ENGINE_remove(E); ENGINE_finish(E); ENGINE_free(E);
            ENGINE_load_gost();
            E = ENGINE_by_id("gost");
            if (!E || ENGINE_init(E) != 1) mc_fail("load:missing", "the engine cannot be loaded");
            if (ENGINE_set_default(E, ENGINE_METHOD_ALL) != 1) mc_fail("default", "ENGINE_set_default fails");
            cur[0] = cur[1] = cur[2] = 0;
        }
        ERR_clear_error();
        mc_trans(1);
    }
    for (int p = 0; p < 3; p++) {
        int g = effect(p), w = expect(p, envv[p] ? envv[p] : cur[p]);
        if (g != w) mc_fail(mc_fmt("param:%s", CMD[p]), "%s: value %d is in force, not %d (environment %s)", CMD[p], g, w, envv[p] ? VAL[p][envv[p]] : "unset");
    }
    mc_count("parameter_histories", 1);
}
static void onep(void *a) { mc_isolate(params, a); }
/* ---------------------------------------------------------------- */
static void base(void *a)
{
    ENGINE_load_gost();
    E = ENGINE_by_id("gost");
    if (!E || ENGINE_init(E) != 1) mc_fail("load:missing", "the engine cannot be loaded");
    if (ENGINE_set_default(E, ENGINE_METHOD_ALL) != 1) mc_fail("default", "ENGINE_set_default fails");
    use_all(E, 1, 1);
    FP->set = 1;
}
static void methods(void *a)
{
    const int *nids;
    ENGINE_load_gost();
    E = ENGINE_by_id("gost");
    if (!E || ENGINE_init(E) != 1) mc_fail("load:missing", "the engine cannot be loaded");
    int n = ENGINE_get_pkey_meths(E)(E, NULL, &nids, 0), nid = listed_nid((char *)a, nids, n);
    if (nid && (!ENGINE_get_pkey_meth(E, nid) || !ENGINE_get_pkey_asn1_meth(E, nid))) mc_fail(mc_fmt("no-method:%s", (char *)a), "announced key type %s has no method", (char *)a);
}
#include <sys/mman.h>
#include <sys/wait.h>
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    int r = ref_selftest();
    if (r) mc_internal("reference model self test %d failed", r);
    OPENSSL_init_crypto(OPENSSL_INIT_NO_LOAD_CONFIG | OPENSSL_INIT_LOAD_CRYPTO_STRINGS, NULL);
    eng_rand();
    FP = mmap(NULL, sizeof *FP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    MC_CASE("fresh") mc_isolate(base, NULL);
    if (!FP->set) {     /* not this shard's case: the same in silence */
        fflush(NULL);
        pid_t c = fork();
        if (!c) { base(NULL); _exit(0); }
        waitpid(c, NULL, 0);
    }
    for (int i = 0; i < NP; i++) MC_CASE("methods of %s", PN[i]) mc_isolate(methods, (void *)PN[i]);
    int D = mc_thorough ? 7 : 5;
    for (depth = 1; depth <= D; depth++) {
        npre = depth < 4 ? 0 : 3;
        for (int c = 0; c < (npre ? O_N * O_N * O_N : 1); c++) {
            pre[0] = c / O_N / O_N; pre[1] = c / O_N % O_N; pre[2] = c % O_N;
            if (!npre) { MC_CASE("history of %d", depth) { long n = mc_explore(one, NULL); mc_count("histories", n); } continue; }
            int ok = 1;
            memset(&M, 0, sizeof M);
            for (int i = 0; i < 3 && ok; i++) { ok = enabled(pre[i]) && !(pre[i] == O_DEFAULT && !M.listed); model(pre[i]); }
            if (!ok) continue;
            MC_CASE("history of %d after %s, %s, %s", depth, ON[pre[0]], ON[pre[1]], ON[pre[2]]) { long n = mc_explore(one, NULL); mc_count("histories", n); }
        }
    }
    pdepth = mc_thorough ? 3 : 2;
    for (envv[0] = 0; envv[0] < 4; envv[0]++) for (envv[1] = 0; envv[1] < 4; envv[1]++) for (envv[2] = 0; envv[2] < 3; envv[2]++) {
        if (!mc_thorough && !(envv[0] == envv[1] && envv[2] == (envv[0] + 2) % 3)) continue;
        MC_CASE("parameters, environment %d%d%d", envv[0], envv[1], envv[2]) mc_explore(onep, NULL);
    }
    return mc_finish();
}
