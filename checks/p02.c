/* P02: any history, then a (re)initialisation: the context must behave like a
 * fresh one.  Every bounded sequence of episodes (initialise, set parameters,
 * process, finish or abandon) on the real contexts, each output byte compared
 * with the reference for the key, IV and parameters in force. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "aead.h"
#define MSG 4400
static u8 M[MSG + 64];
static u8 K[3][32], IV[3][16];

/* ---------- plain ciphers ---------- */
static const cdesc *D;
static int depth, lastk;      /* lastk: the last initialisation, of this case */
static struct { int set; u8 *o; } cache[2][3][3][3][3];  /* enc,key,iv,sbox,mesh */
static const int SBX[3] = { -1, 1, 5 };
static size_t sec_of(const cdesc *d, int m)
{
    return m == 0 ? d->defsection : m == 1 ? (size_t)d->bl * 2 : (size_t)d->bl * 3;
}
static void conf_of(cconf *f, int k, int v, int sb, int mesh)
{
    conf_defaults(f, D, 1);
    memcpy(f->key, K[k], 32);
    memcpy(f->iv, IV[v], D->ivlen);
    memset(f->iv + D->ivlen, 0, 16 - D->ivlen);
    if (sb) f->sb = *SBSEL[SBX[sb]].sb;
    if (D->acpkm) f->section = sec_of(D, mesh);
    else if (D->meshsw) f->mesh = mesh == 0 ? 1 : mesh == 1 ? 0 : 1;
}
static const u8 *expect(int enc, int k, int v, int sb, int mesh)
{
    if (!cache[enc][k][v][sb][mesh].set) {
        cconf f;
        conf_of(&f, k, v, sb, mesh);
        u8 *o = cache[enc][k][v][sb][mesh].o ? cache[enc][k][v][sb][mesh].o : malloc(MSG);
        conf_ref(&f, M, o, MSG / D->bl * D->bl, enc);
        cache[enc][k][v][sb][mesh].o = o;
        cache[enc][k][v][sb][mesh].set = 1;
    }
    return cache[enc][k][v][sb][mesh].o;
}
static EVP_CIPHER_CTX *C;       /* of the running execution */
static int ck, cv, csb, cmesh, cenc, ckind;
enum { I_FULL, I_KEYIV, I_IV, I_KEY_IV, I_IV_KEY, I_RESET, I_COPY_IV, I_CIPHER_KEYIV, I_N };
static const char *IN[] = { "cipher+key+iv", "key+iv", "iv", "key,iv", "iv,key", "reset,cipher+key+iv", "copy,iv", "cipher,key+iv" };
static void ini(int i, const EVP_CIPHER *ci, const u8 *k, const u8 *v, int enc)
{
    u8 kk[32], vv[16];          /* the context must own its key and IV */
    if (k) memcpy(kk, k, 32);
    if (v) memcpy(vv, v, 16);
    int r = EVP_CipherInit_ex(C, ci, ci ? E : NULL, k ? kk : NULL, v && D->ivlen ? vv : NULL, enc);
    memset(kk, 0x5c, 32); memset(vv, 0x5c, 16);
    if (r != 1) mc_fail(mc_fmt("init-fails:%s:%s", D->sn, IN[i]), "%s returns %d", IN[i], r);
    mc_trans(1);
}
static void cinit(int i, int enc, int sameiv)
{
    const EVP_CIPHER *ci = eng_cipher(D->sn);
    int nk = ck ^ 1, nv = sameiv ? cv : cv ^ 1;
    mc_op("init[%s](%s%s)", IN[i], enc ? "enc" : "dec", sameiv ? ", same iv" : "");
    ckind = i;
    switch (i) {
    /* parameters stay until the context is reset */
    case I_RESET: EVP_CIPHER_CTX_reset(C); csb = cmesh = 0; /* fall through */
    case I_FULL: ini(i, ci, K[nk], IV[nv], enc); ck = nk; break;
    case I_CIPHER_KEYIV: ini(i, ci, NULL, NULL, enc); ini(i, NULL, K[nk], IV[nv], enc); ck = nk; break;
    case I_KEYIV: ini(i, NULL, K[nk], IV[nv], enc); ck = nk; break;
    case I_IV: ini(i, NULL, NULL, IV[nv], enc); break;
    case I_KEY_IV: ini(i, NULL, K[nk], NULL, enc); ini(i, NULL, NULL, IV[nv], enc); ck = nk; break;
    case I_IV_KEY: ini(i, NULL, NULL, IV[nv], enc); ini(i, NULL, K[nk], NULL, enc); ck = nk; break;
    case I_COPY_IV: {
        EVP_CIPHER_CTX *n = EVP_CIPHER_CTX_new();
        if (EVP_CIPHER_CTX_copy(n, C) != 1) mc_fail(mc_fmt("copy-fails:%s", D->sn), "copy fails");
        EVP_CIPHER_CTX_free(C);
        C = n;
        ini(i, NULL, NULL, IV[nv], enc);
        break; }
    }
    cv = nv;
    cenc = enc;
    if (D->mode == M_ECB || D->mode == M_CBC) EVP_CIPHER_CTX_set_padding(C, 0);
}
static void cproc(size_t n, int cut)
{
    static u8 in[MSG + 64], out[MSG + 64];
    int block = D->mode == M_ECB || D->mode == M_CBC, l, t = 0;
    size_t done = block ? n / D->bl * D->bl : n;
    const u8 *e = expect(cenc, ck, cv, csb, cmesh);
    mc_op("update(%zu%s)", n, cut ? " in two" : "");
    memcpy(in, M, n);
    size_t a = cut ? n / 3 + 1 : n;
    if (a > n) a = n;
    if (EVP_CipherUpdate(C, out, &l, in, a) != 1) mc_fail(mc_fmt("update-fails:%s:%s", D->sn, IN[ckind]), "update(%zu) fails", a);
    t = l;
    if (n > a) { if (EVP_CipherUpdate(C, out + t, &l, in + a, n - a) != 1) mc_fail(mc_fmt("update-fails:%s:%s", D->sn, IN[ckind]), "update fails"); t += l; }
    mc_trans(1 + (n > a));
    if (t != (int)done) mc_fail(mc_fmt("stale-length:%s:%s", D->sn, IN[ckind]), "%zu bytes in, %d out, expected %zu", n, t, done);
    if (memcmp(out, e, done)) {
        size_t i = 0;
        while (out[i] == e[i]) i++;
        mc_fail(mc_fmt("stale:%s:%s", D->sn, IN[ckind]), "byte %zu of the message after init[%s]: got %02x, a fresh context gives %02x", i, IN[ckind], out[i], e[i]);
    }
}
static void cpar(int p)
{
    if (p == 0) return;
    if (D->acpkm || D->meshsw) {
        int m = 1 + (p == 2);
        mc_op("KEY_MESH(%d)", D->acpkm ? (int)sec_of(D, m) : m == 1 ? 0 : 1);
        if (EVP_CIPHER_CTX_ctrl(C, EVP_CTRL_KEY_MESH, D->acpkm ? (int)sec_of(D, m) : m == 1 ? 0 : 1, NULL) != 1)
            mc_fail(mc_fmt("key-mesh-refused:%s:%s", D->sn, IN[ckind]), "KEY_MESH refused right after init[%s]", IN[ckind]);
        cmesh = m;
    }
    if (D->sboxsel) {
        mc_op("SET_SBOX(%s)", SBSEL[SBX[p]].name);
        if (EVP_CIPHER_CTX_ctrl(C, EVP_CTRL_SET_SBOX, 0, (void *)SBSEL[SBX[p]].name) != 1)
            mc_fail(mc_fmt("set-sbox-refused:%s:%s", D->sn, IN[ckind]), "SET_SBOX refused right after init[%s]", IN[ckind]);
        csb = p;
    }
}
static int nlen, nlen2, npar;
static size_t LEN[12], LEN2[12];
static void cfree(void) { EVP_CIPHER_CTX_free(C); C = NULL; }
static void cseq(void *u)
{
    mc_reset_trace();
    rng_reset(RNG_STREAM);
    EVP_CIPHER_CTX_free(C);     /* left by a failed execution */
    C = EVP_CIPHER_CTX_new();
    ck = cv = 0; csb = cmesh = 0;
    u8 t[64]; int l;
    cinit(I_FULL, 1 - mc_choose(2), 0);
    cpar(mc_choose(npar));
    cproc(LEN[mc_choose(nlen)], 0);
    if (mc_choose(2)) { mc_op("final"); EVP_CipherFinal_ex(C, t, &l); }
    for (int i = 1; i < depth; i++) {
        cinit(mc_choose(I_N), 1 - mc_choose(2), 0);
        if (mc_thorough) cpar(mc_choose(npar));
        cproc(LEN2[mc_choose(nlen2)], 1);
        if (mc_thorough && mc_choose(2)) { mc_op("final"); EVP_CipherFinal_ex(C, t, &l); }
    }
    cinit(lastk, 1 - mc_choose(2), mc_thorough ? mc_choose(2) : 0);
    cproc(D->kind == BC_KUZ && D->acpkm && cmesh == 0 ? 4130 : D->acpkm && cmesh == 0 ? 1060 : D->meshsw ? 1045 : D->bl * 7 + 3, 0);
    cfree();
}

/* ---------- authenticated ciphers ---------- */
static const adesc *AX;
static u8 seed[8];
static void aref(int k, int v, size_t an, size_t n, size_t section, u8 *ct, u8 *tag)
{
    struct { int ax, k, v; size_t an, n, section; u8 seed[8]; } key;
    int new;
    memset(&key, 0, sizeof key);
    key.ax = AX - AD; key.k = k; key.v = v; key.an = an; key.n = n; key.section = section;
    if (AX->omac) memcpy(key.seed, seed, 8);
    u8 *m = mc_memo(&key, sizeof key, n + 16, &new);
    if (new) {
        if (AX->omac) ref_ctr_omac(AX, K[k], IV[v], seed, section, M, n, m, m + n);
        else {
            u8 nn[16];
            memcpy(nn, IV[v], 16); nn[0] &= 0x7f;
            ref_mgm(AX->kind, K[k], nn, M + 1000, an, M, n, m, m + n);
        }
    }
    memcpy(ct, m, n);
    memcpy(tag, m + n, AX->taglen);
}
/* a whole message on C, already initialised for it */
static void amsg(const char *how, int k, int v, int enc, size_t an, size_t n, int finish, size_t section)
{
    static u8 ct[MSG], tag[16], out[MSG], t[16];
    int l;
    if (AX->omac) { aref(k, v, 0, n, section, ct, tag); an = 0; }
    else aref(k, v, an, n, 0, ct, tag);
    mc_op("%s aad %zu message %zu", enc ? "encrypt" : "decrypt", an, n);
    if (an && EVP_CipherUpdate(C, NULL, &l, M + 1000, an) != 1) mc_fail(mc_fmt("aad-fails:%s:%s", AX->sn, how), "aad refused");
    if (n && EVP_CipherUpdate(C, out, &l, enc ? M : ct, n) != 1) mc_fail(mc_fmt("update-fails:%s:%s", AX->sn, how), "update refused");
    mc_trans(2);
    if (memcmp(out, enc ? ct : M, n)) mc_fail(mc_fmt("stale:%s:%s", AX->sn, how), "message after init[%s] differs from a fresh context", how);
    if (!finish) { mc_op("abandon"); return; }
    mc_op("final");
    if (enc) {
        if (EVP_CipherFinal_ex(C, t, &l) != 1) mc_fail(mc_fmt("final-fails:%s:%s", AX->sn, how), "final fails");
        if (!(AX->omac ? omac_get_tag(C, t, AX->taglen) : EVP_CIPHER_CTX_ctrl(C, EVP_CTRL_AEAD_GET_TAG, AX->taglen, t) == 1))
            mc_fail(mc_fmt("no-tag:%s:%s", AX->sn, how), "no tag");
        if (memcmp(t, tag, AX->taglen)) mc_fail(mc_fmt("stale-tag:%s:%s", AX->sn, how), "tag after init[%s] differs from a fresh context: got %s expected %s", how, mc_hex(t, AX->taglen), mc_hex(tag, AX->taglen));
    } else {
        if (!(AX->omac ? omac_set_tag(C, tag, AX->taglen) : EVP_CIPHER_CTX_ctrl(C, EVP_CTRL_AEAD_SET_TAG, AX->taglen, tag) == 1))
            mc_fail(mc_fmt("set-tag:%s:%s", AX->sn, how), "tag refused");
        if (EVP_CipherFinal_ex(C, t, &l) != 1) mc_fail(mc_fmt("valid-rejected:%s:%s", AX->sn, how), "valid message rejected after init[%s]", how);
    }
}
static size_t asec;
static int askip;               /* the execution made no sense */
static void ainit(int i, int enc)
{
    const EVP_CIPHER *ci = eng_cipher(AX->sn);
    int nk = ck ^ 1, nv = cv ^ 1, l = 0, ok = 1, keyed = i != I_IV && i != I_COPY_IV;
    u8 kk[32], vv[16];
    mc_op("init[%s](%s)", IN[i], enc ? "enc" : "dec");
    (void)l;
    memcpy(kk, K[nk], 32); memcpy(vv, IV[nv], 16);
#define KEYED(call) (pos = rng.log_len, drawn = 1, (call) == 1)
    size_t pos = 0;
    int drawn = 0;
    if (i == I_RESET) { EVP_CIPHER_CTX_reset(C); if (AX->omac) asec = AX->section; }
    if (AX->omac && !enc && (i == I_RESET || i == I_FULL || i == I_CIPHER_KEYIV)) {
        /* parameters travel as in CMS: the seed is known on both sides */
        fill(seed, 8, 900 + nk);
        ASN1_TYPE *p = omac_params(AX, vv, seed);
        ok = EVP_CipherInit_ex(C, ci, E, NULL, NULL, 0) == 1 && EVP_CIPHER_asn1_to_param(C, p) > 0
            && EVP_CipherInit_ex(C, NULL, NULL, kk, NULL, 0) == 1;
        ASN1_TYPE_free(p);
        asec = AX->cms_section;
    } else {
        switch (i) {
        case I_RESET: case I_FULL: ok = KEYED(EVP_CipherInit_ex(C, ci, E, kk, vv, enc)); break;
        case I_CIPHER_KEYIV: ok = EVP_CipherInit_ex(C, ci, E, NULL, NULL, enc) == 1 && KEYED(EVP_CipherInit_ex(C, NULL, NULL, kk, vv, enc)); break;
        case I_KEYIV: ok = KEYED(EVP_CipherInit_ex(C, NULL, NULL, kk, vv, enc)); break;
        case I_IV: ok = EVP_CipherInit_ex(C, NULL, NULL, NULL, vv, enc) == 1; break;
        case I_KEY_IV: ok = KEYED(EVP_CipherInit_ex(C, NULL, NULL, kk, NULL, enc)) && EVP_CipherInit_ex(C, NULL, NULL, NULL, vv, enc) == 1; break;
        case I_IV_KEY: ok = EVP_CipherInit_ex(C, NULL, NULL, NULL, vv, enc) == 1 && KEYED(EVP_CipherInit_ex(C, NULL, NULL, kk, NULL, enc)); break;
        case I_COPY_IV: {
            EVP_CIPHER_CTX *n = EVP_CIPHER_CTX_new();
            ok = EVP_CIPHER_CTX_copy(n, C) == 1;
            EVP_CIPHER_CTX_free(C);
            C = n;
            ok = ok && EVP_CipherInit_ex(C, NULL, NULL, NULL, vv, enc) == 1;
            break; }
        }
        /* keying for encryption draws a new seed */
        if (AX->omac && drawn && enc) memcpy(seed, rng.log + pos, 8);
    }
    memset(kk, 0x5c, 32); memset(vv, 0x5c, 16);
    if (!ok) mc_fail(mc_fmt("init-fails:%s:%s", AX->sn, IN[i]), "init[%s] fails", IN[i]);
    mc_trans(1);
    if (keyed) ck = nk;
    cv = nv;
}
static const size_t AL[] = { 0, 1, 8, 16, 19, 40 }, ML[] = { 0, 3, 16, 35 };
static void aseq(void *u)
{
    mc_reset_trace();
    rng_reset(RNG_STREAM);
    EVP_CIPHER_CTX_free(C);
    C = EVP_CIPHER_CTX_new();
    ck = cv = 0;
    asec = AX->section;
    int enc = 1 - mc_choose(2), i = I_FULL;
    ainit(i, enc);
    amsg(IN[i], ck, cv, enc, AX->omac ? 0 : AL[mc_choose(mc_thorough ? 6 : depth == 1 ? 4 : 2) + (depth != 1)], ML[depth == 1 || mc_thorough ? mc_choose(4) : 1 + 2 * mc_choose(2)], mc_choose(2), asec);
    for (int k = 1; k < depth; k++) {
        i = mc_choose(I_N);
        enc = 1 - mc_choose(2);
        ainit(i, enc);
        amsg(IN[i], ck, cv, enc, AX->omac ? 0 : AL[mc_choose(2)], ML[mc_choose(mc_thorough ? 4 : 2)], mc_choose(2), asec);
    }
    i = lastk;
    enc = 1 - mc_choose(2);
    ainit(i, enc);
    amsg(IN[i], ck, cv, enc, AX->omac ? 0 : mc_choose(2) ? 21 : 0, AX->omac && depth == 1 && !mc_choose(2) ? 1100 : 37, 1, asec);
    cfree();
}
/* a decrypting context without a tag for this message must refuse */
static void anotag(void *u)
{
    u8 t[64]; int l;
    mc_reset_trace();
    rng_reset(RNG_STREAM);
    EVP_CIPHER_CTX_free(C);
    C = EVP_CIPHER_CTX_new();
    ck = cv = 0;
    asec = AX->section;
    int enc = 1 - mc_choose(2), i = I_FULL;
    size_t an = AX->omac ? 0 : AL[mc_choose(4)], n = ML[mc_choose(4)];
    ainit(i, enc);
    amsg(IN[i], ck, cv, enc, an, n, 1, asec);
    /* the same key, IV and message again, without SET_TAG */
    i = mc_choose(3);
    mc_op("init for decryption again (%d), no tag", i);
    u8 kk[32], vv[16];
    memcpy(kk, K[ck], 32); memcpy(vv, IV[cv], 16);
    int ok = i == 0 ? EVP_CipherInit_ex(C, NULL, NULL, NULL, vv, 0) : i == 1 ? EVP_CipherInit_ex(C, NULL, NULL, kk, vv, 0) : EVP_CipherInit_ex(C, eng_cipher(AX->sn), E, kk, vv, 0);
    if (ok == 1) {
        static u8 ct[MSG], tag[16], out[MSG];
        aref(ck, cv, an, n, asec, ct, tag);
        if (an) EVP_CipherUpdate(C, NULL, &l, M + 1000, an);
        if (n) EVP_CipherUpdate(C, out, &l, ct, n);
        if (EVP_CipherFinal_ex(C, t, &l) == 1) mc_fail(mc_fmt("stale-tag-accepted:%s", AX->sn), "decryption without a tag succeeds with the tag of the previous %scryption", enc ? "en" : "de");
    }
    mc_trans(4);
    cfree();
}

/* ---------- MACs ---------- */
static const struct mac { const char *sn, *alt; int max, def, bl; } A[] = {
    { "gost-mac", 0, 8, 4, 8 }, { "gost-mac-12", 0, 8, 4, 8 }, { "magma-mac", 0, 8, 8, 8 },
    { "kuznyechik-mac", "grasshopper-mac", 16, 16, 16 }, { "kuznyechik-ctr-acpkm-omac", 0, 16, 16, 16 },
};
static int mi;
static EVP_MD_CTX *X;
static int mac_nid(int a) { int n = OBJ_sn2nid(A[a].sn); return n == NID_undef && A[a].alt ? OBJ_sn2nid(A[a].alt) : n; }
static const EVP_MD *mac_md(int a)
{
    const EVP_MD *m = ENGINE_get_digest(E, mac_nid(a));
    if (!m) mc_fail("no-digest", "no %s", A[a].sn);
    return m;
}
static void mac_ref(int a, const u8 *k, const u8 *m, size_t n, int sec, int T, u8 *o)
{
    if (a < 2) ref_imit(k, a ? RSB_Z : RSB_A, 1, m, n, o);
    else if (a < 4) ref_omac(a == 2 ? BC_MAGMA : BC_KUZ, k, m, n, o);
    else ref_omac_acpkm(k, sec ? sec : 4096, T ? T : 4096, m, n, o);
}
static int msize, msec, mt;
enum { J_SETKEY, J_INIT_SETKEY, J_RESET, J_COPY, J_SIGN, J_NULLINIT_SETKEY, J_N };
static const char *JN[] = { "SET_KEY", "init,SET_KEY", "reset,init,SET_KEY", "copy,SET_KEY", "DigestSignInit", "init(NULL),SET_KEY" };
static int setkey(const u8 *k)
{
    u8 kk[32];
    memcpy(kk, k, 32);
    int r = EVP_MD_CTX_ctrl(X, EVP_MD_CTRL_SET_KEY, 32, kk);
    memset(kk, 0x5c, 32);
    return r == 1;
}
static void minit(int j)
{
    int ok = 1;
    ck ^= 1;
    mc_op("init[%s]", JN[j]);
    msize = msec = mt = 0;
    switch (j) {
    case J_SETKEY: ok = setkey(K[ck]); break;
    case J_INIT_SETKEY: ok = EVP_DigestInit_ex(X, mac_md(mi), E) == 1 && setkey(K[ck]); break;
    case J_NULLINIT_SETKEY: ok = EVP_DigestInit_ex(X, NULL, NULL) == 1 && setkey(K[ck]); break;
    case J_RESET: EVP_MD_CTX_reset(X); ok = EVP_DigestInit_ex(X, mac_md(mi), E) == 1 && setkey(K[ck]); break;
    case J_COPY: {
        EVP_MD_CTX *n = EVP_MD_CTX_new();
        ok = EVP_MD_CTX_copy_ex(n, X) == 1;
        EVP_MD_CTX_free(X);
        X = n;
        ok = ok && setkey(K[ck]);
        break; }
    case J_SIGN: {
        EVP_PKEY *k = EVP_PKEY_new_mac_key(mac_nid(mi), E, K[ck], 32);
        EVP_MD_CTX_reset(X);
        ok = k && EVP_DigestSignInit(X, NULL, mac_md(mi), E, k) == 1;
        EVP_PKEY_free(k);
        break; }
    }
    mc_trans(1);
    if (!ok) mc_fail(mc_fmt("init-fails:%s:%s", A[mi].sn, JN[j]), "init[%s] fails", JN[j]);
}
static void mmsg(int j, size_t n, int finish)
{
    u8 o[64], e[16]; unsigned l = 0;
    mc_op("update(%zu)%s", n, finish ? " final" : " abandon");
    if (EVP_DigestUpdate(X, M, n / 2) != 1 || EVP_DigestUpdate(X, M + n / 2, n - n / 2) != 1) mc_fail(mc_fmt("update-fails:%s:%s", A[mi].sn, JN[j]), "update fails");
    mc_trans(1);
    if (!finish) return;
    int r;
    if (j == J_SIGN) { size_t ll = sizeof o; r = EVP_DigestSignFinal(X, o, &ll); l = ll; if (msize == 0 && ll != (size_t)A[mi].def) mc_fail(mc_fmt("stale-size:%s:%s", A[mi].sn, JN[j]), "size %zu", ll); }
    else r = EVP_DigestFinal_ex(X, o, &l);
    if (r != 1) mc_fail(mc_fmt("final-fails:%s:%s", A[mi].sn, JN[j]), "final fails");
    int new, key[6] = { 77, mi, ck, n, msec, mt };
    u8 *mm = mc_memo(key, sizeof key, 16, &new);
    if (new) mac_ref(mi, K[ck], M, n, msec, mt, mm);
    memcpy(e, mm, 16);
    int sz = msize ? msize : A[mi].def;
    if (memcmp(o, e, sz)) mc_fail(mc_fmt("stale:%s:%s", A[mi].sn, JN[j]), "MAC of %zu bytes after init[%s]: got %s, a fresh context gives %s", n, JN[j], mc_hex(o, sz), mc_hex(e, sz));
}
static size_t MLN[6];
static void mpar(int p)
{
    if (p == 1) {
        mc_op("XOF_LEN 3");
        if (EVP_MD_CTX_ctrl(X, EVP_MD_CTRL_XOF_LEN, 3, NULL) != 1) mc_fail(mc_fmt("xof-len:%s", A[mi].sn), "XOF_LEN refused");
        msize = 3;
    }
    if (p == 2 && mi == 4) {
        int t = 96;
        mc_op("KEY_MESH 32/96");
        if (EVP_MD_CTX_ctrl(X, EVP_CTRL_KEY_MESH, 32, &t) != 1) mc_fail("key-mesh", "KEY_MESH refused");
        msec = 32; mt = 96;
    }
}
static void mseq(void *u)
{
    mc_reset_trace();
    rng_reset(RNG_STREAM);
    EVP_MD_CTX_free(X);
    X = EVP_MD_CTX_new();
    ck = 0;
    int last = J_SETKEY, np = mi == 4 ? 3 : 2;
    int j = mc_choose(2) ? J_SIGN : J_INIT_SETKEY;
    minit(j);
    if (j != J_SIGN) mpar(mc_choose(np));
    mmsg(j, MLN[mc_choose(6)], mc_choose(2));
    last = j;
    for (int i = 1; i < depth; i++) {
        j = mc_choose(J_N);
        if (last == J_SIGN && j != J_SIGN && j != J_RESET) { EVP_MD_CTX_free(X); X = NULL; return; } /* a signing context is not re-keyed by SET_KEY */
        minit(j);
        if (j != J_SIGN) mpar(mc_choose(np));
        mmsg(j, MLN[mc_thorough ? mc_choose(6) : 1 + mc_choose(3)], mc_choose(2));
        last = j;
    }
    j = lastk;
    if (last == J_SIGN && j != J_SIGN && j != J_RESET) { EVP_MD_CTX_free(X); X = NULL; return; }
    minit(j);
    mmsg(j, MLN[mc_thorough || depth == 1 ? mc_choose(6) : 3 + mc_choose(2)], 1);
    EVP_MD_CTX_free(X);
    X = NULL;
}

int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(1);
    fill(M, sizeof M, 3);
    for (int i = 0; i < 3; i++) { fill(K[i], 32, 100 + i); fill(IV[i], 16, 200 + i); }
    for (int d = 0; d < NCD; d++)
        for (int dep = 1; dep <= 2; dep++) for (int lk = 0; lk < I_N; lk++)
            MC_CASE("%s sequences of %d messages, last init[%s]", CD[d].sn, dep + 1, IN[lk]) {
                lastk = lk;
                D = &CD[d];
                depth = dep;
                for (int a = 0; a < 2; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 3; c++) for (int e = 0; e < 3; e++) for (int f = 0; f < 3; f++) cache[a][b][c][e][f].set = 0;
                npar = D->acpkm || D->meshsw || D->sboxsel ? (mc_thorough || dep == 1 ? 3 : 2) : 1;
                int bl = D->bl;
                nlen = 0;
                LEN[nlen++] = 0; LEN[nlen++] = 1; LEN[nlen++] = bl; LEN[nlen++] = bl + 3;
                LEN[nlen++] = D->meshsw || (D->acpkm && bl == 8) ? 1029 : D->acpkm ? 4100 : 5 * bl + 1;
                if (mc_thorough || dep == 1) { LEN[nlen++] = bl - 1; LEN[nlen++] = 2 * bl; LEN[nlen++] = 3 * bl + 1; LEN[nlen++] = 6 * bl + 5; }
                nlen2 = 0;
                LEN2[nlen2++] = 0; LEN2[nlen2++] = bl / 2 + 1; LEN2[nlen2++] = 2 * bl + 3;
                if (mc_thorough || dep == 1) { LEN2[nlen2++] = LEN[4]; LEN2[nlen2++] = bl; }
                mc_explore(cseq, NULL);
                mc_outcome("%s: every (re)initialisation kind after every history", D->sn);
                if (dep == 2) mc_sample("%s: last sequence explored", D->sn);
            }
    for (int d = 0; d < 4; d++) {
        for (int dep = 1; dep <= 2; dep++) for (int lk = 0; lk < I_N; lk++)
            MC_CASE("%s sequences of %d messages, last init[%s]", AD[d].sn, dep + 1, IN[lk]) {
                lastk = lk;
                AX = &AD[d];
                depth = dep;
                mc_explore(aseq, NULL);
                mc_outcome("%s: every (re)initialisation kind after every history", AX->sn);
            }
        MC_CASE("%s decryption without a tag", AD[d].sn) {
            AX = &AD[d];
            mc_explore(anotag, NULL);
        }
    }
    for (int a = 0; a < 5; a++)
        for (int dep = 1; dep <= 2; dep++) for (int lk = 0; lk < J_N; lk++)
            MC_CASE("%s sequences of %d messages, last init[%s]", A[a].sn, dep + 1, JN[lk]) {
                lastk = lk;
                mi = a;
                depth = dep;
                MLN[0] = 0; MLN[1] = 5; MLN[2] = A[a].bl; MLN[3] = 2 * A[a].bl + 1; MLN[4] = a < 2 ? 1030 : 70; MLN[5] = 3 * A[a].bl;
                mc_explore(mseq, NULL);
                mc_outcome("%s: every (re)initialisation kind after every history", A[a].sn);
            }
    return mc_finish();
}
