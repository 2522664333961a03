/* P03: copies of contexts.  Every history up to a position, copied into every
 * kind of target, followed by every bounded interleaving of operations on source
 * and copy; every output is compared with what the reference says for that object
 * alone, and the address sanitizer watches for shared or freed memory. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "aead.h"
#define MSG 4400
static u8 M[MSG + 64], AADB[128];
static u8 K[6][32], IV[6][16];
enum { F_CIPHER, F_AEAD, F_MD, F_MAC };
static int fam, alg, slow;      /* of the running case */
static int api;                 /* MAC: 0 digest ctrl, 1 DigestSign */
typedef struct {
    EVP_CIPHER_CTX *c;
    EVP_MD_CTX *m;
    int keyed, k, v, enc, par, fin;
    size_t aad, off;
    u8 seed[8];
} obj;
static const char *name;
static const struct { const char *sn, *alt; int def, bl; } MAC[] = {
    { "gost-mac", 0, 4, 8 }, { "gost-mac-12", 0, 4, 8 }, { "magma-mac", 0, 8, 8 },
    { "kuznyechik-mac", "grasshopper-mac", 16, 16 }, { "kuznyechik-ctr-acpkm-omac", 0, 16, 16 },
};
static const struct { const char *sn; ref_hash_f h; int len, bl; } MD[] = {
    { "md_gost94", ref_h94cp, 32, 32 }, { "md_gost12_256", ref_h12_256, 32, 64 }, { "md_gost12_512", ref_h12_512, 64, 64 },
};
static int nid_of(const char *a, const char *b) { int n = OBJ_sn2nid(a); return n == NID_undef && b ? OBJ_sn2nid(b) : n; }
static const EVP_MD *the_md(void)
{
    const EVP_MD *m = ENGINE_get_digest(E, fam == F_MD ? OBJ_sn2nid(MD[alg].sn) : nid_of(MAC[alg].sn, MAC[alg].alt));
    if (!m) mc_fail(mc_fmt("no-digest:%s", name), "no digest %s", name);
    return m;
}
static const cdesc *D; static const adesc *AX;
static size_t section_of(const obj *o)
{
    if (fam == F_CIPHER) return !D->acpkm ? 0 : o->par == 0 ? D->defsection : o->par == 1 ? D->bl * 2 : D->bl * 3;
    return o->enc ? AX->section : AX->cms_section;
}
/* expected output bytes of the whole message */
static const u8 *stream(const obj *o)
{
    struct { int fam, alg, k, v, enc, par; u8 seed[8]; } key;
    int new;
    memset(&key, 0, sizeof key);
    key.fam = fam; key.alg = alg; key.k = o->k; key.v = o->v; key.par = o->par;
    key.enc = fam == F_CIPHER || AX->omac ? o->enc : 0;
    if (fam == F_AEAD && AX->omac) memcpy(key.seed, o->seed, 8);
    u8 *b = mc_memo(&key, sizeof key, MSG, &new);
    if (new) {
        u8 tag[16];
        if (fam == F_CIPHER) {
            cconf f;
            conf_defaults(&f, D, 1);
            memcpy(f.key, K[o->k], 32);
            memset(f.iv, 0, 16);
            memcpy(f.iv, IV[o->v], D->ivlen);
            if (D->sboxsel && o->par) f.sb = *SBSEL[o->par == 1 ? 1 : 5].sb;
            if (D->acpkm) f.section = section_of(o);
            else if (D->meshsw) f.mesh = o->par != 1;
            conf_ref(&f, M, b, MSG / D->bl * D->bl, o->enc);
        } else if (AX->omac) ref_ctr_omac(AX, K[o->k], IV[o->v], o->seed, section_of(o), M, MSG, b, tag);
        else { u8 nn[16]; memcpy(nn, IV[o->v], 16); nn[0] &= 0x7f; ref_mgm(AX->kind, K[o->k], nn, AADB, 0, M, MSG, b, tag); }
    }
    return b;
}
static const u8 *tag_of(const obj *o)
{
    struct { int fam, alg, k, v, enc, par; size_t a, n; u8 seed[8]; } key;
    int new;
    memset(&key, 0, sizeof key);
    key.fam = 100 + fam; key.alg = alg; key.k = o->k; key.v = o->v; key.par = o->par; key.a = o->aad; key.n = o->off;
    if (fam == F_AEAD) key.enc = AX->omac ? o->enc : 0;
    if (fam == F_AEAD && AX->omac) memcpy(key.seed, o->seed, 8);
    if (fam == F_MD) key.k = key.v = 0;
    u8 *b = mc_memo(&key, sizeof key, 64, &new);
    if (new) {
        static u8 ct[MSG];
        if (fam == F_MD) MD[alg].h(M, o->off, b);
        else if (fam == F_MAC) {
            if (alg < 2) ref_imit(K[o->k], alg ? RSB_Z : RSB_A, 1, M, o->off, b);
            else if (alg < 4) ref_omac(alg == 2 ? BC_MAGMA : BC_KUZ, K[o->k], M, o->off, b);
            else ref_omac_acpkm(K[o->k], o->par == 1 ? 32 : 4096, o->par == 1 ? 96 : 4096, M, o->off, b);
        } else if (AX->omac) ref_ctr_omac(AX, K[o->k], IV[o->v], o->seed, section_of(o), M, o->off, ct, b);
        else { u8 nn[16]; memcpy(nn, IV[o->v], 16); nn[0] &= 0x7f; ref_mgm(AX->kind, K[o->k], nn, AADB, o->aad, M, o->off, ct, b); }
    }
    return b;
}
static void ofree(obj *o)
{
    EVP_CIPHER_CTX_free(o->c); EVP_MD_CTX_free(o->m);
    memset(o, 0, sizeof *o);
}
static int alive(const obj *o) { return o->c || o->m; }
/* only the algorithm, no key */
static void oalg(obj *o, int enc)
{
    int ok;
    o->enc = enc;
    if (fam <= F_AEAD) {
        if (!o->c) o->c = EVP_CIPHER_CTX_new();
        ok = EVP_CipherInit_ex(o->c, eng_cipher(name), E, NULL, NULL, enc) == 1;
    } else {
        if (!o->m) o->m = EVP_MD_CTX_new();
        ok = EVP_DigestInit_ex(o->m, the_md(), E) == 1;
        if (fam == F_MD) o->keyed = 1;
    }
    if (!ok) mc_fail(mc_fmt("init:%s", name), "initialisation without key fails");
}
/* a new message with key k and IV k; alg0: the context has its algorithm already */
static void okey(obj *o, int k, int enc, int par, int alg0)
{
    int ok = 1, had = o->keyed;
    if (alg0 && o->keyed && fam == F_CIPHER) par = o->par;     /* parameters stay */
    u8 kk[32], vv[16];
    memcpy(kk, K[k], 32); memcpy(vv, IV[k], 16);
    if (fam <= F_AEAD) {
        if (!o->c) o->c = EVP_CIPHER_CTX_new();
        if (!alg0) EVP_CIPHER_CTX_reset(o->c);
        const EVP_CIPHER *ci = alg0 ? NULL : eng_cipher(name);
        if (fam == F_AEAD && AX->omac) {
            size_t pos = rng.log_len;
            if (enc) {
                ok = EVP_CipherInit_ex(o->c, ci, ci ? E : NULL, NULL, NULL, enc) == 1;
                pos = rng.log_len;
                ok = ok && EVP_CipherInit_ex(o->c, NULL, NULL, kk, vv, enc) == 1;
                memcpy(o->seed, rng.log + pos, 8);
            } else {
                fill(o->seed, 8, 50 + k);
                ASN1_TYPE *t = omac_params(AX, vv, o->seed);
                ok = EVP_CipherInit_ex(o->c, ci, ci ? E : NULL, NULL, NULL, 0) == 1 && EVP_CIPHER_asn1_to_param(o->c, t) > 0
                    && EVP_CipherInit_ex(o->c, NULL, NULL, kk, NULL, 0) == 1;
                ASN1_TYPE_free(t);
            }
        } else ok = EVP_CipherInit_ex(o->c, ci, ci ? E : NULL, kk, fam == F_CIPHER && !D->ivlen ? NULL : vv, enc) == 1;
        if (fam == F_CIPHER) {
            if (D->mode == M_ECB || D->mode == M_CBC) EVP_CIPHER_CTX_set_padding(o->c, 0);
            if (D->sboxsel && par && !alg0) ok = ok && EVP_CIPHER_CTX_ctrl(o->c, EVP_CTRL_SET_SBOX, 0, (void *)SBSEL[par == 1 ? 1 : 5].name) == 1;
            if (D->acpkm && par && !alg0) ok = ok && EVP_CIPHER_CTX_ctrl(o->c, EVP_CTRL_KEY_MESH, D->bl * (par + 1), NULL) == 1;
            else if (D->meshsw && par && !alg0) ok = ok && EVP_CIPHER_CTX_ctrl(o->c, EVP_CTRL_KEY_MESH, par != 1, NULL) == 1;
        }
    } else if (fam == F_MD) {
        if (!o->m) o->m = EVP_MD_CTX_new();
        ok = EVP_DigestInit_ex(o->m, the_md(), E) == 1;
    } else if (api) {
        if (!o->m) o->m = EVP_MD_CTX_new();
        else if (had) EVP_MD_CTX_reset(o->m);
        EVP_PKEY *p = EVP_PKEY_new_mac_key(nid_of(MAC[alg].sn, MAC[alg].alt), E, kk, 32);
        ok = p && EVP_DigestSignInit(o->m, NULL, the_md(), E, p) == 1;
        EVP_PKEY_free(p);
        par = 0;
    } else {
        if (!o->m) o->m = EVP_MD_CTX_new();
        if (!alg0) ok = EVP_DigestInit_ex(o->m, the_md(), E) == 1;
        ok = ok && EVP_MD_CTX_ctrl(o->m, EVP_MD_CTRL_SET_KEY, 32, kk) == 1;
        if (par == 1 && alg == 4) { int t = 96; ok = ok && EVP_MD_CTX_ctrl(o->m, EVP_CTRL_KEY_MESH, 32, &t) == 1; }
    }
    memset(kk, 0x5c, 32); memset(vv, 0x5c, 16);
    if (!ok) mc_fail(mc_fmt("rekey:%s", name), "initialising the context fails");
    o->keyed = 1; o->k = o->v = k; o->enc = enc; o->par = par; o->off = o->aad = o->fin = 0;
    mc_trans(1);
}
static void oaad(obj *o, size_t n)
{
    int l;
    if (!n) return;
    if (EVP_CipherUpdate(o->c, NULL, &l, AADB + o->aad, n) != 1) mc_fail(mc_fmt("aad:%s", name), "associated data refused");
    o->aad += n;
    mc_trans(1);
}
static void oupd(obj *o, size_t n, const char *who)
{
    static u8 in[MSG], out[MSG + 64];
    int l = 0;
    if (!n) return;
    if (o->off + n > MSG) mc_internal("message too short");
    mc_trans(1);
    if (fam >= F_MD) {
        if (EVP_DigestUpdate(o->m, M + o->off, n) != 1) mc_fail(mc_fmt("update-fails:%s", name), "update of the %s fails", who);
        o->off += n;
        return;
    }
    const u8 *e = stream(o);
    int rev = fam == F_AEAD && !o->enc;
    memcpy(in, (rev ? e : M) + o->off, n);
    size_t a = o->off, b = o->off + n;
    if (fam == F_CIPHER && (D->mode == M_ECB || D->mode == M_CBC)) { a = a / D->bl * D->bl; b = b / D->bl * D->bl; }
    if (EVP_CipherUpdate(o->c, out, &l, in, n) != 1) mc_fail(mc_fmt("update-fails:%s", name), "update of the %s fails", who);
    if (l != (int)(b - a)) mc_fail(mc_fmt("copy-length:%s", name), "%s: %zu bytes in at %zu, %d out, expected %zu", who, n, o->off, l, b - a);
    if (memcmp(out, (rev ? M : e) + a, b - a)) mc_fail(mc_fmt("copy-output:%s", name), "the %s gives wrong output for bytes %zu..%zu", who, a, b);
    o->off += n;
}
static void ofin(obj *o, const char *who)
{
    u8 t[64]; int l;
    mc_trans(1);
    o->fin = 1;
    if (fam == F_CIPHER) {
        int whole = D->mode != M_ECB && D->mode != M_CBC || o->off % D->bl == 0;
        int r = EVP_CipherFinal_ex(o->c, t, &l);
        if (whole && r != 1) mc_fail(mc_fmt("final-fails:%s", name), "final of the %s fails", who);
        return;
    }
    const u8 *e = tag_of(o);
    if (fam == F_AEAD) {
        if (!AX->omac && !o->aad && !o->off) { EVP_CipherFinal_ex(o->c, t, &l); return; }
        if (o->enc) {
            if (EVP_CipherFinal_ex(o->c, t, &l) != 1) mc_fail(mc_fmt("final-fails:%s", name), "final of the %s fails", who);
            if (!(AX->omac ? omac_get_tag(o->c, t, AX->taglen) : EVP_CIPHER_CTX_ctrl(o->c, EVP_CTRL_AEAD_GET_TAG, AX->taglen, t) == 1)) mc_fail(mc_fmt("no-tag:%s", name), "no tag from the %s", who);
            if (memcmp(t, e, AX->taglen)) mc_fail(mc_fmt("copy-tag:%s", name), "tag of the %s: got %s expected %s", who, mc_hex(t, AX->taglen), mc_hex(e, AX->taglen));
        } else {
            if (!(AX->omac ? omac_set_tag(o->c, e, AX->taglen) : EVP_CIPHER_CTX_ctrl(o->c, EVP_CTRL_AEAD_SET_TAG, AX->taglen, (void *)e) == 1)) mc_fail(mc_fmt("set-tag:%s", name), "SET_TAG on the %s", who);
            if (EVP_CipherFinal_ex(o->c, t, &l) != 1) mc_fail(mc_fmt("copy-rejects:%s", name), "the %s rejects its valid message", who);
        }
        return;
    }
    unsigned n = 0; int r;
    if (fam == F_MAC && api) { size_t z = sizeof t; r = EVP_DigestSignFinal(o->m, t, &z); n = z; }
    else r = EVP_DigestFinal_ex(o->m, t, &n);
    if (r != 1) mc_fail(mc_fmt("final-fails:%s", name), "final of the %s fails", who);
    int len = fam == F_MD ? MD[alg].len : MAC[alg].def;
    if (memcmp(t, e, len)) mc_fail(mc_fmt("copy-value:%s", name), "value of the %s after %zu bytes: got %s expected %s", who, o->off, mc_hex(t, len), mc_hex(e, len));
}
static void ocopy(obj *to, const obj *from)
{
    EVP_CIPHER_CTX *c = to->c; EVP_MD_CTX *m = to->m;
    int r;
    if (from->c) { if (!c) c = EVP_CIPHER_CTX_new(); r = EVP_CIPHER_CTX_copy(c, from->c); }
    else { if (!m) m = EVP_MD_CTX_new(); r = EVP_MD_CTX_copy_ex(m, from->m); }
    *to = *from;
    to->c = from->c ? c : NULL; to->m = from->m ? m : NULL;
    if (r != 1) mc_fail(mc_fmt("copy-fails:%s", name), "copying fails");
    mc_trans(1);
}
static obj A, B, Z;
static size_t POS[10]; static int npos, depth;
static size_t blk, far;
/* a target that was used before */
static void used(obj *o, int how)
{
    if (how == 1) { okey(o, 5, 1, 0, 0); if (fam == F_AEAD && !AX->omac) oaad(o, 5); oupd(o, blk + 3, "old target"); }
    if (how == 2 && fam <= F_AEAD) {
        o->c = EVP_CIPHER_CTX_new();
        const char *other = !strcmp(name, "kuznyechik-ctr") ? "gost89" : "kuznyechik-ctr";
        EVP_CipherInit_ex(o->c, eng_cipher(other), E, K[4], IV[4], 1);
    }
    if (how == 2 && fam >= F_MD) {
        o->m = EVP_MD_CTX_new();
        EVP_DigestInit_ex(o->m, eng_digest(fam == F_MD && alg == 1 ? "md_gost94" : "md_gost12_256"), E);
        EVP_DigestUpdate(o->m, M, 70);
    }
    if (how == 3) { okey(o, 5, 0, 0, 0); oupd(o, blk, "old target"); ofin(o, "old target"); }
}
static void complete(obj *o, const char *who)
{
    if (!alive(o)) return;
    if (!o->keyed) { mc_op("%s: key;", who); okey(o, o == &A ? 2 : 3, o->enc, 0, 1); }
    if (o->fin) return;
    oupd(o, blk + blk / 2 + 1, who);
    ofin(o, who);
}
static void step(obj *o, obj *other, int op, const char *who)
{
    switch (op) {
    case 0: mc_op("%s: update(%zu);", who, blk / 2 + 1);
            if (o->keyed && !o->fin) { if (fam == F_AEAD && !AX->omac && !o->off && o->aad % 16) oaad(o, 3); oupd(o, blk / 2 + 1, who); } break;
    case 1: mc_op("%s: update(%zu);", who, far); if (o->keyed && !o->fin && o->off + far + 3 * blk < MSG) oupd(o, far, who); break;
    case 2: mc_op("%s: new key;", who); okey(o, o == &A ? 2 : 3, o->enc, 0, 1); break;
    case 3: mc_op("%s: new key, other direction, parameters;", who); okey(o, o == &A ? 2 : 3, !o->enc, 2, 0); break;
    case 4: mc_op("%s: final;", who); if (o->keyed && !o->fin) ofin(o, who); break;
    case 5: mc_op("%s: free;", who); ofree(o); break;
    case 6: mc_op("%s: overwritten by a copy of the other;", who); if (alive(other)) ocopy(o, other); break;
    case 7: mc_op("%s: reset;", who); if (o->c) EVP_CIPHER_CTX_reset(o->c); else EVP_MD_CTX_reset(o->m); ofree(o); break;
    }
}
static void one(void *u)
{
    mc_reset_trace();
    rng_reset(RNG_STREAM);
    ofree(&A); ofree(&B); ofree(&Z);
    int enc = fam <= F_AEAD ? 1 - mc_choose(2) : 1;
    int npar = fam == F_CIPHER ? (D->acpkm || D->meshsw || D->sboxsel ? 3 : 1) : fam == F_MAC && alg == 4 && !api ? 2 : 1;
    int st = mc_choose(npos + 1);
    if (st == npos) {
        if (fam == F_MD || (fam == F_MAC && api)) return;
        oalg(&A, enc); mc_op("source: algorithm only;");
    } else {
        int par = mc_choose(npar);
        okey(&A, 0, enc, par, 0);
        if (fam == F_AEAD && !AX->omac) oaad(&A, mc_choose(2) ? 19 : 0);
        size_t p = POS[st];
        mc_op("source(par %d, aad %zu): update(%zu);", A.par, A.aad, p);
        oupd(&A, p > 5 ? 5 : p, "source");
        oupd(&A, p > 5 ? p - 5 : 0, "source");
        if (mc_choose(mc_thorough ? 2 : 1) && !(fam == F_MAC && api)) { ofin(&A, "source"); mc_op("final;"); }
    }
    static const int few[] = { 0, 1, 4 };
    int tgt = depth < 2 || mc_thorough ? mc_choose(5) : few[mc_choose(3)];
    if (tgt == 3 && fam == F_AEAD && !AX->omac) return;
    mc_op("copy to %s;", (const char *[]){ "a fresh context", "a context in use", "a context of another algorithm", "a finished context", "a fresh context through a freed intermediate" }[tgt]);
    if (tgt == 4) {
        ocopy(&Z, &A);
        ocopy(&B, &Z);
        ofree(&Z);
    } else {
        used(&B, tgt);
        ocopy(&B, &A);
    }
    for (int i = 0; i < depth; i++) {
        int op = mc_choose(16);
        obj *o = op & 1 ? &A : &B;
        if (!alive(o)) continue;
        step(o, op & 1 ? &B : &A, op >> 1, op & 1 ? "source" : "copy");
    }
    if (mc_choose(depth < 2 || mc_thorough ? 2 : 1)) { complete(&A, "source"); complete(&B, "copy"); }
    else { complete(&B, "copy"); complete(&A, "source"); }
    ofree(&A); ofree(&B);
}
static void run(const char *what)
{
    for (int dep = 0; dep <= (mc_thorough ? 3 : 2); dep++)
        for (int n = 0; n < (dep < 2 ? 1 : npos + 0); n++)
            MC_CASE("%s%s %s, %d operations after the copy, part %d", name, fam == F_MAC && api ? " (DigestSign)" : "", what, dep, n) {
                size_t save[10]; int sn = npos;
                depth = dep;
                memcpy(save, POS, sizeof save);
                if (dep >= 2) { POS[0] = save[n]; npos = 1; }
                mc_explore(one, NULL);
                memcpy(POS, save, sizeof save); npos = sn;
                mc_outcome("%s %s copied", name, what);
                if (dep == 1) mc_sample("%s: all single operations after a copy at positions up to %zu", name, POS[npos - 1]);
            }
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(1);
    fill(M, sizeof M, 3); fill(AADB, sizeof AADB, 4);
    for (int i = 0; i < 6; i++) { fill(K[i], 32, 100 + i); fill(IV[i], 16, 200 + i); IV[i][0] &= 0x7f; }
    fam = F_CIPHER;
    for (alg = 0; alg < NCD; alg++) {
        D = &CD[alg]; name = D->sn; blk = D->bl;
        far = D->acpkm ? 4 * blk + 1 : D->meshsw ? 1021 : 3 * blk;
        npos = 0;
        POS[npos++] = 0; POS[npos++] = blk / 2 + 1; POS[npos++] = blk; POS[npos++] = 2 * blk + 3;
        if (D->meshsw) { POS[npos++] = 1024; POS[npos++] = 1027; }
        if (D->acpkm) POS[npos++] = D->defsection;
        run("cipher");
    }
    fam = F_AEAD;
    for (alg = 0; alg < 4; alg++) {
        AX = &AD[alg]; name = AX->sn; blk = AX->bl; far = 3 * blk;
        npos = 0;
        POS[npos++] = 0; POS[npos++] = blk / 2 + 1; POS[npos++] = blk; POS[npos++] = 2 * blk + 3;
        run("authenticated cipher");
    }
    fam = F_MD;
    for (alg = 0; alg < 3; alg++) {
        name = MD[alg].sn; blk = MD[alg].bl; far = 3 * blk;
        npos = 0;
        POS[npos++] = 0; POS[npos++] = 5; POS[npos++] = blk - 1; POS[npos++] = blk; POS[npos++] = 2 * blk + 3;
        run("digest");
    }
    fam = F_MAC;
    for (api = 0; api < 2; api++) for (alg = 0; alg < 5; alg++) {
        name = MAC[alg].sn; blk = MAC[alg].bl; far = alg < 2 ? 1021 : 5 * blk;
        npos = 0;
        POS[npos++] = 0; POS[npos++] = 5; POS[npos++] = blk - 1; POS[npos++] = blk; POS[npos++] = 2 * blk + 3;
        if (alg < 2) { POS[npos++] = 1024; POS[npos++] = 1030; }
        run("MAC");
    }
    return mc_finish();
}
