/* P08: public-key transport of session keys. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "pk.h"
static pkset *S;
static char N[128];
enum { KT, KT_PEER, PST_M, PST_K, NM };
static const char *MN[] = { "CryptoPro", "CryptoPro with sender key", "2018 Magma", "2018 Kuznyechik" };
static int is18(int m) { return m >= PST_M; }
static BIGNUM *D, *DS, *DE;                   /* recipient, sender, ephemeral private keys */
static EC_POINT *Q, *QS, *QE;
static EVP_PKEY *priv, *pub, *snd, *sndpub;
static BIGNUM *rnd(unsigned seed)
{
    u8 x[64]; BIGNUM *b = BN_new();
    fill(x, 64, seed); BN_bin2bn(x, S->c->size, b); BN_mod(b, b, S->c->q, ecbn);
    return b;
}
static void use(pkset *s)
{
    S = s; snprintf(N, sizeof N, "%s", pk_name(s));
    D = rnd(21); DS = rnd(22); DE = rnd(23);
    Q = ec_mul(s->c, D, NULL); QS = ec_mul(s->c, DS, NULL); QE = ec_mul(s->c, DE, NULL);
    priv = pk_wrap(s, D, Q); pub = pk_wrap(s, NULL, Q); snd = pk_wrap(s, DS, QS); sndpub = pk_wrap(s, NULL, QS);
}
static void unuse(void)
{
    EVP_PKEY_free(priv); EVP_PKEY_free(pub); EVP_PKEY_free(snd); EVP_PKEY_free(sndpub);
    EC_POINT_free(Q); EC_POINT_free(QS); EC_POINT_free(QE); BN_free(D); BN_free(DS); BN_free(DE);
}
static int legacy_md(void) { return S->dgst == NID_id_GostR3411_94 ? S->dgst : NID_id_GostR3411_2012_256; }
static int possible(int m) { return !(is18(m) && S->type == NID_id_GostR3410_2001); }
/* what the blob's wrapped parts must be; sb index into SBSEL */
static int ref_wrap(int m, const EC_POINT *P, const BIGNUM *d, const u8 *ukm, int sb, const u8 key[32], u8 *out)
{
    struct { void *s; u8 x[232]; } mk; int new;
    u8 k[64], w[44];
    memset(&mk, 0, sizeof mk);
    mk.s = S; mk.x[0] = m; pt_le(S->c, P, mk.x + 1); memcpy(mk.x + 130, ukm, is18(m) ? 32 : 8); BN_bn2binpad(d, mk.x + 162, 64);
    u8 *mm = mc_memo(&mk, sizeof mk, 65, &new);
    if (new) {
        if (!is18(m)) mm[0] = ref_vko(S, P, d, ukm, 8, legacy_md(), mm + 1);
        else mm[0] = possible(m) && ref_keg(S, P, d, ukm, mm + 1);
    }
    if (!mm[0]) return 0;
    memcpy(k, mm + 1, 64);
    if (is18(m)) ref_kexp15(m == PST_K ? BC_KUZ : BC_MAGMA, k + 32, k, ukm + 24, m == PST_K ? 8 : 4, key, 32, out);
    else { ref_cp_wrap(k, *SBSEL[sb].sb, ukm, key, w); memcpy(out, w + 8, 36); }
    return 1;
}
static size_t explen(int m) { return m == PST_K ? 48 : m == PST_M ? 40 : 36; }
static int defsb(void) { return S->type == NID_id_GostR3410_2001 ? 1 : 0; }
static int sbnid(int i) { return OBJ_sn2nid(SBSEL[i].name); }
/* a blob made by the reference; flags: 1 no ephemeral key, 2 no ukm, 4 digest parameter given */
static size_t ref_blob(int m, const u8 *ukm, int sb, const u8 key[32], int flags, u8 *out)
{
    u8 w[64], sp[300]; size_t n;
    if (!ref_wrap(m, Q, m == KT_PEER ? DS : DE, ukm, sb, key, w)) return 0;
    n = ref_spki(S, QE, flags & 4 ? S->dgst : 0, sp);
    if (is18(m)) return ref_pst(w, explen(m), sp, n, flags & 2 ? NULL : ukm, 32, out);
    return ref_kt(S, w, w + 32, sbnid(sb), flags & 1 || m == KT_PEER ? NULL : sp, n, ukm, 8, out);
}
static void set_cipher(EVP_PKEY_CTX *x, int m, int var)
{
    static const int M[] = { NID_magma_ctr, NID_magma_ctr_acpkm, NID_magma_ctr_acpkm_omac }, K[] = { NID_kuznyechik_ctr, NID_kuznyechik_ctr_acpkm, NID_kuznyechik_ctr_acpkm_omac };
    int nid = m == PST_M ? M[var] : m == PST_K ? K[var] : NID_id_Gost28147_89;
    if (!is18(m) && !var) return;
    if (EVP_PKEY_CTX_ctrl(x, -1, -1, EVP_PKEY_CTRL_CIPHER, nid, NULL) != 1) mc_fail(mc_fmt("cipher-ctrl:%s", S->tname), "cipher %s refused", OBJ_nid2sn(nid));
}
static EVP_PKEY_CTX *dctx(EVP_PKEY *k, int m, EVP_PKEY *peer, int var)
{
    EVP_PKEY_CTX *x = pk_ctx(k);
    if (EVP_PKEY_decrypt_init(x) != 1) mc_fail(mc_fmt("decrypt-init:%s", S->tname), "init fails");
    set_cipher(x, m, var);
    if (peer && EVP_PKEY_derive_set_peer(x, peer) != 1) mc_fail(mc_fmt("set-peer:%s", S->tname), "peer refused");
    return x;
}
/* decrypts from an exactly sized heap copy into a 32-byte heap buffer; out gets the key */
static int dec(EVP_PKEY_CTX *x, const u8 *b, size_t n, u8 *out)
{
    u8 *in = malloc(n ? n : 1), *o = malloc(32); size_t l = 32;
    memcpy(in, b, n);
    int r = EVP_PKEY_decrypt(x, o, &l, in, n);
    if (r == 1 && l != 32) mc_fail(mc_fmt("decrypt-length:%s", S->tname), "success with length %zu", l);
    memcpy(out, o, 32);
    free(in); free(o);
    ERR_clear_error();
    mc_n_execs++; mc_trans(1);
    return r == 1;
}
static void blob_check(int m, const u8 *b, size_t n, const u8 *key, const u8 *ukm, const EC_POINT *to, const BIGNUM *d)
{
    ktrans t; u8 w[64];
    if (!kt_parse(S, is18(m), b, n, &t)) mc_fail(mc_fmt("ill-formed:%s:%s", S->tname, MN[m]), "encryption returns %s", mc_hex(b, n));
    if (t.has_eph && (t.spki_type != S->type || t.spki_curve != S->c->nid)) mc_fail(mc_fmt("ephemeral-key:%s:%s", S->tname, MN[m]), "ephemeral key of type %s on %s", OBJ_nid2sn(t.spki_type), OBJ_nid2sn(t.spki_curve));
    if (t.has_eph == (m == KT_PEER)) mc_fail(mc_fmt("ephemeral-key:%s:%s", S->tname, MN[m]), "ephemeral key %s", t.has_eph ? "present" : "absent");
    if (t.ukmlen != (is18(m) ? 32 : 8)) mc_fail(mc_fmt("ukm:%s:%s", S->tname, MN[m]), "UKM of %zu bytes", t.ukmlen);
    if (ukm && memcmp(ukm, t.ukm, t.ukmlen)) mc_fail(mc_fmt("ukm:%s:%s", S->tname, MN[m]), "UKM sent is not the one set");
    if (!is18(m)) {
        u8 o[20]; size_t l = der_oid(o, sbnid(defsb()));
        if (t.oidlen != l - 2 || memcmp(o + 2, t.oid, l - 2)) mc_fail(mc_fmt("sbox:%s", S->tname), "wrong S-box announced");
    }
    /* the recipient's side of the agreement, computed by the reference */
    struct rng_state sv = rng; rng_reset(RNG_STREAM);
    if (!ref_wrap(m, t.has_eph ? t.eph : QS, d, t.ukm, defsb(), key, w)) mc_fail(mc_fmt("no-agreement:%s", S->tname), "no shared key");
    rng = sv;
    if (t.enclen != explen(m) - (is18(m) ? 0 : 4) || memcmp(w, t.enc, t.enclen) || (!is18(m) && (t.maclen != 4 || memcmp(w + 32, t.mac, 4))))
        mc_fail(mc_fmt("wrong-blob:%s:%s", S->tname, MN[m]), "wrapped key is %s %s, the standard has %s", mc_hex(t.enc, t.enclen), mc_hex(t.mac, t.maclen), mc_hex(w, explen(m)));
    EC_POINT_free(t.eph);
}
static void keyv(int i, u8 *k) { if (i == 1) memset(k, 0, 32); else if (i == 2) memset(k, 0xff, 32); else fill(k, 32, 60 + i); }
static EVP_PKEY_CTX *ectx(EVP_PKEY *to, int m, int var)
{
    EVP_PKEY_CTX *x = pk_ctx(to);
    if (EVP_PKEY_encrypt_init(x) != 1) mc_fail(mc_fmt("encrypt-init:%s", S->tname), "init fails");
    set_cipher(x, m, var);
    if (m == KT_PEER && EVP_PKEY_derive_set_peer(x, snd) != 1) mc_fail(mc_fmt("set-peer:%s", S->tname), "peer refused");
    return x;
}
static void set_ukm(EVP_PKEY_CTX *x, const u8 *u, size_t n) { u8 t[64]; memcpy(t, u, n); if (EVP_PKEY_CTX_ctrl(x, -1, -1, EVP_PKEY_CTRL_SET_IV, n, t) != 1) mc_fail(mc_fmt("set-ukm:%s", S->tname), "UKM of %zu bytes refused", n); memset(t, 0xee, 64); }
static int enc(EVP_PKEY_CTX *x, const u8 *key, size_t kl, u8 *out, size_t *l)
{
    u8 *k = malloc(kl ? kl : 1), *o = malloc(*l ? *l : 1);
    memcpy(k, key, kl);
    int r = EVP_PKEY_encrypt(x, o, l, k, kl);
    if (r == 1) memcpy(out, o, *l);
    free(k); free(o);
    ERR_clear_error();
    mc_n_execs++; mc_trans(1);
    return r == 1;
}
/* encryption: every transport, UKM, session key and way to name the cipher */
static void encrypts(int m)
{
    u8 key[32], ukm[32], b[700], o[32]; size_t l, q;
    for (int var = 0; var < 3; var++) for (int kv = 0; kv < 3; kv++) for (int uv = 0; uv < 5; uv++) for (int query = 0; query < 2; query++) {
        if (!mc_thorough && (var && (kv || uv > 1))) continue;
        if (!is18(m) && var > 1) continue;
        mc_reset_trace(); mc_op("%s cipher %d session key %d ukm %d size query %d", MN[m], var, kv, uv, query);
        keyv(kv, key);
        size_t ul = is18(m) ? 32 : 8;
        if (uv == 1) fill(ukm, 32, 5); else if (uv == 2) memset(ukm, 0, 32); else if (uv == 3) memset(ukm, 0xff, 32); else if (uv == 4) { memset(ukm, 0, 32); ukm[0] = 1; }
        rng_reset(RNG_STREAM);
        EVP_PKEY_CTX *x = ectx(pub, m, var);
        if (uv) set_ukm(x, ukm, ul);
        q = sizeof b;
        int may = possible(m) && !(uv == 2 && !is18(m));
        if (query) { l = 0; int r = EVP_PKEY_encrypt(x, NULL, &l, key, 32); if (r == 1) q = l; else if (may) mc_fail(mc_fmt("size-query:%s:%s", S->tname, MN[m]), "size query fails"); ERR_clear_error(); }
        l = q;
        int r = enc(x, key, 32, b, &l);
        if (r != may) mc_fail(mc_fmt("encrypt:%s:%s", S->tname, MN[m]), "encryption into %zu bytes returns %d%s", q, r, query ? " (length as queried)" : "");
        EVP_PKEY_CTX_free(x);
        if (!r) { mc_count("undefined", 1); continue; }
        blob_check(m, b, l, key, uv ? ukm : NULL, Q, D);
        x = dctx(priv, m, m == KT_PEER ? sndpub : NULL, (var + 1) % (is18(m) ? 3 : 2));
        if (!dec(x, b, l, o) || memcmp(o, key, 32)) mc_fail(mc_fmt("round-trip:%s:%s", S->tname, MN[m]), "own blob does not decrypt");
        EVP_PKEY_CTX_free(x);
        mc_count("round_trips", 1);
    }
    if (!possible(m)) return;
    /* every length of session key and buffer */
    keyv(0, key);
    u8 big[80]; fill(big, 80, 3); memcpy(big, key, 32);
    for (size_t kl = 0; kl <= 70; kl++) {
        mc_reset_trace(); mc_op("%s session key of %zu bytes", MN[m], kl);
        EVP_PKEY_CTX *x = ectx(pub, m, 0);
        l = sizeof b;
        int r = enc(x, big, kl, b, &l);
        if (r != (kl == 32)) mc_fail(mc_fmt("key-length:%s:%s", S->tname, MN[m]), "encrypting a key of %zu bytes returns %d", kl, r);
        EVP_PKEY_CTX_free(x);
    }
    EVP_PKEY_CTX *x = ectx(pub, m, 0);
    l = sizeof b;
    enc(x, key, 32, b, &l); size_t need = l;
    EVP_PKEY_CTX_free(x);
    for (size_t n = 0; n < need + 3; n += (n < 40 || n + 12 > need || mc_thorough) ? 1 : 7) {
        mc_reset_trace(); mc_op("%s into %zu bytes of %zu", MN[m], n, need);
        x = ectx(pub, m, 0);
        l = n;
        int r = enc(x, key, 32, b, &l);
        if (r != (n >= need)) mc_fail(mc_fmt("room:%s:%s", S->tname, MN[m]), "encrypting into %zu bytes returns %d, %zu", n, r, l);
        if (r) blob_check(m, b, l, key, NULL, Q, D);
        EVP_PKEY_CTX_free(x);
    }
    /* UKM sizes and unusable recipients */
    u8 u[64]; fill(u, 64, 6);
    for (int n = 0; n <= 32; n++) if (is18(m) ? n != 0 && n != 32 : n > 8) {
        if (!is18(m)) continue;
        mc_reset_trace(); mc_op("%s with UKM of %d bytes", MN[m], n);
        x = ectx(pub, m, 0); set_ukm(x, u, n);
        l = sizeof b;
        if (enc(x, key, 32, b, &l)) mc_fail(mc_fmt("ukm-size:%s:%s", S->tname, MN[m]), "encryption with a UKM of %d bytes succeeds", n);
        EVP_PKEY_CTX_free(x);
    }
    EVP_PKEY *none = pk_wrap(S, NULL, NULL), *privonly = pk_wrap(S, D, NULL);
    mc_reset_trace(); mc_op("%s to a key without public part", MN[m]);
    x = ectx(none, m, 0); l = sizeof b;
    if (enc(x, key, 32, b, &l)) mc_fail(mc_fmt("no-public:%s:%s", S->tname, MN[m]), "encryption to parameters succeeds");
    EVP_PKEY_CTX_free(x);
    x = ectx(none, m, 0); l = 0;
    EVP_PKEY_encrypt(x, NULL, &l, key, 32); ERR_clear_error();
    EVP_PKEY_CTX_free(x);
    if (m == KT_PEER) {
        mc_reset_trace(); mc_op("sender key without private part");
        x = pk_ctx(pub); EVP_PKEY_encrypt_init(x); EVP_PKEY_derive_set_peer(x, sndpub); l = sizeof b;
        if (enc(x, key, 32, b, &l)) mc_fail(mc_fmt("no-private:%s", S->tname), "encryption with a sender key without private part succeeds");
        EVP_PKEY_CTX_free(x);
    }
    EVP_PKEY_free(none); EVP_PKEY_free(privonly);
}
/* blobs made by the reference are understood */
static void decrypts(int m)
{
    u8 key[32], ukm[32], b[700], o[32]; size_t n;
    for (int sb = 0; sb < 6; sb++) for (int kv = 0; kv < 3; kv++) for (int uv = 1; uv < 4; uv++) for (int f = 0; f < 8; f++) {
        if (is18(m) && sb) continue;
        if (is18(m) ? f & 1 : f & 2) continue;
        if (!mc_thorough && sb != defsb() && (kv || uv > 1 || f > 1)) continue;
        if (m == KT_PEER && f > 1) continue;
        int pre = m == KT_PEER || (m == KT && f & 1);
        if (m == KT && f & 1) continue;             /* same as KT_PEER */
        keyv(kv, key);
        if (uv == 1) fill(ukm, 32, 5); else if (uv == 2) { memset(ukm, 0, 32); ukm[31] = 1; ukm[7] = 1; } else memset(ukm, 0xff, 32);
        mc_reset_trace(); mc_op("%s sbox %s session key %d ukm %d form %d", MN[m], SBSEL[sb].name, kv, uv, f);
        n = ref_blob(m, ukm, sb, key, f, b);
        if (!n) {
            /* the transport does not exist for this key type: any blob must be refused */
            u8 sp[300], w[64]; size_t k = ref_spki(S, QE, 0, sp);
            fill(w, 64, 1);
            n = ref_pst(w, explen(m), sp, k, ukm, 32, b);
            EVP_PKEY_CTX *x = dctx(priv, m, NULL, 0);
            if (dec(x, b, n, o)) mc_fail(mc_fmt("decrypts-anyway:%s:%s", S->tname, MN[m]), "success");
            EVP_PKEY_CTX_free(x);
            continue;
        }
        EVP_PKEY_CTX *x = dctx(priv, m, pre ? sndpub : NULL, 0);
        if (f & 2) set_ukm(x, ukm, 32);
        size_t l = 0;
        if (EVP_PKEY_decrypt(x, NULL, &l, b, n) != 1 || l != 32) mc_fail(mc_fmt("size-query:%s:%s", S->tname, MN[m]), "size query of decryption: %zu", l);
        for (l = 0; l < 32; l += 31 - (l > 30) * 30) { u8 *t = malloc(l + 1); size_t q = l; if (EVP_PKEY_decrypt(x, t, &q, b, n) == 1) mc_fail(mc_fmt("room:%s:%s", S->tname, MN[m]), "decryption into %zu bytes succeeds", l); free(t); if (l == 31) break; }
        if (!dec(x, b, n, o) || memcmp(o, key, 32)) mc_fail(mc_fmt("decrypt:%s:%s", S->tname, MN[m]), "a blob made by the standard's rules is not decrypted (%s)", mc_hex(o, 32));
        EVP_PKEY_CTX_free(x);
        /* another recipient */
        x = dctx(snd, m, pre ? sndpub : NULL, 0);
        if (dec(x, b, n, o) && memcmp(o, key, 32)) mc_fail(mc_fmt("other-key:%s:%s", S->tname, MN[m]), "decryption with another key succeeds");
        EVP_PKEY_CTX_free(x);
        x = dctx(pub, m, pre ? sndpub : NULL, 0);
        if (dec(x, b, n, o)) mc_fail(mc_fmt("no-private:%s:%s", S->tname, MN[m]), "decryption without private key succeeds");
        EVP_PKEY_CTX_free(x);
        if (f & 2) { x = dctx(priv, m, NULL, 0); if (dec(x, b, n, o)) mc_fail(mc_fmt("no-ukm:%s:%s", S->tname, MN[m]), "decryption without UKM succeeds"); EVP_PKEY_CTX_free(x); }
        if (pre) { x = dctx(priv, m, NULL, 0); if (dec(x, b, n, o)) mc_fail(mc_fmt("no-peer:%s:%s", S->tname, MN[m]), "decryption without sender key succeeds"); EVP_PKEY_CTX_free(x); }
        mc_count("reference_blobs", 1);
    }
    if (!possible(m)) return;
    /* wrong sizes of the parts */
    u8 w[80], sp[300]; size_t k = ref_spki(S, QE, 0, sp);
    fill(ukm, 32, 5); keyv(0, key);
    for (int part = 0; part < 3; part++) for (int d = 0; d <= 70; d++) {
        u8 big[100]; fill(big, 100, 2);
        if (!ref_wrap(m, Q, m == KT_PEER ? DS : DE, ukm, defsb(), key, w)) mc_internal("wrap");
        mc_reset_trace(); mc_op("%s part %d of %d bytes", MN[m], part, d);
        if (is18(m)) {
            if (part > 1) break;
            if (part == 0) { memcpy(big, w, explen(m)); if (d == (int)explen(m)) continue; n = ref_pst(big, d, sp, k, ukm, 32, b); }
            else { memcpy(big, ukm, 32); if (d == 32) continue; n = ref_pst(w, explen(m), sp, k, big, d, b); }
        } else {
            u8 x[300], a[200]; size_t an, xn;
            int want = part == 0 ? 32 : part == 1 ? 4 : 8;
            if (d == want) continue;
            memcpy(big, part == 0 ? w : part == 1 ? w + 32 : ukm, want);
            an = der_put(a, 4, part == 0 ? big : w, part == 0 ? d : 32);
            an += der_put(a + an, 4, part == 1 ? big : w + 32, part == 1 ? d : 4);
            an = der_put(a, 0x30, a, an);
            xn = der_oid(x, sbnid(defsb()));
            if (m == KT) { memcpy(x + xn, sp, k); x[xn] = 0xa0; xn += k; }
            xn += der_put(x + xn, 4, part == 2 ? big : ukm, part == 2 ? d : 8);
            xn = der_put(x, 0xa0, x, xn);
            memcpy(b, a, an); memcpy(b + an, x, xn);
            n = der_put(b, 0x30, b, an + xn);
        }
        EVP_PKEY_CTX *x = dctx(priv, m, m == KT_PEER ? sndpub : NULL, 0);
        if (dec(x, b, n, o)) mc_fail(mc_fmt("part-size:%s:%s:%d", S->tname, MN[m], part), "blob with part %d of %d bytes is accepted", part, d);
        EVP_PKEY_CTX_free(x);
    }
    /* ephemeral keys on other curves and of other types */
    if (m != KT_PEER) for (int i = 0; i < NPK + 4; i++) {
        u8 spk[600]; size_t sn; pkset *T = &PK[i < NPK ? i : 0];
        if (i < NPK && T->c == S->c && T->type == S->type) continue;
        if (i < NPK) sn = ref_spki(T, T->c->size ? ec_mul(T->c, BN_value_one(), NULL) : NULL, 0, spk);
        else {
            /* foreign algorithms */
            EVP_PKEY *f = i == NPK ? EVP_PKEY_Q_keygen(NULL, NULL, "EC", "P-256") : i == NPK + 1 ? EVP_PKEY_Q_keygen(NULL, NULL, "RSA", (size_t)1024) : i == NPK + 2 ? EVP_PKEY_Q_keygen(NULL, NULL, "X25519") : EVP_PKEY_Q_keygen(NULL, NULL, "ED448");
            u8 *p = spk; sn = f && i2d_PUBKEY(f, NULL) < 600 ? i2d_PUBKEY(f, &p) : 0;
            EVP_PKEY_free(f);
            if (!sn) mc_internal("foreign key");
        }
        ref_wrap(m, Q, DE, ukm, defsb(), key, w);
        n = is18(m) ? ref_pst(w, explen(m), spk, sn, ukm, 32, b) : ref_kt(S, w, w + 32, sbnid(defsb()), spk, sn, ukm, 8, b);
        mc_reset_trace(); mc_op("%s with ephemeral key %s", MN[m], i < NPK ? pk_name(T) : "of a foreign algorithm");
        EVP_PKEY_CTX *x = dctx(priv, m, NULL, 0);
        if (dec(x, b, n, o)) mc_fail(mc_fmt("foreign-ephemeral:%s:%s", S->tname, MN[m]), "blob with a foreign ephemeral key is accepted");
        /* and it leaves nothing behind */
        n = ref_blob(m, ukm, defsb(), key, 0, b);
        if (!dec(x, b, n, o) || memcmp(o, key, 32)) mc_fail(mc_fmt("after-refusal:%s:%s", S->tname, MN[m]), "a good blob is refused after a bad one");
        EVP_PKEY_CTX_free(x);
    }
}
/* every alteration */
static void alter(int m, int deep)
{
    u8 key[32], ukm[32], b[700], a[720], o[32];
    fill(ukm, 32, 5); keyv(0, key);
    size_t n = ref_blob(m, ukm, defsb(), key, 0, b);
    if (!n) return;
    EVP_PKEY *peer = m == KT_PEER ? sndpub : NULL;
#define TRY(len, what, ...) do { mc_reset_trace(); mc_op("%s: " what, MN[m], __VA_ARGS__); EVP_PKEY_CTX *x_ = dctx(priv, m, peer, 0); \
        int r_ = dec(x_, a, len, o); EVP_PKEY_CTX_free(x_); \
        if (r_ && memcmp(o, key, 32)) mc_fail(mc_fmt("altered:%s:%s", S->tname, MN[m]), "altered blob gives another key %s", mc_hex(o, 32)); \
        mc_count(r_ ? "altered_same_key" : "altered_refused", 1); } while (0)
    for (size_t i = 0; i < n; i++) for (int bit = 0; bit < 8; bit++) {
        if (!deep && bit != (int)(i & 7)) continue;
        memcpy(a, b, n); a[i] ^= 1 << bit;
        TRY(n, "bit %d of byte %zu flipped", bit, i);
    }
    for (size_t i = 0; i < n; i++) {
        memcpy(a, b, n);
        TRY(i, "cut to %zu bytes", i);
        memcpy(a, b, i); memcpy(a + i, b + i + 1, n - i - 1);
        TRY(n - 1, "byte %zu removed", i);
        memcpy(a, b, i); a[i] = b[i]; memcpy(a + i + 1, b + i, n - i);
        TRY(n + 1, "byte %zu doubled", i);
        if (!deep) { if (i % 4) continue; }
        memcpy(a, b, n); a[i] = 0; TRY(n, "byte %zu zeroed", i);
        memcpy(a, b, n); a[i] = 0xff; TRY(n, "byte %zu set", i);
        memcpy(a, b, n); a[i]++; TRY(n, "byte %zu incremented", i);
    }
    memset(a, 0, 720); memcpy(a, b, n);
    TRY(n + 5, "%d bytes appended", 5);
    /* parts of two good blobs mixed */
    u8 ukm2[32], key2[32], c[700]; fill(ukm2, 32, 15); keyv(3, key2);
    size_t n2 = ref_blob(m, ukm2, defsb(), key2, 0, c);
    if (n2 == n) for (size_t i = 0; i < n; i++) { memcpy(a, b, i); memcpy(a + i, c + i, n - i); mc_reset_trace(); mc_op("%s: first %zu bytes of one blob, then another", MN[m], i); EVP_PKEY_CTX *x = dctx(priv, m, peer, 0); int r = dec(x, a, n, o); EVP_PKEY_CTX_free(x); if (r && memcmp(o, key, 32) && memcmp(o, key2, 32)) mc_fail(mc_fmt("altered:%s:%s", S->tname, MN[m]), "spliced blob gives another key"); if (!deep && i > 20) i += 4; }
}
/* histories of one context: every decryption gives its own message's key */
static struct { u8 b[700]; size_t n; u8 key[32]; } hm[NM][3];   /* two blobs and a broken one */
static u8 hukm[2][32];
static void hist_dec(void *v)
{
    EVP_PKEY_CTX *x = dctx(priv, KT, NULL, 0), *y;
    int m = KT, ukm = 0; u8 o[32];
    mc_reset_trace();
    for (int i = 0; i < (mc_thorough ? 5 : 4); i++) {
        int op = mc_choose(9);
        mc_trans(1);
        switch (op) {
        case 0: case 1: case 2: {
            mc_op("decrypt %s blob %d", MN[m], op);
            if (op == 2) {  }
            int r = dec(x, hm[m][op].b, hm[m][op].n, o);
            int want = op < 2 && (!ukm || !is18(m) || ukm == op + 1);
            if (r != want || (r && memcmp(o, hm[m][op].key, 32))) mc_fail(mc_fmt("history:%s:%s", S->tname, MN[m]), "decryption returns %d (%s), expected %d", r, mc_hex(o, 32), want);
            break; }
        case 3: case 4: if (!possible(op == 3 ? PST_M : PST_K)) break; m = op == 3 ? PST_M : PST_K; mc_op("cipher %s", MN[m]); set_cipher(x, m, 0); break;
        case 5: m = KT; mc_op("cipher 28147"); set_cipher(x, KT, 1); break;
        case 6: ukm = 1; mc_op("set ukm of blob 0"); set_ukm(x, hukm[0], 32); break;
        case 7: mc_op("dup"); y = EVP_PKEY_CTX_dup(x); if (!y) mc_fail(mc_fmt("dup:%s", S->tname), "dup fails"); EVP_PKEY_CTX_free(x); x = y; break;
        case 8: mc_op("size query"); { size_t l = 0; EVP_PKEY_decrypt(x, NULL, &l, hm[m][0].b, hm[m][0].n); } break;
        }
    }
    EVP_PKEY_CTX_free(x);
}
static void hist_enc(void *v)
{
    int kind = *(int *)v;
    EVP_PKEY_CTX *x = ectx(pub, kind, 0), *y;
    int m = kind, ukm = 0; u8 b[700], key[32]; size_t l;
    rng_reset(RNG_STREAM);
    mc_reset_trace();
    for (int i = 0; i < (mc_thorough ? 4 : 3); i++) {
        int op = mc_choose(8);
        mc_trans(1);
        switch (op) {
        case 0: case 1: mc_op("encrypt key %d", op); keyv(op, key); l = sizeof b;
            if (!enc(x, key, 32, b, &l)) mc_fail(mc_fmt("history:%s:%s", S->tname, MN[m]), "encryption fails");
            blob_check(m, b, l, key, ukm && (!is18(m) || ukm == 2) ? hukm[1] : NULL, Q, D);
            break;
        case 2: mc_op("size query"); l = 0; EVP_PKEY_encrypt(x, NULL, &l, key, 32); break;
        case 3: mc_op("too small a buffer"); l = 20; keyv(0, key); if (enc(x, key, 32, b, &l)) mc_fail(mc_fmt("room:%s:%s", S->tname, MN[m]), "encryption into 20 bytes succeeds"); break;
        case 4: mc_op("ukm"); set_ukm(x, hukm[1], 32); ukm = 2; break;
        case 5: mc_op("dup"); y = EVP_PKEY_CTX_dup(x); if (!y) mc_fail(mc_fmt("dup:%s", S->tname), "dup fails"); EVP_PKEY_CTX_free(x); x = y; break;
        case 6: if (m == KT_PEER || !possible(PST_K)) break; m = m == PST_M ? PST_K : PST_M; mc_op("cipher %s", MN[m]); set_cipher(x, m, 0); break;
        case 7: mc_op("init"); EVP_PKEY_encrypt_init(x); break;
        }
    }
    EVP_PKEY_CTX_free(x);
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(1);
    pk_init();
    for (int i = 0; i < NPK; i++) {
        int deep = i == 0 || i == 7 || PK[i].c->h > 1 || i == NPK - 1 || mc_thorough;
        for (int m = 0; m < NM; m++) {
            MC_CASE("%s encryption, %s", pk_name(&PK[i]), MN[m]) { use(&PK[i]); encrypts(m); unuse(); mc_outcome("recovered or refused"); }
            MC_CASE("%s decryption, %s", pk_name(&PK[i]), MN[m]) { use(&PK[i]); decrypts(m); unuse(); mc_outcome("reference blobs decrypted"); }
            if (m != KT_PEER || deep) MC_CASE("%s altered, %s", pk_name(&PK[i]), MN[m]) { use(&PK[i]); alter(m, deep); unuse(); mc_outcome("altered blobs refused"); mc_sample("%s %s: every bit and byte of the blob", N, MN[m]); }
        }
        if (deep) {
            MC_CASE("%s decryption histories", pk_name(&PK[i])) {
                use(&PK[i]);
                fill(hukm[0], 32, 31); fill(hukm[1], 32, 32);
                for (int m = 0; m < NM; m++) for (int w = 0; w < 3 && possible(m); w++) {
                    keyv(w ? 3 : 0, hm[m][w].key); hm[m][w].n = ref_blob(m, hukm[w > 0], defsb(), hm[m][w].key, 0, hm[m][w].b);
                    if (w == 2) hm[m][w].b[is18(m) ? 20 : 12] ^= 4;
                }
                mc_explore(hist_dec, NULL);
                unuse();
            }
            for (int m = 0; m < NM; m++) if (!(is18(m) && PK[i].type == NID_id_GostR3410_2001)) MC_CASE("%s encryption histories, %s", pk_name(&PK[i]), MN[m]) { use(&PK[i]); fill(hukm[0], 32, 31); fill(hukm[1], 32, 32); mc_explore(hist_enc, &m); unuse(); }
        }
    }
    return mc_finish();
}
