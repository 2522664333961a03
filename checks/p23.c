/* P23: certificates, requests, CMS, PKCS#7 and PKCS#12: every key type, cipher and length comes back, and what is altered is not taken for authentic. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "pk.h"
#include "aead.h"
#include "cpar.h"
#include <openssl/cms.h>
#include <openssl/pkcs7.h>
#include <openssl/pkcs12.h>
#include <openssl/x509v3.h>
static u8 MSG[1100];
static struct { EVP_PKEY *k, *k2; X509 *c, *c2; } KY[32];
static BIGNUM *D1, *D2;
static int err(void) { ERR_clear_error(); return 1; }
static X509 *mkcert(EVP_PKEY *k, long serial)
{
    X509 *x = X509_new(); X509_NAME *n = X509_NAME_new();
    X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (u8 *)"test", -1, -1, 0);
    X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), serial);
    X509_set_subject_name(x, n); X509_set_issuer_name(x, n); X509_NAME_free(n);
    ASN1_TIME_set_string(X509_getm_notBefore(x), "20200101000000Z"); ASN1_TIME_set_string(X509_getm_notAfter(x), "20490101000000Z");
    if (!X509_set_pubkey(x, k)) mc_fail("cert-key", "the key does not go into a certificate");
    if (!X509_sign(x, k, NULL) && !X509_sign(x, k, EVP_get_digestbynid(EVP_PKEY_base_id(k) == NID_id_GostR3410_2012_512 ? NID_id_GostR3411_2012_512 : EVP_PKEY_base_id(k) == NID_id_GostR3410_2012_256 ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_94))) { ERR_print_errors_fp(stderr); mc_fail("cert-sign", "the certificate cannot be signed"); }
    return x;
}
static void keys(int i)
{
    if (KY[i].k) return;
    rng_reset(RNG_STREAM);
    KY[i].k = pk_new(&PK[i], D1); KY[i].k2 = pk_new(&PK[i], D2);
    KY[i].c = mkcert(KY[i].k, 1000 + i); KY[i].c2 = mkcert(KY[i].k2, 2000 + i);
}
static int is_dh(int i) { return PK[i].type == NID_id_GostR3410_2001DH; }
static int nbits(void) { return mc_thorough ? 8 : 1; }
/* ---------------------------------------------------------------- the same message with one element changed, the lengths in order */
enum { M_DELETE, M_NULL, M_EMPTY, M_TWICE, M_SHORT, M_LONG, M_INT, M_OCT, M_NEXT, M_NR };
static const char *const MN[] = { "left out", "replaced with NULL", "emptied", "doubled", "shortened", "lengthened", "replaced with an integer", "replaced with an octet string", "swapped with the next" };
static int der_whole(const u8 *p, size_t n)
{
    der d = { p, p + n }; int k = 0;
    while (d.p < d.e) { der x; if (!der_get(&d, d.p[0], &x)) return 0; k++; }
    return k;
}
static size_t mut(const u8 *p, size_t n, int target, int kind, int *ctr, u8 *out)
{
    der d = { p, p + n }; size_t o = 0;
    while (d.p < d.e) {
        const u8 *st = d.p; int tag = *st; der x;
        if (!der_get(&d, tag, &x)) mc_internal("mut");
        size_t l = x.e - x.p, full = d.p - st; int me = (*ctr)++ == target, skip = tag == 3 ? 1 : 0;
        if (me && kind == M_DELETE) { *ctr += 100000; continue; }
        if (me && kind == M_NULL) { out[o++] = 5; out[o++] = 0; continue; }
        if (me && kind == M_INT) { memcpy(out + o, "\2\1\1", 3); o += 3; continue; }
        if (me && kind == M_OCT) { memcpy(out + o, "\4\2\1\2", 4); o += 4; continue; }
        if (me && kind == M_EMPTY) { out[o++] = tag; out[o++] = 0; continue; }
        if (me && kind == M_TWICE) { memcpy(out + o, st, full); o += full; memcpy(out + o, st, full); o += full; continue; }
        if (me && kind == M_NEXT && d.p < d.e) { const u8 *nx = d.p; der y; der_get(&d, *nx, &y); memcpy(out + o, nx, d.p - nx); o += d.p - nx; memcpy(out + o, st, full); o += full; continue; }
        if (me && kind == M_SHORT && l) { o += der_put(out + o, tag, x.p, l - 1); continue; }
        if (me && kind == M_LONG) { u8 *t = malloc(l + 1); memcpy(t, x.p, l); t[l] = 0x55; o += der_put(out + o, tag, t, l + 1); free(t); continue; }
        if ((tag & 0x20) || ((tag == 4 || tag == 3) && l > 4u + skip && x.p[skip] == 0x30 && der_whole(x.p + skip, l - skip))) {
            u8 *t = malloc(2 * l + 64); if (skip) t[0] = x.p[0];
            size_t k = mut(x.p + skip, l - skip, target, kind, ctr, t + skip);
            o += der_put(out + o, tag, t, k + skip); free(t);
        } else { memcpy(out + o, st, full); o += full; }
    }
    return o;
}
static int mut_nodes(const u8 *b, size_t n) { int c = 0; u8 *t = malloc(2 * n + 64); mut(b, n, -1, 0, &c, t); free(t); return c; }
static size_t mutate(const u8 *b, size_t n, int t, int kind, u8 **out)
{
    int c = 0; *out = malloc(2 * n + 64); size_t k = mut(b, n, t, kind, &c, *out);
    mc_op("element %d %s", t, MN[kind]);
    return k;
}
#define EACH_MUT(b, n, x, xn) for (int t_ = 0, N_ = mut_nodes(b, n); t_ < N_; t_++) for (int k_ = 0; k_ < M_NR; k_++) for (u8 *x = NULL, *g_ = (u8 *)1; g_; g_ = NULL, free(x), mc_reset_trace(), mc_n_execs++, mc_trans(1)) for (size_t xn = mutate(b, n, t_, k_, &x); xn != (size_t)-1; xn = -1) if (xn != (size_t)(n) || memcmp(x, b, n))
/* ---------------------------------------------------------------- certificates and the like */
enum { O_CERT, O_REQ, O_CRL, O_SPKAC, O_NR };
static const char *const ON[] = { "certificate", "request", "CRL", "SPKAC" };
static size_t mk_obj(int i, int o, u8 **out)
{
    int l = -1; *out = NULL;
    const EVP_MD *md = EVP_get_digestbynid(PK[i].type == NID_id_GostR3410_2012_512 ? NID_id_GostR3411_2012_512 : PK[i].type == NID_id_GostR3410_2012_256 ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_94);
    rng_reset(RNG_STREAM);
    X509_NAME *n = X509_get_subject_name(KY[i].c);
    switch (o) {
    case O_CERT: l = i2d_X509(KY[i].c, out); break;
    case O_REQ: { X509_REQ *r = X509_REQ_new(); X509_REQ_set_version(r, 0); X509_REQ_set_subject_name(r, n); X509_REQ_set_pubkey(r, KY[i].k); if (X509_REQ_sign(r, KY[i].k, md) > 0) l = i2d_X509_REQ(r, out); X509_REQ_free(r); break; }
    case O_CRL: { X509_CRL *r = X509_CRL_new(); X509_CRL_set_version(r, 1); X509_CRL_set_issuer_name(r, n); ASN1_TIME *t = ASN1_TIME_new(); ASN1_TIME_set_string(t, "20200101000000Z"); X509_CRL_set1_lastUpdate(r, t); X509_CRL_set1_nextUpdate(r, t);
        X509_REVOKED *v = X509_REVOKED_new(); ASN1_INTEGER *s = ASN1_INTEGER_new(); ASN1_INTEGER_set(s, 77); X509_REVOKED_set_serialNumber(v, s); X509_REVOKED_set_revocationDate(v, t); X509_CRL_add0_revoked(r, v); ASN1_INTEGER_free(s); ASN1_TIME_free(t);
        if (X509_CRL_sign(r, KY[i].k, md) > 0) l = i2d_X509_CRL(r, out); X509_CRL_free(r); break; }
    case O_SPKAC: { NETSCAPE_SPKI *r = NETSCAPE_SPKI_new(); ASN1_STRING_set(r->spkac->challenge, "challenge", 9); NETSCAPE_SPKI_set_pubkey(r, KY[i].k); if (NETSCAPE_SPKI_sign(r, KY[i].k, md) > 0) l = i2d_NETSCAPE_SPKI(r, out); NETSCAPE_SPKI_free(r); break; }
    }
    if (l <= 0) { ERR_print_errors_fp(stderr); mc_fail(mc_fmt("sign:%s:%s", ON[o], pk_name(&PK[i])), "a %s cannot be signed", ON[o]); }
    return l;
}
/* -1: does not decode; tbs: what was signed, encoded afresh */
static int vf_obj(int o, const u8 *b, size_t n, EVP_PKEY *k, u8 **tbs, int *tl)
{
    u8 *x = malloc(n); const u8 *q = x; int r = -1; memcpy(x, b, n); *tbs = NULL; *tl = 0;
    switch (o) {
    case O_CERT: { X509 *c = d2i_X509(NULL, &q, n); if (c) { r = X509_verify(c, k) == 1; *tl = i2d_re_X509_tbs(c, tbs); } X509_free(c); break; }
    case O_REQ: { X509_REQ *c = d2i_X509_REQ(NULL, &q, n); if (c) { r = X509_REQ_verify(c, k) == 1; *tl = i2d_re_X509_REQ_tbs(c, tbs); } X509_REQ_free(c); break; }
    case O_CRL: { X509_CRL *c = d2i_X509_CRL(NULL, &q, n); if (c) { r = X509_CRL_verify(c, k) == 1; *tl = i2d_re_X509_CRL_tbs(c, tbs); } X509_CRL_free(c); break; }
    case O_SPKAC: { NETSCAPE_SPKI *c = d2i_NETSCAPE_SPKI(NULL, &q, n); if (c) { r = NETSCAPE_SPKI_verify(c, k) == 1; *tl = i2d_NETSCAPE_SPKAC(c->spkac, tbs); } NETSCAPE_SPKI_free(c); break; }
    }
    free(x); err();
    return r;
}
static int same_curve(const ecurve *a, const ecurve *b) { return !BN_cmp(a->p, b->p) && !BN_cmp(a->a, b->a) && !BN_cmp(a->b, b->b) && !BN_cmp(a->q, b->q) && !BN_cmp(a->x, b->x) && !BN_cmp(a->y, b->y); }
static void objects(int i, int o)
{
    u8 *b, *t0, *t; int tl0, tl; size_t n = mk_obj(i, o, &b);
    mc_op("%s", ON[o]);
    if (vf_obj(o, b, n, KY[i].k, &t0, &tl0) != 1) mc_fail(mc_fmt("verify:%s:%s", ON[o], pk_name(&PK[i])), "the %s does not verify with its key", ON[o]);
    for (int j = 0; j < NPK; j++) {     /* every other key */
        keys(j);
        for (int w = 0; w < 2; w++) if (j != i || w) {
            if (!w && same_curve(PK[j].c, PK[i].c)) continue;      /* the same point under another name */
            if (vf_obj(o, b, n, w ? KY[j].k2 : KY[j].k, &t, &tl) == 1) mc_fail(mc_fmt("wrong-key:%s:%s", ON[o], pk_name(&PK[i])), "the %s verifies with the key of %s", ON[o], pk_name(&PK[j]));
            OPENSSL_free(t); mc_trans(1);
        }
    }
    for (size_t p = 0; p < n; p++) for (int z = 0; z < nbits(); z++) {
        b[p] ^= 1 << (p + z) % 8;
        mc_op("bit %d of byte %zu of %zu altered", (int)(p + z) % 8, p, n);
        int r = vf_obj(o, b, n, KY[i].k, &t, &tl);
        if (r == 1 && (tl != tl0 || memcmp(t, t0, tl))) mc_fail(mc_fmt("altered:%s:%s", ON[o], pk_name(&PK[i])), "an altered %s verifies", ON[o]);
        b[p] ^= 1 << (p + z) % 8;
        OPENSSL_free(t); mc_reset_trace(); mc_trans(1); mc_n_execs++;
        mc_count(r < 0 ? "undecodable" : r ? "same_content" : "rejected", 1);
    }
    { /* another content, and something else changed */
        int q = 0; der d = { b, b + n }, in, tb; if (der_get(&d, 0x30, &in) && der_get(&in, 0x30, &tb)) q = tb.e - b;
        if (o == O_SPKAC || o == O_REQ || o == O_CRL || o == O_CERT) {
            const char *w = o == O_SPKAC ? "challenge" : o == O_CRL ? "200101000000Z" : "test"; size_t wl = strlen(w); u8 *f = memmem(b, q, w, wl);
            if (!f) mc_internal("content of the %s", ON[o]);
            f[wl - 2] ^= 1;
            EACH_MUT(b, n, x, xn) { if (vf_obj(o, x, xn, KY[i].k, &t, &tl) == 1 && (tl != tl0 || memcmp(t, t0, tl))) mc_fail(mc_fmt("forged:%s:%s", ON[o], pk_name(&PK[i])), "an altered %s verifies", ON[o]); OPENSSL_free(t); }
            f[wl - 2] ^= 1;
        }
    }
    EACH_MUT(b, n, x, xn) {
        int r = vf_obj(o, x, xn, KY[i].k, &t, &tl);
        if (r == 1 && (tl != tl0 || memcmp(t, t0, tl))) mc_fail(mc_fmt("altered:%s:%s", ON[o], pk_name(&PK[i])), "an altered %s verifies", ON[o]);
        OPENSSL_free(t); mc_count(r < 0 ? "undecodable" : r ? "same_content" : "rejected", 1);
    }
    OPENSSL_free(b); OPENSSL_free(t0);
}
/* ---------------------------------------------------------------- signed messages */
enum { S_PLAIN, S_NOATTR, S_DETACHED, S_DETNOATTR, S_KEYID, S_NOCERTS, S_TWO, S_NR };
static const char *const SNM[] = { "opaque", "opaque without attributes", "detached", "detached without attributes", "with a key identifier", "without certificates", "by two signers" };
static int sdet(int how) { return how == S_DETACHED || how == S_DETNOATTR; }
static size_t cms_make(int i, int how, const u8 *m, size_t n, u8 **out)
{
    unsigned f = CMS_BINARY | CMS_NOSMIMECAP; int l = -1;
    if (how == S_NOATTR || how == S_DETNOATTR) f |= CMS_NOATTR;
    if (sdet(how)) f |= CMS_DETACHED;
    if (how == S_KEYID) f |= CMS_USE_KEYID;
    if (how == S_NOCERTS) f |= CMS_NOCERTS;
    BIO *in = BIO_new_mem_buf(m, n);
    rng_reset(RNG_STREAM);
    CMS_ContentInfo *c;
    if (how == S_TWO) {
        int j = (i + 1) % NPK; while (is_dh(j)) j = (j + 1) % NPK; keys(j);
        c = CMS_sign(NULL, NULL, NULL, in, f | CMS_PARTIAL);
        if (!c || !CMS_add1_signer(c, KY[i].c, KY[i].k, NULL, f) || !CMS_add1_signer(c, KY[j].c, KY[j].k, NULL, f) || CMS_final(c, in, NULL, f) != 1) c = NULL;
    } else if (how == S_KEYID) {
        X509 *x = X509_dup(KY[i].c); X509_EXTENSION *e = X509V3_EXT_conf_nid(NULL, NULL, NID_subject_key_identifier, "0102030405060708"); X509_add_ext(x, e, -1); X509_EXTENSION_free(e); X509_sign(x, KY[i].k, EVP_get_digestbynid(PK[i].type == NID_id_GostR3410_2012_512 ? NID_id_GostR3411_2012_512 : PK[i].type == NID_id_GostR3410_2012_256 ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_94));
        c = CMS_sign(x, KY[i].k, NULL, in, f); X509_free(x);
    } else c = CMS_sign(KY[i].c, KY[i].k, NULL, in, f);
    *out = NULL;
    if (c) l = i2d_CMS_ContentInfo(c, out);
    CMS_ContentInfo_free(c); BIO_free(in);
    if (l <= 0) { ERR_print_errors_fp(stderr); mc_fail(mc_fmt("cms-sign:%s:%s", SNM[how], pk_name(&PK[i])), "a message of %zu bytes cannot be signed %s", n, SNM[how]); }
    return l;
}
/* -1 undecodable, 0 rejected, 1 verified; the content and the signed attributes, if any */
static int cms_vf(const u8 *b, size_t n, STACK_OF(X509) *certs, const u8 *det, size_t dn, u8 *o, size_t *on, u8 *at, size_t *an)
{
    u8 *x = malloc(n); const u8 *q = x; int r = -1; memcpy(x, b, n);
    CMS_ContentInfo *c = d2i_CMS_ContentInfo(NULL, &q, n);
    *on = *an = 0;
    if (c) {
        BIO *out = BIO_new(BIO_s_mem()), *d = det ? BIO_new_mem_buf(det, dn) : NULL;
        r = CMS_verify(c, certs, NULL, d, out, CMS_BINARY | CMS_NO_SIGNER_CERT_VERIFY | CMS_NOINTERN | CMS_NOCRL) == 1;
        int g = BIO_read(out, o, 1200); if (g > 0) *on = g;
        if (r) {
            STACK_OF(CMS_SignerInfo) *s = CMS_get0_SignerInfos(c);
            for (int i = 0; i < sk_CMS_SignerInfo_num(s); i++) { CMS_SignerInfo *si = sk_CMS_SignerInfo_value(s, i);
                for (int j = 0; j < CMS_signed_get_attr_count(si); j++) { u8 *p = at + *an; int l = i2d_X509_ATTRIBUTE(CMS_signed_get_attr(si, j), NULL); if (*an + l < 3000) { i2d_X509_ATTRIBUTE(CMS_signed_get_attr(si, j), &p); *an += l; } } }
        }
        BIO_free(out); BIO_free(d);
    }
    CMS_ContentInfo_free(c); free(x); err();
    return r;
}
/* once per signer info, which may occur twice */
static int rep(const u8 *a, size_t n, const u8 *b, size_t m)
{
    if (!m || !n) return n == m;
    for (; n >= m && !memcmp(a, b, m); a += m, n -= m) ;
    return !n;
}
static void cms_signed(int i, int how, int deep)
{
    static const size_t L[] = { 0, 1, 8, 31, 32, 33, 63, 64, 65, 1000 };
    u8 *b, o[1300], at0[3100], at[3100]; size_t on, an0, an;
    STACK_OF(X509) *cs = sk_X509_new_null(), *ws = sk_X509_new_null();
    for (int j = 0; j < NPK; j++) if (j == i || how == S_TWO) { keys(j); sk_X509_push(cs, KY[j].c); }
    if (how == S_KEYID) { X509 *x = X509_dup(KY[i].c); X509_EXTENSION *e = X509V3_EXT_conf_nid(NULL, NULL, NID_subject_key_identifier, "0102030405060708"); X509_add_ext(x, e, -1); X509_EXTENSION_free(e); sk_X509_push(cs, x); }
    X509 *imp = X509_dup(KY[i].c); X509_set_pubkey(imp, KY[i].k2); sk_X509_push(ws, imp);    /* the same name and number with another key */
    for (int li = 0; li < 10; li++) {
        size_t ml = L[li], n = cms_make(i, how, MSG, ml, &b);
        mc_reset_trace(); mc_op("%s, %zu bytes", SNM[how], ml);
        const u8 *det = sdet(how) ? MSG : NULL;
        if (cms_vf(b, n, cs, det, ml, o, &on, at0, &an0) != 1 || on != ml || memcmp(o, MSG, ml)) mc_fail(mc_fmt("cms-verify:%s:%s", SNM[how], pk_name(&PK[i])), "a message of %zu bytes signed %s does not verify", ml, SNM[how]);
        if (how != S_TWO && how != S_KEYID && cms_vf(b, n, ws, det, ml, o, &on, at, &an) == 1) mc_fail(mc_fmt("cms-other-key:%s:%s", SNM[how], pk_name(&PK[i])), "the message verifies with another key");
        if (sdet(how)) for (size_t p = 0; p < ml; p += ml > 100 ? 37 : 1) {
            u8 m2[1100]; memcpy(m2, MSG, ml); m2[p] ^= 1 << p % 8;
            if (cms_vf(b, n, cs, m2, ml, o, &on, at, &an) == 1) mc_fail(mc_fmt("cms-content:%s:%s", SNM[how], pk_name(&PK[i])), "byte %zu of the content altered: verifies", p);
            mc_n_execs++;
        }
        if (sdet(how) && ml && (cms_vf(b, n, cs, MSG, ml - 1, o, &on, at, &an) == 1 || cms_vf(b, n, cs, MSG, ml + 1, o, &on, at, &an) == 1)) mc_fail(mc_fmt("cms-content:%s:%s", SNM[how], pk_name(&PK[i])), "a shorter or longer content verifies");
        if (deep && ml == 33) for (size_t p = 0; p < n; p++) for (int z = 0; z < nbits(); z++) {
            b[p] ^= 1 << (p + z) % 8;
            mc_op("bit %d of byte %zu of %zu altered", (int)(p + z) % 8, p, n);
            int r = cms_vf(b, n, cs, det, ml, o, &on, at, &an);
            if (r == 1 && (on != ml || memcmp(o, MSG, ml))) mc_fail(mc_fmt("cms-altered:%s:%s", SNM[how], pk_name(&PK[i])), "another content is accepted");
            if (r == 1 && !rep(at, an, at0, an0)) mc_fail(mc_fmt("cms-altered:%s:%s", SNM[how], pk_name(&PK[i])), "other signed attributes are accepted");
            b[p] ^= 1 << (p + z) % 8;
            mc_reset_trace(); mc_n_execs++; mc_trans(1);
            mc_count(r < 0 ? "undecodable" : r ? "same_content" : "rejected", 1);
        }
        if (deep && ml == 33) {
            u8 m2[33], *f = det ? m2 : memmem(b, n, MSG, ml); memcpy(m2, MSG, ml); if (!f) mc_internal("content");
            f[5] ^= 1;
            EACH_MUT(b, n, x, xn) if (cms_vf(x, xn, cs, det ? m2 : NULL, ml, o, &on, at, &an) == 1 && on == ml && memcmp(o, MSG, ml)) mc_fail(mc_fmt("cms-forged:%s:%s", SNM[how], pk_name(&PK[i])), "another content is accepted");
            f[5] ^= 1;
        }
        if (deep && ml == 33) EACH_MUT(b, n, x, xn) {
            int r = cms_vf(x, xn, cs, det, ml, o, &on, at, &an);
            if (r == 1 && (on != ml || memcmp(o, MSG, ml))) mc_fail(mc_fmt("cms-altered:%s:%s", SNM[how], pk_name(&PK[i])), "another content is accepted");
            if (r == 1 && !rep(at, an, at0, an0)) mc_fail(mc_fmt("cms-altered:%s:%s", SNM[how], pk_name(&PK[i])), "other signed attributes are accepted");
            mc_count(r < 0 ? "undecodable" : r ? "same_content" : "rejected", 1);
        }
        OPENSSL_free(b); mc_trans(2);
    }
    X509_free(imp); sk_X509_free(ws); if (how == S_KEYID) X509_free(sk_X509_pop(cs)); sk_X509_free(cs);
}
static int p7_vf(const u8 *b, size_t n, STACK_OF(X509) *certs, const u8 *det, size_t dn, u8 *o, size_t *on)
{
    u8 *x = malloc(n); const u8 *q = x; int r = -1; memcpy(x, b, n);
    PKCS7 *c = d2i_PKCS7(NULL, &q, n);
    *on = 0;
    if (c) {
        BIO *out = BIO_new(BIO_s_mem()), *d = det ? BIO_new_mem_buf(det, dn) : NULL;
        r = PKCS7_verify(c, certs, NULL, d, out, PKCS7_BINARY | PKCS7_NOVERIFY | PKCS7_NOINTERN) == 1;
        int g = BIO_read(out, o, 1200); if (g > 0) *on = g;
        BIO_free(out); BIO_free(d);
    }
    PKCS7_free(c); free(x); err();
    return r;
}
static void p7_signed(int i, int how, int deep)
{
    static const size_t L[] = { 1, 31, 32, 33, 64, 1000 };
    u8 *b = NULL, o[1300]; size_t on;
    STACK_OF(X509) *cs = sk_X509_new_null(), *ws = sk_X509_new_null();
    sk_X509_push(cs, KY[i].c);
    X509 *imp = X509_dup(KY[i].c); X509_set_pubkey(imp, KY[i].k2); sk_X509_push(ws, imp);
    for (int li = 0; li < 6; li++) {
        size_t ml = L[li]; int f = PKCS7_BINARY | PKCS7_NOSMIMECAP | (how & 1 ? PKCS7_NOATTR : 0) | (how & 2 ? PKCS7_DETACHED : 0);
        BIO *in = BIO_new_mem_buf(MSG, ml); rng_reset(RNG_STREAM);
        PKCS7 *c = PKCS7_sign(KY[i].c, KY[i].k, NULL, in, f); b = NULL;
        int n = c ? i2d_PKCS7(c, &b) : -1; PKCS7_free(c); BIO_free(in);
        const u8 *det = how & 2 ? MSG : NULL;
        mc_reset_trace(); mc_op("PKCS#7 %s, %zu bytes", SNM[how], ml);
        if (n <= 0) { ERR_print_errors_fp(stderr); mc_fail(mc_fmt("p7-sign:%s", pk_name(&PK[i])), "cannot be signed"); }
        if (p7_vf(b, n, cs, det, ml, o, &on) != 1 || on != ml || memcmp(o, MSG, ml)) mc_fail(mc_fmt("p7-verify:%s", pk_name(&PK[i])), "does not verify");
        if (p7_vf(b, n, ws, det, ml, o, &on) == 1) mc_fail(mc_fmt("p7-other-key:%s", pk_name(&PK[i])), "verifies with another key");
        if (deep && ml == 33) for (int p = 0; p < n; p++) for (int z = 0; z < nbits(); z++) {
            b[p] ^= 1 << (p + z) % 8;
            mc_op("bit %d of byte %d of %d altered", (p + z) % 8, p, n);
            int r = p7_vf(b, n, cs, det, ml, o, &on);
            if (r == 1 && (on != ml || memcmp(o, MSG, ml))) mc_fail(mc_fmt("p7-altered:%s", pk_name(&PK[i])), "another content is accepted");
            b[p] ^= 1 << (p + z) % 8;
            mc_reset_trace(); mc_n_execs++; mc_trans(1);
        }
        if (deep && ml == 33) {
            u8 m2[33], *f = det ? m2 : memmem(b, n, MSG, ml); memcpy(m2, MSG, ml); if (!f) mc_internal("content");
            f[5] ^= 1;
            EACH_MUT(b, n, x, xn) if (p7_vf(x, xn, cs, det ? m2 : NULL, ml, o, &on) == 1 && on == ml && memcmp(o, MSG, ml)) mc_fail(mc_fmt("p7-forged:%s:%s", SNM[how], pk_name(&PK[i])), "another content is accepted");
            f[5] ^= 1;
        }
        if (deep && ml == 33) EACH_MUT(b, n, x, xn) {
            int r = p7_vf(x, xn, cs, det, ml, o, &on);
            if (r == 1 && (on != ml || memcmp(o, MSG, ml))) mc_fail(mc_fmt("p7-altered:%s", pk_name(&PK[i])), "another content is accepted");
        }
        OPENSSL_free(b); mc_trans(2);
    }
    X509_free(imp); sk_X509_free(ws); sk_X509_free(cs);
}
/* ---------------------------------------------------------------- enveloped messages */
static const char *const CC[] = { "gost89", "gost89-cnt", "gost89-cnt-12", "gost89-cbc", "magma-cbc", "magma-ctr", "magma-ctr-acpkm", "magma-ctr-acpkm-omac", "kuznyechik-ctr-acpkm", "kuznyechik-ctr-acpkm-omac", "kuznyechik-cbc", "kuznyechik-cfb", "kuznyechik-ofb", "kuznyechik-ctr" };
enum { NCC = sizeof CC / sizeof *CC };
static int maced(int c) { return !!strstr(CC[c], "-omac"); }
/* content ciphers with a registered identifier and parameters of their own */
static int in_cms(int c)
{
    const EVP_CIPHER *e = ENGINE_get_cipher(E, OBJ_sn2nid(CC[c]));
    return e && OBJ_length(OBJ_nid2obj(EVP_CIPHER_nid(e))) > 0;
}
static const EVP_CIPHER *cc(int c) { return ENGINE_get_cipher(E, OBJ_sn2nid(CC[c])); }
enum { W_DEF, W_MAGMA, W_KUZ };
static size_t env_make(int i, int c, int w, size_t n, u8 **out)
{
    BIO *in = BIO_new_mem_buf(MSG, n); int l = -1; unsigned f = CMS_BINARY;
    rng_reset(RNG_STREAM);
    CMS_ContentInfo *m = CMS_encrypt(NULL, in, cc(c), f | CMS_PARTIAL);
    CMS_RecipientInfo *ri = m ? CMS_add1_recipient_cert(m, KY[i].c, CMS_KEY_PARAM) : NULL;
    *out = NULL;
    if (ri && (w == W_DEF || EVP_PKEY_CTX_ctrl(CMS_RecipientInfo_get0_pkey_ctx(ri), -1, -1, EVP_PKEY_CTRL_CIPHER, w == W_MAGMA ? NID_magma_ctr : NID_kuznyechik_ctr, NULL) > 0) && CMS_final(m, in, NULL, f) == 1) l = i2d_CMS_ContentInfo(m, out);
    CMS_ContentInfo_free(m); BIO_free(in);
    if (l <= 0) ERR_print_errors_fp(stderr);
    return l > 0 ? l : 0;
}
/* -1 undecodable, 0 refused, 1 decrypted; which: 0 the recipient, 1 another key under the same name */
static X509 *PEER;
static int env_open(const u8 *b, size_t n, EVP_PKEY *k, X509 *cert, u8 *o, size_t *on)
{
    u8 *x = malloc(n); const u8 *q = x; int r = -1; memcpy(x, b, n);
    CMS_ContentInfo *c = d2i_CMS_ContentInfo(NULL, &q, n);
    *on = 0;
    if (c) {
        BIO *out = BIO_new(BIO_s_mem());
        r = PEER ? CMS_decrypt_set1_pkey_and_peer(c, k, cert, PEER) == 1 && CMS_decrypt(c, NULL, NULL, NULL, out, CMS_BINARY | CMS_DEBUG_DECRYPT) == 1
            : CMS_decrypt(c, k, cert, NULL, out, CMS_BINARY | CMS_DEBUG_DECRYPT) == 1;
        int g = BIO_read(out, o, 1200); if (g > 0) *on = g;
        BIO_free(out);
    }
    CMS_ContentInfo_free(c); free(x); err();
    return r;
}
/* where the recipient infos and the ciphertext lie */
static void env_parts(const u8 *b, size_t n, size_t *ri, size_t *rie, size_t *ct, size_t *cte)
{
    der d = { b, b + n }, s, a, e, t;
    if (!der_get(&d, 0x30, &s) || !der_get(&s, 6, &t) || !der_get(&s, 0xa0, &a) || !der_get(&a, 0x30, &e) || !der_get(&e, 2, &t) || !der_get(&e, 0x31, &t)) mc_internal("envelope");
    *ri = t.p - b; *rie = t.e - b;
    der ec; if (!der_get(&e, 0x30, &ec) || !der_get(&ec, 6, &t) || !der_get(&ec, 0x30, &t) || !(der_get(&ec, 0x80, &t) || der_get(&ec, 0xa0, &t))) { *ct = *cte = 0; return; }
    *ct = t.p - b; *cte = t.e - b;
}
static void damage(const char *what, const char *name, u8 *b, size_t n, int mac, size_t ml, EVP_PKEY *k, X509 *cert)
{
    size_t ri, rie, ct, cte, on; u8 o[1300];
    env_parts(b, n, &ri, &rie, &ct, &cte);
    for (size_t p = 0; p < n; p++) for (int z = 0; z < nbits(); z++) {
        b[p] ^= 1 << (p + z) % 8;
        mc_op("bit %d of byte %zu of %zu altered", (int)(p + z) % 8, p, n);
        int r = env_open(b, n, k, cert, o, &on), same = r == 1 && on == ml && !memcmp(o, MSG, ml);
        if (r == 1 && !same && (mac || (p >= ri && p < rie))) mc_fail(mc_fmt("%s-altered:%s", what, name), "altered %s: decrypts to something else", p >= ri && p < rie ? "recipient information" : "content");
        if (same && p >= ct && p < cte) mc_fail(mc_fmt("%s-ignored:%s", what, name), "the ciphertext does not matter");
        b[p] ^= 1 << (p + z) % 8;
        mc_reset_trace(); mc_n_execs++; mc_trans(1);
        mc_count(r < 0 ? "undecodable" : r == 0 ? "refused" : same ? "same_content" : "other_content", 1);
    }
    if (mac) {      /* both the ciphertext and something else */
        b[ct] ^= 4;
        EACH_MUT(b, n, x, xn) if (env_open(x, xn, k, cert, o, &on) == 1 && on) mc_fail(mc_fmt("%s-forged:%s", what, name), "altered content is accepted with the element changed");
        b[ct] ^= 4;
    }
    EACH_MUT(b, n, x, xn) {
        int r = env_open(x, xn, k, cert, o, &on), same = r == 1 && on == ml && !memcmp(o, MSG, ml);
        if (r == 1 && !same && mac) mc_fail(mc_fmt("%s-altered:%s", what, name), "altered message: decrypts to something else");
        mc_count(r < 0 ? "undecodable" : r == 0 ? "refused" : same ? "same_content" : "other_content", 1);
    }
}
/* the recipient's algorithm identifier names the key's own parameters, or the wrap and the agreement */
static void env_ident(int i, int w, const char *name, const u8 *b, size_t n)
{
    const u8 *q = b; CMS_ContentInfo *c = d2i_CMS_ContentInfo(NULL, &q, n); X509_ALGOR *a = NULL; u8 want[300], *got = NULL; size_t wl = 0;
    STACK_OF(CMS_RecipientInfo) *r = c ? CMS_get0_RecipientInfos(c) : NULL;
    if (sk_CMS_RecipientInfo_num(r) != 1 || CMS_RecipientInfo_ktri_get0_algs(sk_CMS_RecipientInfo_value(r, 0), NULL, NULL, &a) != 1) mc_fail(mc_fmt("identifier:%s", name), "one recipient expected");
    int g = i2d_X509_ALGOR(a, &got), cp = strstr(PK[i].c->name, "2001") && !strstr(PK[i].c->name, "Test"), ok = 0;
    EC_POINT *Q = ec_mul(PK[i].c, D1, NULL);
    if (w == W_DEF) for (int dg = 0; dg < 2 - (PK[i].dgst == NID_id_GostR3411_94 || cp); dg++) {     /* the digest may be left out of the newer sets */
        u8 sp[700]; der d, o, al; size_t k = ref_spki(&PK[i], Q, dg ? 0 : pk_digest_oid(&PK[i]), sp);
        d.p = sp; d.e = sp + k; if (!der_get(&d, 0x30, &o)) mc_internal("spki");
        const u8 *st = o.p; der_get(&o, 0x30, &al); wl = al.e - st; memcpy(want, st, wl);
        ok |= g == (int)wl && !memcmp(got, want, wl);
    } else {
        u8 t[100]; size_t k = der_oid(t, PK[i].type == NID_id_GostR3410_2012_512 ? NID_id_tc26_agreement_gost_3410_2012_512 : NID_id_tc26_agreement_gost_3410_2012_256);
        k = der_put(t, 0x30, t, k); wl = der_oid(want, w == W_MAGMA ? NID_magma_kexp15 : NID_kuznyechik_kexp15); memcpy(want + wl, t, k); wl = der_put(want, 0x30, want, wl + k);
        ok = g == (int)wl && !memcmp(got, want, wl);
    }
    EC_POINT_free(Q);
    if (!ok) mc_fail(mc_fmt("identifier:%s", name), "the recipient's algorithm is %s, expected %s", mc_hex(got, g), mc_hex(want, wl));
    OPENSSL_free(got); CMS_ContentInfo_free(c); err();
}
static const size_t EL[] = { 0, 1, 7, 8, 9, 15, 16, 17, 40, 1000 };
static void enveloped(int i, int c, int w, int deep)
{
    u8 *b, o[1300]; size_t on; const char *nm = mc_fmt("%s:%s:%s", pk_name(&PK[i]), CC[c], w == W_DEF ? "" : w == W_MAGMA ? "magma-kexp15" : "kuznyechik-kexp15"); char name[200]; snprintf(name, sizeof name, "%s", nm);
    for (int li = 0; li < 10; li++) {
        size_t ml = EL[li];
        mc_reset_trace(); mc_op("envelope of %zu bytes", ml);
        size_t n = env_make(i, c, w, ml, &b);
        if (!n) mc_fail(mc_fmt("encrypt:%s", name), "a message of %zu bytes cannot be encrypted", ml);
        if (env_open(b, n, KY[i].k, KY[i].c, o, &on) != 1 || on != ml || memcmp(o, MSG, ml)) mc_fail(mc_fmt("decrypt:%s", name), "a message of %zu bytes does not come back", ml);
        env_ident(i, w, name, b, n);
        if (env_open(b, n, KY[i].k, NULL, o, &on) != 1 || on != ml || memcmp(o, MSG, ml)) mc_fail(mc_fmt("decrypt-by-key:%s", name), "a message of %zu bytes does not come back when only the key is given", ml);
        if (env_open(b, n, KY[i].k2, KY[i].c, o, &on) == 1) mc_fail(mc_fmt("wrong-key:%s", name), "another key decrypts");
        if (deep && ml == 17) damage("ktri", name, b, n, maced(c), ml, KY[i].k, KY[i].c);
        OPENSSL_free(b); mc_trans(4); mc_n_execs++;
    }
}
/* the plain call, without parameters for the recipient */
static void simple(int i)
{
    STACK_OF(X509) *r = sk_X509_new_null(); u8 *b = NULL, o[1300]; size_t on;
    BIO *in = BIO_new_mem_buf(MSG, 50);
    sk_X509_push(r, KY[i].c);
    rng_reset(RNG_STREAM);
    mc_op("CMS_encrypt to one recipient");
    CMS_ContentInfo *m = CMS_encrypt(r, in, cc(0), CMS_BINARY);
    if (!m) { ERR_print_errors_fp(stderr); mc_fail(mc_fmt("cms-encrypt:%s", pk_name(&PK[i])), "CMS_encrypt refuses the recipient"); }
    int n = i2d_CMS_ContentInfo(m, &b);
    if (env_open(b, n, KY[i].k, KY[i].c, o, &on) != 1 || on != 50 || memcmp(o, MSG, 50)) mc_fail(mc_fmt("cms-encrypt-back:%s", pk_name(&PK[i])), "the message does not come back");
    CMS_ContentInfo_free(m); OPENSSL_free(b); BIO_free(in); sk_X509_free(r);
    mc_n_execs++; mc_trans(2);
}
/* several recipients: each of them can read it */
static void several(int c)
{
    BIO *in = BIO_new_mem_buf(MSG, 100); u8 *b = NULL, o[1300]; size_t on; int n;
    mc_op("one message for every key");
    rng_reset(RNG_STREAM);
    CMS_ContentInfo *m = CMS_encrypt(NULL, in, cc(c), CMS_BINARY | CMS_PARTIAL);
    for (int i = 0; i < NPK; i++) { keys(i); if (!m || !CMS_add1_recipient_cert(m, KY[i].c, CMS_KEY_PARAM)) mc_fail(mc_fmt("several:%s", CC[c]), "recipient %s refused", pk_name(&PK[i])); }
    if (CMS_final(m, in, NULL, CMS_BINARY) != 1 || (n = i2d_CMS_ContentInfo(m, &b)) <= 0) { ERR_print_errors_fp(stderr); mc_fail(mc_fmt("several:%s", CC[c]), "cannot be encrypted"); }
    for (int i = 0; i < NPK; i++) {
        mc_op("read by %s", pk_name(&PK[i]));
        if (env_open(b, n, KY[i].k, KY[i].c, o, &on) != 1 || on != 100 || memcmp(o, MSG, 100)) mc_fail(mc_fmt("several:%s:%s", CC[c], pk_name(&PK[i])), "the recipient cannot read it");
        if (env_open(b, n, KY[i].k2, KY[i].c2, o, &on) == 1) mc_fail(mc_fmt("several:%s:%s", CC[c], pk_name(&PK[i])), "somebody else can read it");
        mc_n_execs++;
    }
    CMS_ContentInfo_free(m); OPENSSL_free(b); BIO_free(in);
}
/* PKCS#7 */
static void p7_env(int i, int c)
{
    for (int li = 1; li < 10; li++) {
        size_t ml = EL[li]; STACK_OF(X509) *r = sk_X509_new_null(); sk_X509_push(r, KY[i].c);
        BIO *in = BIO_new_mem_buf(MSG, ml), *out; u8 *b = NULL, o[1300]; const u8 *q; int n, g;
        mc_reset_trace(); mc_op("PKCS#7 envelope of %zu bytes", ml);
        rng_reset(RNG_STREAM);
        PKCS7 *p = PKCS7_encrypt(r, in, cc(c), PKCS7_BINARY);
        if (!p || (n = i2d_PKCS7(p, &b)) <= 0) { ERR_print_errors_fp(stderr); mc_fail(mc_fmt("p7-encrypt:%s:%s", pk_name(&PK[i]), CC[c]), "cannot be encrypted"); }
        PKCS7_free(p); q = b; p = d2i_PKCS7(NULL, &q, n);
        out = BIO_new(BIO_s_mem());
        if (PKCS7_decrypt(p, KY[i].k, KY[i].c, out, PKCS7_BINARY) != 1 || ((g = BIO_read(out, o, 1200)) != (int)ml) || memcmp(o, MSG, ml)) mc_fail(mc_fmt("p7-decrypt:%s:%s", pk_name(&PK[i]), CC[c]), "a message of %zu bytes does not come back", ml);
        BIO_free(out); out = BIO_new(BIO_s_mem());
        if (ml > 8 && PKCS7_decrypt(p, KY[i].k2, KY[i].c, out, PKCS7_BINARY) == 1 && BIO_read(out, o, 1200) == (int)ml && !memcmp(o, MSG, ml)) mc_fail(mc_fmt("p7-wrong-key:%s:%s", pk_name(&PK[i]), CC[c]), "another key decrypts");
        BIO_free(out); PKCS7_free(p); OPENSSL_free(b); BIO_free(in); sk_X509_free(r); err();
        mc_n_execs++; mc_trans(3);
    }
}
/* key agreement: the messages are made by the reference */
static size_t seq(u8 *o, int tag, size_t n) { return der_put(o, tag, o, n); }
/* PEER: the originator, when the message only names it */
static size_t kari_make(int i, int kuz, int mac, size_t ml, int iss, u8 *o)
{
    const pkset *s = &PK[i]; u8 kek[64], cek[32], ukm[32], wr[64], t[4000], body[4000]; size_t n, m, k;
    int ci = (kuz ? 8 : 6) + mac; const pc *p = NULL; par v;
    for (int j = 0; j < NPC; j++) if (!strcmp(PC[j].sn, CC[ci])) p = &PC[j];
    fill(ukm, 32, 900 + ml); ukm[0] |= 1; fill(cek, 32, 901);
    BIGNUM *e = BN_new(); BN_set_word(e, 0x1234567); BN_lshift(e, e, 100); BN_add_word(e, 99);
    EC_POINT *R = ec_mul(s->c, D1, NULL), *Q = ec_mul(s->c, e, NULL);
    if (ref_keg(s, R, e, ukm, kek) != 1) mc_internal("keg");
    ref_kexp15(kuz ? BC_KUZ : BC_MAGMA, kek + 32, kek, ukm + 24, kuz ? 8 : 4, cek, 32, wr);
    /* recipient */
    n = 0; body[n++] = 2; body[n++] = 1; body[n++] = 3;
    if (iss) {
        static X509 *snd[32]; u8 *q = t;
        if (!snd[i]) { EVP_PKEY *k = pk_new(s, e); snd[i] = mkcert(k, 3000 + i); EVP_PKEY_free(k); }
        PEER = snd[i];
        m = i2d_X509_NAME(X509_get_issuer_name(PEER), &q); m += i2d_ASN1_INTEGER(X509_get_serialNumber(PEER), &q); m = seq(t, 0x30, m); m = seq(t, 0xa0, m);
    } else { PEER = NULL; m = ref_spki(s, Q, 0, t); t[0] = 0xa1; m = seq(t, 0xa0, m); }
    memcpy(body + n, t, m); n += m;
    m = der_put(t, 4, ukm, 32); m = seq(t, 0xa1, m); memcpy(body + n, t, m); n += m;
    m = der_oid(t, s->type == NID_id_GostR3410_2012_512 ? NID_id_tc26_agreement_gost_3410_2012_512 : NID_id_tc26_agreement_gost_3410_2012_256); m = seq(t, 0x30, m);
    { u8 u[100]; k = der_oid(u, kuz ? NID_kuznyechik_kexp15 : NID_magma_kexp15); memcpy(u + k, t, m); m = seq(u, 0x30, k + m); memcpy(body + n, u, m); n += m; }
    { u8 u[400], *q = u; k = i2d_X509_NAME(X509_get_issuer_name(KY[i].c), &q); k += i2d_ASN1_INTEGER(X509_get_serialNumber(KY[i].c), &q); k = seq(u, 0x30, k);
      k += der_put(u + k, 4, wr, kuz ? 48 : 40); k = seq(u, 0x30, k); k = seq(u, 0x30, k); memcpy(body + n, u, k); n += k; }
    n = seq(body, 0xa1, n); n = seq(body, 0x31, n);
    { u8 x[4000], u[4000]; const adesc *a = &AD[2 + kuz]; u8 tag[16]; size_t xn = 0, an = 0; u8 at[100];
      x[xn++] = 2; x[xn++] = 1; x[xn++] = 2; memcpy(x + xn, body, n); xn += n;
      memset(&v, 0, sizeof v); fill(v.iv, 16, 902); fill(v.seed, 8, 903);
      k = der_oid(t, NID_pkcs7_data); m = der_oid(t + k, OBJ_sn2nid(CC[ci])); m += ref_par(p, &v, t + k + m); m = seq(t + k, 0x30, m); k += m;
      if (mac) ref_ctr_omac(a, cek, v.iv, v.seed, a->cms_section, MSG, ml, u, tag); else ref_msg(p, cek, &v, MSG, u, ml, 1);
      { u8 y[4000]; m = der_put(y, 0x80, u, ml); memcpy(u, t, k); memcpy(u + k, y, m); m = seq(u, 0x30, k + m); memcpy(x + xn, u, m); xn += m; }
      if (mac) { u8 mo[] = { 6, 9, 0x2a, 0x85, 3, 7, 1, 0, 6, 1, 1 }; m = der_put(u, 4, tag, a->taglen); m = seq(u, 0x31, m); memcpy(at, mo, 11); memcpy(at + 11, u, m); an = seq(at, 0x30, 11 + m); an = seq(at, 0xa1, an); memcpy(x + xn, at, an); xn += an; }
      xn = seq(x, 0x30, xn); xn = seq(x, 0xa0, xn);
      k = der_oid(o, NID_pkcs7_enveloped); memcpy(o + k, x, xn); n = seq(o, 0x30, k + xn); }
    BN_free(e); EC_POINT_free(R); EC_POINT_free(Q);
    return n;
}
static void kari(int i, int kuz, int mac, int iss, int deep)
{
    u8 b[4000], o[1300]; size_t on; char name[200]; snprintf(name, sizeof name, "%s:%s%s", pk_name(&PK[i]), kuz ? "kuznyechik" : "magma", mac ? "-omac" : "");
    for (int li = 1; li < 10; li++) {
        size_t ml = EL[li], n = kari_make(i, kuz, mac, ml, iss, b);
        mc_reset_trace(); mc_op("key agreement, %zu bytes%s", ml, iss ? ", the originator named" : "");
        if (env_open(b, n, KY[i].k, KY[i].c, o, &on) != 1 || on != ml || memcmp(o, MSG, ml)) { FILE *f = fopen("/tmp/kari.der", "w"); if (f && getenv("P23_DUMP")) fwrite(b, 1, n, f); if (f) fclose(f); mc_fail(mc_fmt("kari:%s", name), "a message of %zu bytes does not come back", ml); }
        if (env_open(b, n, KY[i].k2, KY[i].c, o, &on) == 1) mc_fail(mc_fmt("kari-wrong-key:%s", name), "another key decrypts");
        if (deep && ml == 17) damage("kari", name, b, n, mac, ml, KY[i].k, KY[i].c);
        PEER = NULL;
        mc_n_execs++; mc_trans(2);
    }
}
static size_t kari_memo(int i, int kuz, int mac, u8 *o)
{
    static struct { u8 b[1000]; size_t n; } M[32][2][2];
    if (!M[i][kuz][mac].n) { u8 t[4000]; size_t n = kari_make(i, kuz, mac, 40, 0, t); if (n > 1000) mc_internal("kari_memo"); memcpy(M[i][kuz][mac].b, t, n); M[i][kuz][mac].n = n; }
    memcpy(o, M[i][kuz][mac].b, M[i][kuz][mac].n);
    return M[i][kuz][mac].n;
}
/* messages of every kind made and opened in turn */
static int SQ[3];
static void in_turn(void *v)
{
    static const char *const TN[] = { "envelope", "envelope with magma-kexp15", "envelope with kuznyechik-kexp15", "key agreement with magma", "key agreement with kuznyechik", "plain envelope with a MAC" };
    mc_reset_trace();
    for (int d = 0; d < (mc_thorough ? 3 : 2); d++) {
        int t = mc_choose(6), i = SQ[mc_choose(3)]; u8 *b = NULL, kb[4000], o[1300]; size_t n, on;
        mc_op("%s to %s", TN[t], pk_name(&PK[i]));
        if (PK[i].type == NID_id_GostR3410_2001 && t > 0 && t < 5) t = 0;
        if (t == 3 || t == 4) n = kari_memo(i, t == 4, d & 1, b = kb);
        else n = env_make(i, t == 5 ? 9 : t == 0 ? 0 : 6, t == 5 ? 0 : t, 40, &b);
        if (!n) mc_fail("turn-make", "%s: cannot be made after the others", TN[t]);
        if (t < 3) env_ident(i, t, mc_fmt("turn:%s", TN[t]), b, n);
        if (env_open(b, n, KY[i].k, KY[i].c, o, &on) != 1 || on != 40 || memcmp(o, MSG, 40)) mc_fail(mc_fmt("turn:%s", TN[t]), "%s: does not come back after the others", TN[t]);
        if (b != kb) OPENSSL_free(b);
        mc_trans(2);
    }
    mc_n_execs++;
}
/* ---------------------------------------------------------------- symmetric CMS; the library does not carry a MAC along, so a cipher with one must not take the message */
static void encrypted_data(int c, int deep)
{
    u8 key[32], o[1300]; fill(key, 32, 77);
    for (int li = 1; li < 10; li++) {
        size_t ml = EL[li]; BIO *in = BIO_new_mem_buf(MSG, ml), *out; u8 *b = NULL; const u8 *q; int n, r;
        mc_reset_trace(); mc_op("encrypted data, %zu bytes", ml);
        rng_reset(RNG_STREAM);
        CMS_ContentInfo *m = CMS_EncryptedData_encrypt(in, cc(c), key, 32, CMS_BINARY);
        if (!m || (n = i2d_CMS_ContentInfo(m, &b)) <= 0) { ERR_print_errors_fp(stderr); mc_fail(mc_fmt("encdata:%s", CC[c]), "cannot be encrypted"); }
        CMS_ContentInfo_free(m); BIO_free(in);
        for (int p = -2; p < (deep && ml == 17 ? n : -1); p++) {
            u8 *x = malloc(n); memcpy(x, b, n); if (p >= 0) x[p] ^= 1 << p % 8;
            q = x; m = d2i_CMS_ContentInfo(NULL, &q, n); out = BIO_new(BIO_s_mem());
            key[3] ^= p == -1;
            mc_op(p == -2 ? "decrypt" : p == -1 ? "decrypt with another key" : "byte %d altered", p);
            r = m && CMS_EncryptedData_decrypt(m, key, 32, NULL, out, CMS_BINARY) == 1;
            key[3] ^= p == -1;
            int g = BIO_read(out, o, 1200), same = r && g == (int)ml && !memcmp(o, MSG, ml);
            if (p == -2 && (maced(c) ? r : !same)) mc_fail(mc_fmt("encdata:%s", CC[c]), "%zu bytes do not come back (%d, %d)", ml, r, g);
            if (p >= -1 && r && !same && maced(c)) mc_fail(mc_fmt("encdata-altered:%s", CC[c]), "other content accepted");
            if (p == -1 && same && ml > 8) mc_fail(mc_fmt("encdata-key:%s", CC[c]), "another key decrypts");
            CMS_ContentInfo_free(m); BIO_free(out); free(x); err();
            mc_n_execs++; mc_trans(1);
        }
        OPENSSL_free(b);
    }
}
static void digested(const char *md)
{
    for (size_t ml = 0; ml < 200; ml += ml < 66 ? 1 : 13) {
        BIO *in = BIO_new_mem_buf(MSG, ml), *out; u8 *b = NULL, o[1300]; const u8 *q; int n;
        mc_reset_trace(); mc_op("digested data, %zu bytes", ml);
        CMS_ContentInfo *m = CMS_digest_create(in, ENGINE_get_digest(E, OBJ_sn2nid(md)), CMS_BINARY);
        if (!m || (n = i2d_CMS_ContentInfo(m, &b)) <= 0) mc_fail(mc_fmt("digested:%s", md), "cannot be made");
        CMS_ContentInfo_free(m); BIO_free(in);
        for (int p = -1; p < (ml == 17 ? n : 0); p++) {
            u8 *x = malloc(n); memcpy(x, b, n); if (p >= 0) x[p] ^= 1 << p % 8;
            q = x; m = d2i_CMS_ContentInfo(NULL, &q, n); out = BIO_new(BIO_s_mem());
            int r = m && CMS_digest_verify(m, NULL, out, CMS_BINARY) == 1, g = BIO_read(out, o, 1200); if (g < 0) g = 0;
            int same = r && g == (int)ml && !memcmp(o, MSG, ml);
            if (p < 0 ? !same : r && !same) mc_fail(mc_fmt("digested:%s", md), p < 0 ? "does not verify" : "altered content verifies (byte %d)", p);
            CMS_ContentInfo_free(m); BIO_free(out); free(x); err(); mc_n_execs++; mc_trans(1);
        }
        OPENSSL_free(b);
    }
}
/* ---------------------------------------------------------------- PKCS#12 */
static void p12(int i, int deep)
{
    static const char *const PB[] = { "gost89", "gost89", NULL };
    for (int mdi = 0; mdi < 2; mdi++) for (int e = 0; e < 3; e++) {
        const EVP_MD *md = EVP_get_digestbynid(mdi ? NID_id_GostR3411_2012_512 : NID_id_GostR3411_2012_256); u8 *b = NULL; const u8 *q; int n;
        mc_reset_trace(); mc_op("PKCS#12, MAC %s, encryption %d", mdi ? "512" : "256", e);
        rng_reset(RNG_STREAM);
        PKCS12 *p = PKCS12_create("pass", "name", KY[i].k, KY[i].c, NULL, e == 2 ? -1 : OBJ_sn2nid(PB[e]), e == 0 ? OBJ_sn2nid(PB[e]) : -1, 20, -1, 0);
        if (!p || !PKCS12_set_mac(p, "pass", -1, (u8 *)"saltsalt", 8, 20, md)) { ERR_print_errors_fp(stderr); mc_fail(mc_fmt("p12-make:%s", pk_name(&PK[i])), "cannot be made"); }
        n = i2d_PKCS12(p, &b); PKCS12_free(p);
        for (int z = -2; z < (deep && e == 2 ? n : -1); z++) {
            u8 *x = malloc(n); memcpy(x, b, n); if (z >= 0) x[z] ^= 1 << z % 8;
            EVP_PKEY *k = NULL; X509 *c = NULL;
            q = x; p = d2i_PKCS12(NULL, &q, n);
            int r = p && PKCS12_verify_mac(p, z == -1 ? "Pass" : "pass", -1) == 1;
            mc_op(z == -2 ? "open" : z == -1 ? "wrong password" : "byte %d altered", z);
            if (z == -2 && (!r || PKCS12_parse(p, "pass", &k, &c, NULL) != 1 || !k || !c || EVP_PKEY_eq(k, KY[i].k) != 1 || X509_cmp(c, KY[i].c))) { ERR_print_errors_fp(stderr); mc_fail(mc_fmt("p12-open:%s", pk_name(&PK[i])), "the key and certificate do not come back"); }
            if (z == -1 && r) mc_fail(mc_fmt("p12-password:%s", pk_name(&PK[i])), "a wrong password is accepted");
            if (z >= 0 && r) {
                if (PKCS12_parse(p, "pass", &k, &c, NULL) == 1 && (!k || !c || EVP_PKEY_eq(k, KY[i].k) != 1 || X509_cmp(c, KY[i].c))) mc_fail(mc_fmt("p12-altered:%s", pk_name(&PK[i])), "altered contents are accepted");
            }
            EVP_PKEY_free(k); X509_free(c); PKCS12_free(p); free(x); err(); mc_n_execs++; mc_trans(1);
        }
        OPENSSL_free(b);
    }
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(1); eng_rand();
    pk_init(); cpar_init();
    fill(MSG, sizeof MSG, 3);
    D1 = bn_hex("1A2B3C4D5E6F708192A3B4C5D6E7F8091A2B3C4D5E6F708192A3B4C5D6E7F809"); D2 = bn_hex("0B0A090807060504030201000F0E0D0C0B0A090807060504030201000F0E0D0C");
    for (int i = 0; i < NPK; i++) if (!is_dh(i)) for (int o = 0; o < O_NR; o++) MC_CASE("%s of %s", ON[o], pk_name(&PK[i])) { keys(i); objects(i, o); }
    for (int i = 0; i < NPK; i++) if (!is_dh(i)) {
        int first = i == 0 || PK[i].type != PK[i - 1].type;
        for (int h = 0; h < S_NR; h++) MC_CASE("CMS signed by %s, %s", pk_name(&PK[i]), SNM[h]) { keys(i); cms_signed(i, h, (mc_thorough || first) && h != S_TWO); }
        for (int h = 0; h < 4; h++) MC_CASE("PKCS#7 signed by %s, %s", pk_name(&PK[i]), SNM[h]) { keys(i); p7_signed(i, h, mc_thorough || first); }
        MC_CASE("PKCS#12 of %s", pk_name(&PK[i])) { keys(i); p12(i, first); }
    }
    for (int i = 0; i < NPK; i++) {
        int first = i == 0 || PK[i].type != PK[i - 1].type, t12 = PK[i].type == NID_id_GostR3410_2012_256 || PK[i].type == NID_id_GostR3410_2012_512;
        MC_CASE("plain envelope to %s", pk_name(&PK[i])) { keys(i); simple(i); }
        for (int c = 0; c < NCC; c++) for (int w = 0; w < (t12 ? 3 : 1); w++)
            MC_CASE("envelope to %s with %s, wrap %d", pk_name(&PK[i]), CC[c], w) if (in_cms(c)) { keys(i); enveloped(i, c, w, mc_thorough || (first && (c == 0 || c == 6 + w || c == 9 || c == 7))); }
        for (int c = 0; c < NCC; c++) MC_CASE("PKCS#7 envelope to %s with %s", pk_name(&PK[i]), CC[c]) if (in_cms(c) && !maced(c)) { keys(i); p7_env(i, c); }
        if (t12) for (int kz = 0; kz < 2; kz++) for (int m = 0; m < 2; m++) for (int is = 0; is < 2; is++) MC_CASE("key agreement with %s, %s%s%s", pk_name(&PK[i]), kz ? "kuznyechik" : "magma", m ? "-omac" : "", is ? ", originator named" : "") { keys(i); kari(i, kz, m, is, mc_thorough || first); }
    }
    for (int i = 0; i < NPK; i++) if (PK[i].type == NID_id_GostR3410_2012_256 || PK[i].type == NID_id_GostR3410_2012_512) MC_CASE("messages in turn with %s", pk_name(&PK[i])) {
        SQ[0] = i; SQ[1] = (i + 1) % NPK; SQ[2] = 0;
        if (PK[SQ[1]].type != NID_id_GostR3410_2012_256 && PK[SQ[1]].type != NID_id_GostR3410_2012_512) SQ[1] = i - 1;
        for (int j = 0; j < 3; j++) { keys(SQ[j]); if (PK[SQ[j]].type != NID_id_GostR3410_2001) for (int z = 0; z < 4; z++) { u8 t[4000]; kari_memo(SQ[j], z & 1, z >> 1, t); } }
        mc_explore(in_turn, NULL);
    }
    for (int c = 0; c < NCC; c++) {
        MC_CASE("all recipients with %s", CC[c]) if (in_cms(c)) several(c);
        MC_CASE("encrypted data with %s", CC[c]) if (in_cms(c)) encrypted_data(c, 1);
    }
    MC_CASE("digested with md_gost94") digested("md_gost94");
    MC_CASE("digested with md_gost12_256") digested("md_gost12_256");
    MC_CASE("digested with md_gost12_512") digested("md_gost12_512");
    return mc_finish();
}
