/* P24: TLS over the GOST suites: both sides come up, everything on the wire is what the standards prescribe
 * (an independent passive reference follows every byte), and what is altered, repeated or reordered is refused. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "pk.h"
#include <openssl/ssl.h>
#include <openssl/x509v3.h>
enum { K_G89, K_NULL, K_MAGMA, K_KUZ };
static const struct suite { const char *n; int id, kind, h94, auth01only, k18; sbox_t *sb; } SU[] = {
    { "GOST2001-GOST89-GOST89", 0x81, K_G89, 1, 1, 0, &RSB_A },
    { "GOST2001-NULL-GOST94", 0x83, K_NULL, 1, 1, 0, NULL },
    { "LEGACY-GOST2012-GOST8912-GOST8912", 0xff85, K_G89, 0, 0, 0, &RSB_Z },
    { "IANA-GOST2012-GOST8912-GOST8912", 0xc102, K_G89, 0, 0, 0, &RSB_Z },
    { "GOST2012-NULL-GOST12", 0xff87, K_NULL, 0, 0, 0, NULL },
    { "GOST2012-MAGMA-MAGMAOMAC", 0xc101, K_MAGMA, 0, 0, 1, NULL },
    { "GOST2012-KUZNYECHIK-KUZNYECHIKOMAC", 0xc100, K_KUZ, 0, 0, 1, NULL },
};
#define NSU 7
static const int VER[] = { TLS1_2_VERSION, TLS1_1_VERSION, TLS1_VERSION };
static const char *const VN[] = { "TLS1.2", "TLS1.1", "TLS1.0" };
static BIGNUM *D1, *D2;
static struct { EVP_PKEY *k, *k2; X509 *c, *c2; EC_POINT *q2; } KY[32];
static X509 *mkcert(EVP_PKEY *k, long serial)
{
    X509 *x = X509_new(); X509_NAME *n = X509_NAME_new();
    X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (u8 *)mc_fmt("test %ld", serial), -1, -1, 0);
    X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), serial);
    X509_set_subject_name(x, n); X509_set_issuer_name(x, n); X509_NAME_free(n);
    ASN1_TIME_set_string(X509_getm_notBefore(x), "20200101000000Z"); ASN1_TIME_set_string(X509_getm_notAfter(x), "20490101000000Z");
    if (!X509_set_pubkey(x, k)) mc_fail("cert-key", "the key does not go into a certificate");
    int t = EVP_PKEY_base_id(k);
    if (!X509_sign(x, k, EVP_get_digestbynid(t == NID_id_GostR3410_2012_512 ? NID_id_GostR3411_2012_512 : t == NID_id_GostR3410_2012_256 ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_94))) mc_fail("cert-sign", "the certificate cannot be signed");
    return x;
}
static void keys(int i)
{
    if (KY[i].k) return;
    rng_reset(RNG_STREAM);
    EVP_PKEY *a = pk_new(&PK[i], D1), *b = pk_new(&PK[i], D2);
    KY[i].c = mkcert(a, 1000 + i); KY[i].c2 = mkcert(b, 2000 + i); KY[i].k2 = b; KY[i].q2 = ec_mul(PK[i].c, D2, NULL);
    KY[i].k = a;
}
/* ---------------------------------------------------------------- the reference */
static void sfail(const char *what, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
static char SNAME[80];
#include <stdarg.h>
static void sfail(const char *what, const char *fmt, ...)
{
    char b[300]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    mc_fail(mc_fmt("%s:%s", what, SNAME), "%s", b);
}
typedef struct { int on; u8 mk[32], key[32], iv[16]; uint64_t seq; u8 *ms, *cs; size_t msl, csl; } cst;
typedef struct {
    const struct suite *s; int srv, cli;      /* key sets; cli -1: none */
    int ver, ems, certreq, fin[2], nhs, nrec, resumed;
    u8 cr[32], sr[32], master[48], pend[2][104]; int have_master, have_pend, cke;
    u8 *tr; size_t trl;
    u8 *hb[2]; size_t hbl[2];
    cst c[2];               /* 0: what the client sends */
    u8 *app[2]; size_t appl[2];
} snif;
static void hash(const struct suite *s, const u8 *m, size_t n, u8 *o) { if (s->h94) ref_h94cp(m, n, o); else ref_h12_256(m, n, o); }
static void hm(const struct suite *s, const u8 *k, size_t kl, const u8 *m, size_t n, u8 *o) { if (s->h94) ref_hmac(ref_h94cp, 32, 32, k, kl, m, n, o); else ref_hmac(ref_h12_256, 32, 64, k, kl, m, n, o); }
static void prf(const struct suite *s, const u8 *sec, size_t sl, const char *label, const u8 *a, size_t an, const u8 *b, size_t bn, u8 *out, size_t n)
{
    u8 A[32], t[400], h[32]; size_t ll = strlen(label), tl = ll + an + bn;
    memcpy(t + 32, label, ll); memcpy(t + 32 + ll, a, an); if (bn) memcpy(t + 32 + ll + an, b, bn);
    hm(s, sec, sl, t + 32, tl, A);
    while (n) {
        memcpy(t, A, 32); hm(s, sec, sl, t, 32 + tl, h);
        size_t k = n < 32 ? n : 32; memcpy(out, h, k); out += k; n -= k;
        hm(s, sec, sl, A, 32, h); memcpy(A, h, 32);
    }
}
static void app(u8 **b, size_t *n, const void *p, size_t k) { *b = realloc(*b, *n + k + 1); memcpy(*b + *n, p, k); *n += k; }
static void sn_free(snif *x) { free(x->tr); for (int d = 0; d < 2; d++) { free(x->hb[d]); free(x->c[d].ms); free(x->c[d].cs); free(x->app[d]); } }
static void key_block(snif *x)
{
    u8 kb[160]; int il = x->s->kind == K_G89 || x->s->kind == K_KUZ ? 8 : x->s->kind == K_MAGMA ? 4 : 0, kl = x->s->kind == K_NULL ? 0 : 32;
    prf(x->s, x->master, 48, "key expansion", x->sr, 32, x->cr, 32, kb, 64 + 2 * kl + 2 * il);
    for (int d = 0; d < 2; d++) { memset(x->pend[d], 0, 104); memcpy(x->pend[d], kb + 32 * d, 32); memcpy(x->pend[d] + 32, kb + 64 + kl * d, kl); memcpy(x->pend[d] + 64, kb + 64 + 2 * kl + il * d, il); }
    x->have_pend = 1;
}
static void sn_cke(snif *x, const u8 *b, size_t n, u8 pms[32])
{
    ktrans t; u8 rr[64], uk[32], u[64], w[160]; const pkset *S = &PK[x->srv];
    struct rng_state sv = rng; rng_reset(RNG_STREAM);
    memcpy(rr, x->cr, 32); memcpy(rr + 32, x->sr, 32);
    if (x->s->auth01only) ref_h94cp(rr, 64, uk); else ref_h12_256(rr, 64, uk);
    if (x->s->k18) {
        if (!kt_parse(S, 1, b, n, &t)) sfail("cke", "ill-formed key transport");
        int kz = x->s->kind == K_KUZ; rbc c; u8 iv[16] = {0};
        if (t.ukmlen && (t.ukmlen != 32 || memcmp(t.ukm, uk, 32))) sfail("cke-ukm", "another UKM than the standard's");
        if (!ref_keg(S, t.eph, D1, uk, u)) sfail("cke", "no shared key");
        memcpy(iv, uk + 24, kz ? 8 : 4);
        rbc_init(&c, kz ? BC_KUZ : BC_MAGMA, u + 32, NULL);
        if (t.enclen != (kz ? 48u : 40u)) sfail("cke", "length of the wrapped key");
        ref_ctr(&c, iv, t.enc, w, t.enclen, 0); memcpy(pms, w, 32);
        ref_kexp15(kz ? BC_KUZ : BC_MAGMA, u + 32, u, uk + 24, kz ? 8 : 4, pms, 32, w);
        if (memcmp(w, t.enc, t.enclen)) sfail("cke-wrap", "the premaster secret is not wrapped as the standard says");
    } else {
        der d = { b, b + n }, in; sbox_t *sb = S->type == NID_id_GostR3410_2001 ? &RSB_A : &RSB_Z; u8 dk[32], mac[8]; rbc c;
        if (!der_get(&d, 0x30, &in) || d.p != d.e || !kt_parse(S, 0, in.p, in.e - in.p, &t)) sfail("cke", "ill-formed key transport");
        if (t.ukmlen != 8 || memcmp(t.ukm, uk, 8)) sfail("cke-ukm", "another UKM than the standard's");
        const EC_POINT *q = t.has_eph ? t.eph : x->cli >= 0 ? KY[x->cli].q2 : NULL;
        if (!q || !ref_vko(S, q, D1, t.ukm, 8, S->dgst == NID_id_GostR3411_94 ? S->dgst : NID_id_GostR3411_2012_256, u)) sfail("cke", "no shared key");
        ref_cp_diversify(u, *sb, t.ukm, dk); rbc_init(&c, BC_G89, dk, *sb);
        if (t.enclen != 32) sfail("cke", "length of the wrapped key");
        ref_ecb(&c, t.enc, pms, 32, 0); ref_imit_iv(dk, *sb, t.ukm, pms, 32, mac);
        if (t.maclen != 4 || memcmp(mac, t.mac, 4)) sfail("cke-wrap", "the premaster secret is not wrapped as the standard says");
    }
    EC_POINT_free(t.eph);
    rng = sv;
}
static void sn_hs(snif *x, int d, const u8 *m, size_t n)
{
    const u8 *b = m + 4; size_t l = n - 4; u8 h[64], v[32], pms[32]; size_t vl = x->s->k18 ? 32 : 12;
    if (m[0] == 0) return;
    if (m[0] == 1) { x->trl = 0; memcpy(x->cr, b + 2, 32); x->cke = 0; x->have_pend = 0; x->fin[0] = x->fin[1] = 0; x->certreq = 0; }
    if (m[0] == 2) {
        memcpy(x->sr, b + 2, 32); size_t p = 34; p += 1 + b[p]; int id = b[p] << 8 | b[p + 1]; p += 3; x->ver = b[0] << 8 | b[1]; x->ems = 0;
        if (id != x->s->id) sfail("suite", "suite %04x chosen", id);
        if (p + 2 <= l) for (p += 2; p + 4 <= l; p += 4 + (b[p + 2] << 8 | b[p + 3])) if (b[p] == 0 && b[p + 1] == 23) x->ems = 1;
    }
    if (m[0] == 13) x->certreq = 1;
    if (m[0] == 11) {
        u8 *e = NULL; int cl = d ? i2d_X509(KY[x->srv].c, &e) : x->cli >= 0 ? i2d_X509(KY[x->cli].c2, &e) : 0;
        if (cl ? (l != 6u + cl || memcmp(b + 6, e, cl)) : l != 3) sfail("certificate", "another certificate sent");
        OPENSSL_free(e);
    }
    if (m[0] == 15) {
        if (x->cli < 0) sfail("cert-verify", "signature without a certificate");
        const pkset *S = &PK[x->cli]; size_t sl = 2 * S->c->size, hd = x->ver == TLS1_2_VERSION ? 4 : 2; u8 sig[128];
        if (l != hd + sl) sfail("cert-verify", "length of the signature");
        for (size_t i = 0; i < sl; i++) sig[i] = b[hd + sl - 1 - i];
        if (S->dgst == NID_id_GostR3411_94) ref_h94cp(x->tr, x->trl, h); else ref_streebog(S->c->size * 8, x->tr, x->trl, h);
        BIGNUM *r = BN_new(), *s = BN_new(); sig_unpack(S, sig, r, s);
        struct rng_state sv = rng; rng_reset(RNG_STREAM);
        if (!ref_verify(S, KY[x->cli].q2, h, S->c->size, r, s)) sfail("cert-verify", "the client's signature is wrong");
        rng = sv; BN_free(r); BN_free(s);
    }
    if (m[0] == 20) {
        hash(x->s, x->tr, x->trl, h);
        prf(x->s, x->master, 48, d ? "server finished" : "client finished", h, 32, NULL, 0, v, vl);
        if (!x->c[d].on || l != vl || memcmp(v, b, vl)) sfail("finished", "%s Finished is wrong", d ? "server" : "client");
        x->fin[d] = 1; x->nhs += x->fin[0] && x->fin[1];
    }
    app(&x->tr, &x->trl, m, n);
    if (m[0] == 16) {
        sn_cke(x, b, l, pms);
        hash(x->s, x->tr, x->trl, h);
        if (x->ems) prf(x->s, pms, 32, "extended master secret", h, 32, NULL, 0, x->master, 48);
        else prf(x->s, pms, 32, "master secret", x->cr, 32, x->sr, 32, x->master, 48);
        x->have_master = 1; x->cke = 1;
    }
}
static void sn_rec(snif *x, int d, const u8 *r, size_t n)
{
    cst *c = &x->c[d]; u8 *p = malloc(n + 64), hd[13], k[32], mac[32], iv[16], sq[8]; size_t l = n - 5, ml = x->s->kind == K_G89 ? 4 : x->s->kind == K_MAGMA ? 8 : x->s->kind == K_KUZ ? 16 : 32;
    memcpy(p, r + 5, l); x->nrec++;
    if (c->on) {
        int kz = x->s->kind == K_KUZ;
        for (int i = 0; i < 8; i++) sq[i] = c->seq >> (56 - 8 * i);
        if (l < ml) sfail("record", "record without a MAC");
        if (x->s->kind == K_G89) {
            app(&c->cs, &c->csl, r + 5, l); u8 *t = malloc(c->csl + 1);
            ref_g89_cnt(c->key, *x->s->sb, c->iv, 1, c->cs, t, c->csl); memcpy(p, t + c->csl - l, l); free(t);
        } else if (x->s->kind != K_NULL) {
            rbc b; ref_tlstree(kz ? BC_KUZ : BC_MAGMA, c->key, sq, k); rbc_init(&b, kz ? BC_KUZ : BC_MAGMA, k, NULL);
            memset(iv, 0, 16); memcpy(iv, c->iv, kz ? 8 : 4);
            for (int i = kz ? 7 : 3, cy = 0; i >= 0; i--) { int s = iv[i] + sq[kz ? i : i + 4] + cy; iv[i] = s; cy = s >> 8; }
            ref_ctr(&b, iv, r + 5, p, l, kz ? 4096 : 1024);
        }
        l -= ml;
        memcpy(hd, sq, 8); memcpy(hd + 8, r, 3); hd[11] = l >> 8; hd[12] = l;
        if (x->s->kind == K_G89) { app(&c->ms, &c->msl, hd, 13); app(&c->ms, &c->msl, p, l); ref_imit(c->mk, *x->s->sb, 1, c->ms, c->msl, mac); }
        else {
            u8 *t = malloc(l + 13); memcpy(t, hd, 13); memcpy(t + 13, p, l);
            if (x->s->id == 0xff87) { app(&c->ms, &c->msl, t, l + 13); hm(x->s, c->mk, 32, c->ms, c->msl, mac); }      /* this suite's MAC runs on from record to record */
            else if (x->s->kind == K_NULL) hm(x->s, c->mk, 32, t, l + 13, mac);
            else { ref_tlstree(kz ? BC_KUZ : BC_MAGMA, c->mk, sq, k); ref_omac(kz ? BC_KUZ : BC_MAGMA, k, t, l + 13, mac); }
            free(t);
        }
        if (memcmp(mac, p + l, ml)) sfail("record-mac", "record %llu of the %s is not what the standard says", (unsigned long long)c->seq, d ? "server" : "client");
        c->seq++;
    }
    if (r[0] == 20) {
        if (l != 1 || p[0] != 1) sfail("ccs", "ill-formed change cipher spec");
        if (!x->have_master) sfail("ccs", "no master secret");
        if (!x->have_pend) { x->resumed = !x->cke; key_block(x); }
        free(c->ms); free(c->cs); memset(c, 0, sizeof *c);
        memcpy(c->mk, x->pend[d], 32); memcpy(c->key, x->pend[d] + 32, 32); memcpy(c->iv, x->pend[d] + 64, 16); c->on = 1;
    } else if (r[0] == 22) {
        app(&x->hb[d], &x->hbl[d], p, l);
        while (x->hbl[d] >= 4) {
            size_t m = 4 + (x->hb[d][1] << 16 | x->hb[d][2] << 8 | x->hb[d][3]);
            if (x->hbl[d] < m) break;
            sn_hs(x, d, x->hb[d], m);
            memmove(x->hb[d], x->hb[d] + m, x->hbl[d] -= m);
        }
    } else if (r[0] == 23) { if (!c->on) sfail("plaintext", "application data in the clear"); app(&x->app[d], &x->appl[d], p, l); }
    free(p); mc_trans(1);
}
/* ---------------------------------------------------------------- the connection */
typedef struct { SSL_CTX *cc, *sc; } ctxs;
typedef struct { SSL *s[2]; snif *sn; u8 *q[2]; size_t ql[2]; int nrec, arec, abit; long abyte; int rlen[64], rdir[64]; } conn;   /* s[0]: client */
static ctxs mkctx(const struct suite *su, int srv, int cli, int v, int ems, int tickets)
{
    ctxs x; SSL_CTX *c[2];
    for (int i = 0; i < 2; i++) {
        c[i] = i ? (x.sc = SSL_CTX_new(TLS_server_method())) : (x.cc = SSL_CTX_new(TLS_client_method()));
        if (!c[i]) mc_internal("SSL_CTX_new");
        SSL_CTX_set_security_level(c[i], 0);
        SSL_CTX_set_min_proto_version(c[i], VER[v]); SSL_CTX_set_max_proto_version(c[i], VER[v]);
        if (!SSL_CTX_set_cipher_list(c[i], su->n)) mc_fail(mc_fmt("no-suite:%s", su->n), "the suite is not available");
        if (!ems) SSL_CTX_set_options(c[i], SSL_OP_NO_EXTENDED_MASTER_SECRET);
        if (!tickets) SSL_CTX_set_options(c[i], SSL_OP_NO_TICKET);
        SSL_CTX_set_options(c[i], SSL_OP_ALLOW_CLIENT_RENEGOTIATION);
        SSL_CTX_set_session_id_context(c[i], (u8 *)"p24", 3);
        X509_VERIFY_PARAM_set_flags(SSL_CTX_get0_param(c[i]), X509_V_FLAG_PARTIAL_CHAIN);
        X509_STORE_add_cert(SSL_CTX_get_cert_store(c[i]), i ? KY[cli < 0 ? srv : cli].c2 : KY[srv].c);
        SSL_CTX_set_verify(c[i], i ? (cli < 0 ? SSL_VERIFY_NONE : SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT) : SSL_VERIFY_PEER, NULL);
    }
    if (SSL_CTX_use_certificate(x.sc, KY[srv].c) != 1 || SSL_CTX_use_PrivateKey(x.sc, KY[srv].k) != 1) mc_fail(mc_fmt("use-key:%s", PK[srv].tname), "the server's certificate or key is refused");
    if (cli >= 0 && (SSL_CTX_use_certificate(x.cc, KY[cli].c2) != 1 || SSL_CTX_use_PrivateKey(x.cc, KY[cli].k2) != 1)) mc_fail(mc_fmt("use-key:%s", PK[cli].tname), "the client's certificate or key is refused");
    ERR_clear_error();
    return x;
}
static void ctx_free(ctxs x) { SSL_CTX_free(x.cc); SSL_CTX_free(x.sc); }
static void conn_new(conn *c, ctxs x, snif *sn)
{
    memset(c, 0, sizeof *c); c->sn = sn; c->arec = -1;
    for (int i = 0; i < 2; i++) {
        c->s[i] = SSL_new(i ? x.sc : x.cc);
        BIO *r = BIO_new(BIO_s_mem()), *w = BIO_new(BIO_s_mem()); BIO_set_mem_eof_return(r, -1); BIO_set_mem_eof_return(w, -1);
        SSL_set_bio(c->s[i], r, w);
    }
    SSL_set_connect_state(c->s[0]); SSL_set_accept_state(c->s[1]);
}
static void conn_free(conn *c) { for (int i = 0; i < 2; i++) { SSL_free(c->s[i]); free(c->q[i]); } }
/* next whole record side d has written; 0: none */
static size_t take(conn *c, int d, u8 *r)
{
    u8 b[4096]; int k;
    while ((k = BIO_read(SSL_get_wbio(c->s[d]), b, sizeof b)) > 0) app(&c->q[d], &c->ql[d], b, k);
    if (c->ql[d] < 5) return 0;
    size_t n = 5 + (c->q[d][3] << 8 | c->q[d][4]);
    if (c->ql[d] < n) mc_internal("half a record");
    memcpy(r, c->q[d], n); memmove(c->q[d], c->q[d] + n, c->ql[d] -= n);
    if (c->sn) sn_rec(c->sn, d, r, n);
    return n;
}
static void give(conn *c, int d, const u8 *r, size_t n) { BIO_write(SSL_get_rbio(c->s[!d]), r, n); }
static u8 REC[20000];
static int pump(conn *c, int d)
{
    size_t n; int any = 0;
    while ((n = take(c, d, REC))) {
        if (c->nrec < 64) { c->rlen[c->nrec] = n; c->rdir[c->nrec] = d; }
        if (c->nrec == c->arec) REC[5 + c->abyte] ^= 1 << c->abit;
        c->nrec++; give(c, d, REC, n); any = 1;
    }
    return any;
}
/* both sides up: 1 */
static int handshake(conn *c)
{
    int ok[2] = { 0, 0 }, bad = 0;
    for (int i = 0; i < 40; i++) {
        int any = 0;
        for (int d = 0; d < 2; d++) {
            if (!ok[d] || SSL_in_init(c->s[d])) {
                int r = SSL_do_handshake(c->s[d]); ok[d] = r == 1;
                if (r != 1 && SSL_get_error(c->s[d], r) != SSL_ERROR_WANT_READ) { bad = 1; if (getenv("P24_ERR")) ERR_print_errors_fp(stderr); }
                ERR_clear_error();
            }
            any |= pump(c, d);
        }
        if (!any && (bad || (ok[0] && ok[1]))) break;
    }
    return ok[0] && ok[1] && !SSL_in_init(c->s[0]) && !SSL_in_init(c->s[1]);
}
static u8 DATA[70000];
static void xfer(conn *c, int d, size_t n, unsigned seed)
{
    static u8 in[20000]; size_t at = c->sn->appl[d];
    mc_op("%s sends %zu bytes", d ? "server" : "client", n);
    const u8 *p = DATA + seed % 997;
    if (SSL_write(c->s[d], p, n) != (int)n) sfail("write", "the data cannot be sent");
    pump(c, d);
    if (c->sn->appl[d] != at + n || memcmp(c->sn->app[d] + at, p, n)) sfail("wire-data", "other data on the wire");
    int r = SSL_read(c->s[!d], in, sizeof in);
    if (r != (int)n || memcmp(in, p, n)) sfail("read", "the data does not arrive (%d)", r);
    if (SSL_read(c->s[!d], in, sizeof in) > 0) sfail("read", "more data arrives than was sent");
    ERR_clear_error(); mc_trans(1);
}
static void established(conn *c, int cli)
{
    u8 a[48], b[48], e[80], f[80], rr[64]; SSL_SESSION *s = SSL_get_session(c->s[0]), *t = SSL_get_session(c->s[1]);
    if (SSL_SESSION_get_master_key(s, a, 48) != 48 || SSL_SESSION_get_master_key(t, b, 48) != 48 || memcmp(a, b, 48) || memcmp(a, c->sn->master, 48)) sfail("master", "the master secrets differ");
    if (SSL_get_verify_result(c->s[0]) != X509_V_OK || SSL_get_verify_result(c->s[1]) != X509_V_OK) sfail("verify-result", "certificate not accepted");
    if (!c->sn->resumed && (cli >= 0) != (SSL_get0_peer_certificate(c->s[1]) != NULL)) sfail("peer-certificate", "client certificate");
    memcpy(rr, c->sn->cr, 32); memcpy(rr + 32, c->sn->sr, 32);
    prf(c->sn->s, c->sn->master, 48, "EXPORTER test", rr, 64, NULL, 0, e, 80);
    for (int d = 0; d < 2; d++) if (SSL_export_keying_material(c->s[d], f, 80, "EXPORTER test", 13, NULL, 0, 0) != 1 || memcmp(e, f, 80)) sfail("exporter", "exported keying material");
}
static snif *sn_new(const struct suite *su, int srv, int cli) { snif *x = calloc(1, sizeof *x); x->s = su; x->srv = srv; x->cli = cli; return x; }
static conn *up(ctxs x, const struct suite *su, int srv, int cli, snif *prev, SSL_SESSION *ses)
{
    conn *c = malloc(sizeof *c); snif *sn = sn_new(su, srv, cli);
    if (prev) { memcpy(sn->master, prev->master, 48); sn->have_master = 1; }
    conn_new(c, x, sn);
    if (ses && !SSL_set_session(c->s[0], ses)) mc_internal("SSL_set_session");
    if (!handshake(c)) sfail("handshake", "the sides do not come up");
    if (sn->nhs != 1) sfail("handshake", "%d handshakes seen", sn->nhs);
    established(c, cli);
    return c;
}
static void down(conn *c) { sn_free(c->sn); free(c->sn); conn_free(c); free(c); }
static const int LEN[] = { 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 2048, 4083, 4095, 4096, 4097, 8192, 16383, 16384 };
#define NLEN (int)(sizeof LEN / sizeof *LEN)
static void session(const struct suite *su, int srv, int cli, int v, int ems, int full)
{
    rng_reset(RNG_STREAM);
    snprintf(SNAME, sizeof SNAME, "%s:%s", su->n, PK[srv].tname);
    ctxs x = mkctx(su, srv, cli, v, ems, 0);
    conn *c = up(x, su, srv, cli, NULL, NULL);
    mc_count("records", c->sn->nrec);
    for (int i = 0; i < (full ? NLEN : 8); i++) for (int d = 0; d < 2; d++) xfer(c, d, LEN[full ? i : i * 3], i * 7 + d);
    if (SSL_shutdown(c->s[0]) != 0) sfail("shutdown", "no closing");
    pump(c, 0);
    u8 b[4]; if (SSL_read(c->s[1], b, 4) > 0 || SSL_get_shutdown(c->s[1]) != SSL_RECEIVED_SHUTDOWN) sfail("shutdown", "the closing does not arrive");
    down(c); ctx_free(x); mc_n_execs++;
}
/* many records, around the places where keys change */
static void longrun(const struct suite *su, int srv, long n, int len)
{
    rng_reset(RNG_STREAM); snprintf(SNAME, sizeof SNAME, "%s:%s", su->n, PK[srv].tname);
    ctxs x = mkctx(su, srv, -1, 0, 1, 0); conn *c = up(x, su, srv, -1, NULL, NULL);
    for (long i = 0; i < n; i++) { xfer(c, i & 1, len ? len : 1 + i % 70, i); mc_reset_trace(); if (i % 3 == 2) xfer(c, i & 1, 3, i); if (i % 100 == 0) mc_alive(); }
    mc_count("long_records", n); down(c); ctx_free(x); mc_n_execs++;
}
static void resume(const struct suite *su, int srv, int cli, int v, int ems, int tickets)
{
    rng_reset(RNG_STREAM); snprintf(SNAME, sizeof SNAME, "%s:%s", su->n, PK[srv].tname);
    ctxs x = mkctx(su, srv, cli, v, ems, tickets);
    conn *c = up(x, su, srv, cli, NULL, NULL), *o = NULL;
    xfer(c, 0, 20, 1); xfer(c, 1, 33, 2);
    for (int i = 0; i < 3; i++) {
        mc_op("connection %d", i + 2);
        SSL_SESSION *s = SSL_get1_session(c->s[0]);
        SSL_shutdown(c->s[0]); pump(c, 0); u8 z; SSL_read(c->s[1], &z, 1); SSL_shutdown(c->s[1]); pump(c, 1); ERR_clear_error();
        o = c; c = up(x, su, srv, cli, o->sn, s); SSL_SESSION_free(s);
        if (!SSL_session_reused(c->s[0]) || !SSL_session_reused(c->s[1]) || !c->sn->resumed) sfail("resume", "the session is not resumed");
        down(o);
        for (int j = 0; j < 4; j++) for (int d = 0; d < 2; d++) xfer(c, d, 5 + 40 * j, j + d);
        mc_n_execs++;
    }
    down(c); ctx_free(x);
}
static void reneg(const struct suite *su, int srv, int cli, int v, int who, int abbrev)
{
    rng_reset(RNG_STREAM); snprintf(SNAME, sizeof SNAME, "%s:%s", su->n, PK[srv].tname);
    ctxs x = mkctx(su, srv, cli, v, 1, 0); conn *c = up(x, su, srv, cli, NULL, NULL);
    for (int i = 0; i < 3; i++) {
        for (int j = 0; j < 3; j++) for (int d = 0; d < 2; d++) xfer(c, d, 3 + 50 * j, j + d);
        mc_op("the %s renegotiates", who ? "server" : "client");
        if ((abbrev ? SSL_renegotiate_abbreviated(c->s[who]) : SSL_renegotiate(c->s[who])) != 1) sfail("renegotiate", "refused");
        u8 b[8]; if (who) { SSL_do_handshake(c->s[1]); pump(c, 1); SSL_read(c->s[0], b, 8); pump(c, 0); SSL_read(c->s[1], b, 8); pump(c, 1); ERR_clear_error(); }
        for (int k = 0; k < 8 && (c->sn->nhs != i + 2 || SSL_in_init(c->s[0]) || SSL_in_init(c->s[1])); k++) for (int d = 0; d < 2; d++) {
            int r = SSL_do_handshake(c->s[d]); pump(c, d);
            if (r != 1 && SSL_get_error(c->s[d], r) != SSL_ERROR_WANT_READ) { if (getenv("P24_ERR")) ERR_print_errors_fp(stderr); sfail("renegotiate", "the %s gives up", d ? "server" : "client"); }
            SSL_read(c->s[!d], b, 8); pump(c, !d); ERR_clear_error();
        }
        if (c->sn->nhs != i + 2) sfail("renegotiate", "%d handshakes seen, %d wanted", c->sn->nhs, i + 2);
        established(c, cli); mc_n_execs++;
    }
    xfer(c, 0, 70, 1); xfer(c, 1, 71, 2);
    down(c); ctx_free(x);
}
/* ---------------------------------------------------------------- altered records */
static struct alt { conn *c; int d, kind; long byte; int bit; u8 *r[3]; size_t n[3]; } AL;
static void altered(void *a)
{
    (void)a; u8 in[300]; conn *c = AL.c; SSL *to = c->s[!AL.d]; int r;
    switch (AL.kind) {
    case 0: AL.r[0][AL.byte] ^= 1 << AL.bit; give(c, AL.d, AL.r[0], AL.n[0]); break;
    case 1: give(c, AL.d, AL.r[0], AL.n[0]); if (SSL_read(to, in, 300) <= 0) sfail("read", "good record refused"); give(c, AL.d, AL.r[0], AL.n[0]); break;   /* repeated */
    case 2: give(c, AL.d, AL.r[1], AL.n[1]); break;     /* the first dropped */
    case 3: give(c, AL.d, AL.r[0], AL.n[0]); if (SSL_read(to, in, 300) <= 0) sfail("read", "good record refused"); give(c, AL.d, AL.r[2], AL.n[2]); break;
    case 4: BIO_write(SSL_get_rbio(c->s[AL.d]), AL.r[0], AL.n[0]); to = c->s[AL.d]; break;  /* sent back */
    case 5: { size_t l = AL.byte; u8 *x = AL.r[0]; x[3] = (l - 5) >> 8; x[4] = l - 5; give(c, AL.d, x, l); break; }  /* cut short, well framed */
    case 6: { u8 x[400]; memcpy(x, AL.r[0], AL.n[0]); memcpy(x + AL.n[0], AL.r[1] + 5, AL.n[1] - 5); size_t l = AL.n[0] + AL.n[1] - 10; x[3] = l >> 8; x[4] = l; give(c, AL.d, x, l + 5); break; }     /* two made one */
    case 7: for (int i = 0; i < 3; i++) { give(c, AL.d, AL.r[i], AL.n[i]); if (SSL_read(to, in, 300) <= 0) sfail("read", "good record refused"); } return;
    }
    r = SSL_read(to, in, 300);
    if (r > 0) sfail(AL.kind == 0 ? "altered-record" : AL.kind == 1 ? "repeated-record" : AL.kind < 4 ? "missing-record" : AL.kind == 4 ? "reflected-record" : "reframed-record", "a record that was not sent there is accepted (%d bytes)", r);
    ERR_clear_error();
    /* and nothing after it */
    give(c, AL.d, AL.r[2], AL.n[2]); r = SSL_read(to, in, 300);
    if (r > 0) sfail("after-bad", "data is accepted after a bad record");
}
static void records(const struct suite *su, int srv, int d, int before, int len)
{
    rng_reset(RNG_STREAM); snprintf(SNAME, sizeof SNAME, "%s:%s", su->n, PK[srv].tname);
    ctxs x = mkctx(su, srv, -1, 0, 1, 0); conn *c = up(x, su, srv, -1, NULL, NULL);
    for (int i = 0; i < before; i++) { xfer(c, d, 11, i); if (i & 1) xfer(c, !d, 5, i); }
    AL.c = c; AL.d = d;
    for (int i = 0; i < 3; i++) { u8 t[400]; SSL_write(c->s[d], DATA + i * 100, len + i); AL.n[i] = take(c, d, t); AL.r[i] = malloc(AL.n[i] + 1); memcpy(AL.r[i], t, AL.n[i]); }
    for (AL.kind = 1; AL.kind < 8; AL.kind++) {
        if (AL.kind == 5) for (AL.byte = 5; AL.byte < (long)AL.n[0]; AL.byte++) { mc_op("record cut to %ld", AL.byte); mc_isolate(altered, NULL); mc_reset_trace(); mc_n_execs++; }
        else { mc_op("change %d", AL.kind); mc_isolate(altered, NULL); mc_reset_trace(); mc_n_execs++; }
    }
    AL.kind = 0;
    for (AL.byte = 0; AL.byte < (long)AL.n[0]; AL.byte++) for (AL.bit = 0; AL.bit < 8; AL.bit++) {
        if (!mc_thorough && AL.byte > 5 && AL.bit != (AL.byte & 7)) continue;
        mc_op("bit %d of byte %ld of %zu", AL.bit, AL.byte, AL.n[0]); mc_isolate(altered, NULL); mc_reset_trace(); mc_n_execs++; mc_trans(1);
    }
    for (int i = 0; i < 3; i++) free(AL.r[i]);
    down(c); ctx_free(x);
}
/* one byte of the handshake altered on the way */
static void tamper(const struct suite *su, int srv, int cli, int v, int ems, int part, int parts)
{
    snprintf(SNAME, sizeof SNAME, "%s:%s", su->n, PK[srv].tname);
    conn b; ctxs x; int n = 0, len[64];
    rng_reset(RNG_STREAM); x = mkctx(su, srv, cli, v, ems, 0); conn_new(&b, x, NULL);
    if (!handshake(&b)) sfail("handshake", "the sides do not come up");
    n = b.nrec; memcpy(len, b.rlen, sizeof len); conn_free(&b); ctx_free(x);
    int at = 0;
    for (int r = 0; r < n; r++) for (int p = 0; p < len[r] - 5; p++) {
        if (at++ % parts != part) continue;
        rng_reset(RNG_STREAM); x = mkctx(su, srv, cli, v, ems, 0);
        conn_new(&b, x, NULL); b.arec = r; b.abyte = p; b.abit = (p + r) % 8;
        mc_op("bit %d of byte %d of record %d (%d bytes)", b.abit, p, r, len[r]);
        if (handshake(&b)) sfail("altered-handshake", "both sides come up after an altered handshake");
        conn_free(&b); ctx_free(x); mc_reset_trace(); mc_n_execs++; mc_trans(1); mc_alive();
    }
}
/* every call of the random generator failing once, or from then on */
static void norandom(const struct suite *su, int srv, int cli)
{
    snprintf(SNAME, sizeof SNAME, "%s:%s", su->n, PK[srv].tname);
    for (int sticky = 0; sticky < 2; sticky++) for (int k = 1; k < 200; k++) {
        rng_reset(RNG_STREAM); ctxs x = mkctx(su, srv, cli, 0, 1, 0); long base = rng.calls;
        snif *sn = sn_new(su, srv, cli); conn c; conn_new(&c, x, sn);
        rng.fail_at = base + k; rng.fail_sticky = sticky; mc_op("random call %d fails%s", k, sticky ? ", and all later" : "");
        int ok = handshake(&c), hit = rng.calls >= base + k; rng.fail_at = 0; rng.fail_sticky = 0;
        if (!hit) { if (!ok) sfail("handshake", "the sides do not come up"); k = 1000; }
        if (ok) { established(&c, cli); xfer(&c, 0, 20, 1); xfer(&c, 1, 20, 2); }
        mc_count(ok ? "came_up" : "refused", 1);
        conn_free(&c); ctx_free(x); sn_free(sn); free(sn); mc_reset_trace(); mc_n_execs++;
    }
}
/* somebody else's certificate, or a key that is not the certificate's */
static void strangers(const struct suite *su, int srv, int v)
{
    snprintf(SNAME, sizeof SNAME, "%s:%s", su->n, PK[srv].tname);
    for (int who = 0; who < 3; who++) {
        rng_reset(RNG_STREAM); ctxs x = mkctx(su, srv, srv, v, 1, 0); conn c; X509_STORE *st = X509_STORE_new();
        if (who < 2) { X509_STORE_add_cert(st, who ? KY[srv].c : KY[srv].c2); SSL_CTX_set_cert_store(who ? x.sc : x.cc, st); }
        else { X509_STORE_free(st); SSL_CTX_set_verify(x.sc, SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT, NULL); }
        conn_new(&c, x, NULL);
        if (who == 2) { SSL_certs_clear(c.s[0]); }
        mc_op("%s", who == 0 ? "the client knows another server" : who == 1 ? "the server knows another client" : "the client has no certificate");
        if (handshake(&c)) sfail("stranger", "both sides come up");
        conn_free(&c); ctx_free(x); mc_reset_trace(); mc_n_execs++;
    }
    ctxs x = mkctx(su, srv, -1, v, 1, 0);
    if (SSL_CTX_use_PrivateKey(x.sc, KY[srv].k2) == 1 && SSL_CTX_check_private_key(x.sc) == 1 ) sfail("mismatch", "the key of another certificate is taken");
    ERR_clear_error(); ctx_free(x);
}
/* two connections at once, every order of their steps */
static struct { const struct suite *su[2]; int k[2]; int steps; } TW;
static void step(conn *c, int i, int k)
{
    if (i < 5) {        /* flights: client, server, client, server, client */
        int d = i & 1, r = SSL_do_handshake(c->s[d]);
        if (r != 1 && SSL_get_error(c->s[d], r) != SSL_ERROR_WANT_READ) { if (getenv("P24_ERR")) ERR_print_errors_fp(stderr); sfail("handshake", "the sides do not come up"); }
        pump(c, d); ERR_clear_error();
        if (i == 4) { if (c->sn->nhs != 1) sfail("handshake", "the sides do not come up"); established(c, k); }
    } else xfer(c, i & 1, 20 + i, i);
}
static void two(void *a)
{
    (void)a; ctxs x[2]; conn c[2]; int at[2] = { 0, 0 };
    rng_reset(RNG_STREAM);
    for (int i = 0; i < 2; i++) { x[i] = mkctx(TW.su[i], TW.k[i], -1, 0, 1, 0); conn_new(&c[i], x[i], sn_new(TW.su[i], TW.k[i], -1)); }
    while (at[0] < TW.steps || at[1] < TW.steps) {
        int w = at[0] >= TW.steps ? 1 : at[1] >= TW.steps ? 0 : mc_choose(2);
        mc_op("connection %d, step %d", w, at[w]);
        snprintf(SNAME, sizeof SNAME, "two:%s:%s", TW.su[0]->n, TW.su[1]->n);
        step(&c[w], at[w]++, -1); mc_trans(1);
    }
    for (int i = 0; i < 2; i++) { sn_free(c[i].sn); free(c[i].sn); conn_free(&c[i]); ctx_free(x[i]); }
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(1);
    int e = ref_selftest(); if (e) mc_internal("reference self-test %d", e);
    pk_init(); rng_reset(RNG_STREAM);
    fill(DATA, sizeof DATA, 3);
    D1 = bn_hex("1234567890ABCDEF1234567890ABCDEF1234567890ABCDEF1234567890ABCD"); D2 = bn_hex("7A929ADE789BB9BE10ED359DD39A72C11B60961F49397EEE1D19CE9891EC3B");
    int first[3] = { -1, -1, -1 };
    for (int i = 0; i < NPK; i++) { int t = PK[i].type == NID_id_GostR3410_2001 ? 0 : PK[i].type == NID_id_GostR3410_2012_256 ? 1 : PK[i].type == NID_id_GostR3410_2012_512 ? 2 : -1; if (t >= 0 && first[t] < 0) first[t] = i; }
    for (int q = 0; q < NSU; q++) {
        const struct suite *su = &SU[q]; int done[3] = { 0, 0, 0 };
        for (int i = 0; i < NPK; i++) {
            int t = PK[i].type == NID_id_GostR3410_2001 ? 0 : PK[i].type == NID_id_GostR3410_2012_256 ? 1 : PK[i].type == NID_id_GostR3410_2012_512 ? 2 : -1;
            if (t < 0) continue;
            int ok = su->auth01only ? t == 0 : su->k18 ? t != 0 : 1, one = !done[t]; done[t] = 1;
            if (!ok) { if (one) MC_CASE("%s with a key of %s", su->n, PK[i].tname) {
                keys(i); rng_reset(RNG_STREAM); ctxs x = mkctx(su, i, -1, 0, 1, 0); conn c; conn_new(&c, x, NULL);
                if (handshake(&c)) mc_fail(mc_fmt("wrong-key-type:%s", su->n), "the sides come up with a key of another type");
                conn_free(&c); ctx_free(x); }
                continue; }
            int nv = su->k18 ? 1 : 3;
            for (int v = 0; v < nv; v++) for (int ems = 1; ems >= 0; ems--) for (int cl = -1; cl < NPK; cl++) {
                int rot = (i + cl + v + ems) % 3;
                if (cl >= 0 && PK[cl].type == NID_id_GostR3410_2001DH) continue;
                if (!mc_thorough) { int want = cl < 0 ? ems || v == 0 : one ? (v == 0 && ems) || rot == 0 : cl == i ? ems : (cl == first[0] || cl == first[1] || cl == first[2]) && v == 0 && ems; if (!want) continue; }
                MC_CASE("session %s, server %s, client %s, %s%s", su->n, pk_name(&PK[i]), cl < 0 ? "anonymous" : pk_name(&PK[cl]), VN[v], ems ? "" : ", plain master secret") { keys(i); if (cl >= 0) keys(cl); session(su, i, cl, v, ems, cl < 0 && ems); }
            }
            for (int v = 0; v < (mc_thorough ? nv : 1); v++) MC_CASE("strangers %s, %s, %s", su->n, pk_name(&PK[i]), VN[v]) { keys(i); strangers(su, i, v); }
            if (!one && !mc_thorough) continue;
            for (int v = 0; v < nv; v++) for (int cl = 0; cl < 2; cl++) {
                for (int tk = 0; tk < 2; tk++) for (int ems = 0; ems < 2; ems++) if (mc_thorough || v == 0 || ems)
                    MC_CASE("resumption %s, %s, %s, %s, %s%s", su->n, pk_name(&PK[i]), VN[v], cl ? "client certificate" : "anonymous", tk ? "ticket" : "session id", ems ? "" : ", plain master secret") { keys(i); resume(su, i, cl ? i : -1, v, ems, tk); }
                for (int who = 0; who < 2; who++) for (int ab = 0; ab < 2; ab++)
                    MC_CASE("renegotiation%s by the %s, %s, %s, %s, %s", ab ? " (abbreviated)" : "", who ? "server" : "client", su->n, pk_name(&PK[i]), VN[v], cl ? "client certificate" : "anonymous") { keys(i); reneg(su, i, cl ? i : -1, v, who, ab); }
            }
            for (int d = 0; d < 2; d++) for (int b = 0; b < 3; b++) for (int l = 0; l < (mc_thorough ? 3 : 1); l++) if (one)
                MC_CASE("altered records %s, %s, from the %s, after %d, %d bytes", su->n, PK[i].tname, d ? "server" : "client", b * 33, (int[]){ 21, 1, 100 }[l]) { keys(i); records(su, i, d, b * 33, (int[]){ 21, 1, 100 }[l]); }
            for (int v = 0; v < nv; v++) for (int cl = 0; cl < 2; cl++) for (int pt = 0; pt < 8; pt++) if (mc_thorough || (v == 0 && (cl == 0 || t == 1)))
                MC_CASE("altered handshake %s, %s, %s, %s, part %d of 8", su->n, pk_name(&PK[i]), VN[v], cl ? "client certificate" : "anonymous", pt) { keys(i); tamper(su, i, cl ? i : -1, v, 1, pt, 8); }
            for (int cl = 0; cl < 2; cl++) MC_CASE("failing random generator %s, %s, %s", su->n, pk_name(&PK[i]), cl ? "client certificate" : "anonymous") { keys(i); norandom(su, i, cl ? i : -1); }
        }
        int li = su->auth01only ? first[0] : first[1];
        MC_CASE("many records %s", su->n) { keys(li); longrun(su, li, su->kind == K_MAGMA ? 4400 : su->kind == K_KUZ ? 600 : 260, 0); }
        MC_CASE("many long records %s", su->n) { keys(li); longrun(su, li, mc_thorough ? 60 : 10, 16384); }
    }
    for (int a = 0; a < NSU; a++) for (int b = a; b < NSU; b++) for (int st = 5; st <= (mc_thorough ? 7 : 5); st += 2) {
        int i = SU[a].auth01only ? first[0] : first[1], j = SU[b].auth01only ? first[0] : first[(a + b) % 2 && SU[b].k18 ? 2 : 1];
        MC_CASE("two connections, %s and %s, %d steps each, all orders", SU[a].n, SU[b].n, st) { keys(i); keys(j); TW.su[0] = &SU[a]; TW.su[1] = &SU[b]; TW.k[0] = i; TW.k[1] = j; TW.steps = st; mc_explore(two, NULL); }
    }
    return mc_finish();
}
