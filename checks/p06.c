/* P06: authenticated ciphers: all lengths, cuts and single-bit alterations. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "aead.h"
#define MAXM 300000
static u8 *P, *AADB, *CT, *T2;
static u8 key[32], iv[16], sd[8];
static const adesc *A;
static EVP_CIPHER_CTX *C;
static u8 tag[16];
static size_t section;
static u8 last_seed[8];
static void new_ctx(void)
{
    EVP_CIPHER_CTX_free(C);
    C = EVP_CIPHER_CTX_new();
    rng_reset(RNG_STREAM);
}
static int init_enc(const u8 *k, const u8 *v)
{
    u8 kk[32], vv[16];
    memcpy(kk, k, 32); memcpy(vv, v, A->ivlen);
    int r = EVP_EncryptInit_ex(C, eng_cipher(A->sn), E, NULL, NULL);
    size_t pos = rng.log_len;
    r = r == 1 ? EVP_EncryptInit_ex(C, NULL, NULL, kk, vv) : r;
    if (A->omac) memcpy(last_seed, rng.log + pos, 8);
    section = A->section;
    memset(kk, 0x5c, 32); memset(vv, 0x5c, 16);
    return r == 1;
}
static int init_dec(const u8 *k, const u8 *v, const u8 *seed)
{
    u8 kk[32], vv[16];
    int r;
    memcpy(kk, k, 32); memcpy(vv, v, A->ivlen);
    if (A->omac) {
        ASN1_TYPE *t = omac_params(A, vv, seed);
        r = EVP_DecryptInit_ex(C, eng_cipher(A->sn), E, NULL, NULL) == 1 && EVP_CIPHER_asn1_to_param(C, t) > 0
            && EVP_DecryptInit_ex(C, NULL, NULL, kk, NULL) == 1;
        ASN1_TYPE_free(t);
        section = A->cms_section;
    } else r = EVP_DecryptInit_ex(C, eng_cipher(A->sn), E, kk, vv) == 1;
    memset(kk, 0x5c, 32); memset(vv, 0x5c, 16);
    return r;
}
static int set_tag(const u8 *t, size_t n)
{
    return A->omac ? omac_set_tag(C, t, n) : EVP_CIPHER_CTX_ctrl(C, EVP_CTRL_AEAD_SET_TAG, n, (void *)t) == 1;
}
static int get_tag(u8 *t) { return A->omac ? omac_get_tag(C, t, A->taglen) : EVP_CIPHER_CTX_ctrl(C, EVP_CTRL_AEAD_GET_TAG, A->taglen, t) == 1; }
static void ref(const u8 *k, const u8 *v, const u8 *seed, size_t an, size_t n)
{
    int new;
    struct { int a; u8 k[32], v[16], s[8]; size_t an, n, sec; } q;
    memset(&q, 0, sizeof q);
    q.a = A - AD; memcpy(q.k, k, 32); memcpy(q.v, v, A->ivlen); q.an = an; q.n = n; q.sec = section;
    if (A->omac) memcpy(q.s, seed, 8);
    u8 *m = mc_memo(&q, sizeof q, n + 16, &new);
    if (new) {
        if (A->omac) ref_ctr_omac(A, k, v, seed, section, P, n, m, m + n);
        else ref_mgm(A->kind, k, v, AADB, an, P, n, m, m + n);
    }
    memcpy(CT, m, n); memcpy(tag, m + n, A->taglen);
}
static int ginplace;
static int upd(u8 *out, const u8 *in, size_t n, int al)
{
    /* exact-size buffers at any alignment: the sanitizer sees every overrun */
    u8 *a = malloc(n + al + 1), *b = malloc(n + al + 1);
    int l = -1;
    u8 *pa = malloc(n + al ? n + al : 1), *pb = ginplace && out ? pa : malloc(n + al ? n + al : 1);
    free(a); free(b);
    memcpy(pa + al, in, n);
    int r = EVP_CipherUpdate(C, out ? pb + al : NULL, &l, pa + al, n);
    if (out) memcpy(out, pb + al, n);
    if (pa != pb && memcmp(pa + al, in, n)) mc_fail(mc_fmt("input-modified:%s", A->sn), "update changes its input");
    if (pa != pb) free(pb);
    free(pa);
    mc_trans(1);
    return r == 1 && l == (int)n;
}
/* cuts chosen by the explorer */
static size_t gan, gn; static int gparts, gzero, genc;
static void feed(u8 *out, const u8 *in, size_t n, int parts)
{
    size_t o = 0;
    for (int i = 0; i < parts && o < n; i++) {
        size_t c = i == parts - 1 ? n - o : (size_t)mc_choose(n - o) + 1;
        if (gzero && mc_choose(2)) { mc_op("update(0)"); if (!upd(out ? out + o : NULL, in + o, 0, 0)) mc_fail(mc_fmt("empty-update:%s", A->sn), "an empty update fails"); }
        mc_op("%s(%zu)", out ? "update" : "aad", c);
        if (!upd(out ? out + o : NULL, in + o, c, (o * 5 + c * 3) & 7)) mc_fail(mc_fmt("update-fails:%s", A->sn), "update of %zu bytes at %zu fails", c, o);
        o += c;
    }
}
static void one(void *u)
{
    static u8 out[4096];
    u8 t[16]; int l = 0;
    mc_reset_trace();
    new_ctx();
    ginplace = !gn ? 0 : gparts <= 2 || mc_thorough ? mc_choose(2) : (int)(gn & 1);
    mc_op("%s aad %zu text %zu%s", genc ? "encrypt" : "decrypt", gan, gn, ginplace ? " in place" : "");
    memcpy(last_seed, sd, 8);
    if (!(genc ? init_enc(key, iv) : init_dec(key, iv, sd))) mc_fail(mc_fmt("init:%s", A->sn), "init fails");
    ref(key, iv, last_seed, gan, gn);
    int early = !genc && mc_choose(2);  /* tag given before the data */
    if (early && !set_tag(tag, A->taglen)) mc_fail(mc_fmt("set-tag:%s", A->sn), "SET_TAG refused");
    if (gzero && !gan && !A->omac && mc_choose(2)) if (!upd(NULL, AADB, 0, 0)) mc_fail(mc_fmt("empty-aad:%s", A->sn), "empty AAD refused");
    feed(NULL, AADB, gan, gparts);
    feed(out, genc ? P : CT, gn, gparts);
    if (gzero && !gn && mc_choose(2)) if (!upd(out, P, 0, 0)) mc_fail(mc_fmt("empty-update:%s", A->sn), "an empty update fails");
    if (memcmp(out, genc ? CT : P, gn)) mc_fail(mc_fmt("wrong-text:%s:%s", A->sn, genc ? "enc" : "dec"), "wrong output for aad %zu text %zu", gan, gn);
    if (!genc && !early && !set_tag(tag, A->taglen)) mc_fail(mc_fmt("set-tag:%s", A->sn), "SET_TAG refused");
    mc_op("final");
    int r = EVP_CipherFinal_ex(C, out, &l);
    if (r != 1) mc_fail(mc_fmt("%s:%s", genc ? "final-fails" : "valid-rejected", A->sn), "final after aad %zu text %zu returns %d", gan, gn, r);
    if (l) mc_fail(mc_fmt("final-length:%s", A->sn), "final reports %d bytes", l);
    if (genc) {
        if (!get_tag(t)) mc_fail(mc_fmt("no-tag:%s", A->sn), "no tag");
        if (memcmp(t, tag, A->taglen)) mc_fail(mc_fmt("wrong-tag:%s", A->sn), "aad %zu text %zu: tag %s expected %s", gan, gn, mc_hex(t, A->taglen), mc_hex(tag, A->taglen));
        if (!A->omac) for (int k = 1; k < A->taglen; k++) {
            u8 *s = malloc(k);
            if (EVP_CIPHER_CTX_ctrl(C, EVP_CTRL_AEAD_GET_TAG, k, s) == 1 && memcmp(s, tag, k)) mc_fail(mc_fmt("short-tag:%s", A->sn), "short tag is not the leading part");
            free(s);
        }
    }
}
/* whole message in one go; 1 if accepted */
static int dec(const u8 *k, const u8 *v, const u8 *seed, const u8 *a, size_t an, const u8 *c, size_t n, const u8 *t, int tn)
{
    int l, r = 1;
    static u8 *out;
    if (!out) out = malloc(MAXM + 64);
    new_ctx();
    mc_trans(1);
    if (!init_dec(k, v, seed)) return 0;
    if (an) r = EVP_CipherUpdate(C, NULL, &l, a, an) == 1;
    if (n) r = r && EVP_CipherUpdate(C, out, &l, c, n) == 1;
    if (!r) return 0;
    if (tn && !set_tag(t, tn)) return 0;
    return EVP_CipherFinal_ex(C, out, &l) == 1;
}
static void must_reject(int acc, const char *what, long i)
{
    mc_n_execs++;
    if (acc) mc_fail(mc_fmt("accepted:%s:%s", A->sn, what), "decryption with %s (%ld) succeeds: aad %zu text %zu", what, i, gan, gn);
}
static void tamper(size_t an, size_t n)
{
    mc_alive();
    u8 *a = malloc(an + 20), *c = malloc(n + 40), t[32], k[32], v[16], s[8];
    gan = an; gn = n;
    mc_reset_trace();
    mc_op("aad %zu text %zu", an, n);
    section = A->cms_section;
    ref(key, iv, sd, an, n);
    memcpy(a, AADB, an); memcpy(c, CT, n); memset(c + n, 0, 40); memset(a + an, 0, 20);
    memcpy(t, tag, 16); memset(t + 16, 0, 16);
    memcpy(k, key, 32); memcpy(v, iv, 16); memcpy(s, sd, 8);
    if (!dec(k, v, s, a, an, c, n, t, A->taglen)) mc_fail(mc_fmt("valid-rejected:%s", A->sn), "the unaltered message is rejected");
#define FLIP(buf, bits, what, from) for (long i = from; i < (long)(bits); i++) { (buf)[i / 8] ^= 0x80 >> (i % 8); \
        must_reject(dec(k, v, s, a, an, c, n, t, A->taglen), "an altered bit in the " what, i); (buf)[i / 8] ^= 0x80 >> (i % 8); }
    FLIP(t, A->taglen * 8, "tag", 0);
    FLIP(c, n * 8, "ciphertext", 0);
    FLIP(a, an * 8, "associated data", 0);
    FLIP(v, A->ivlen * 8, "nonce", A->omac ? 0 : 1);    /* the first bit of an MGM nonce is not used */
    if (an + n <= 8) FLIP(k, 256, "key", 0);
    if (A->omac) FLIP(s, 64, "seed", 0);
    /* every pair of altered tag bits; every byte value of every tag byte */
    if (an + n < 4) for (int i = 0; i < A->taglen * 8; i++) for (int j = i + 1; j < A->taglen * 8; j++) {
        t[i / 8] ^= 1 << (i % 8); t[j / 8] ^= 1 << (j % 8);
        if (an + n < (A->omac ? 2 : 4)) must_reject(dec(k, v, s, a, an, c, n, t, A->taglen), "two altered bits in the tag", i * 1000 + j);
        t[i / 8] ^= 1 << (i % 8); t[j / 8] ^= 1 << (j % 8);
    }
    for (int i = 0; i < A->taglen && an + n < (A->omac ? 2 : 6); i++) { u8 o = t[i]; for (int b = 0; b < 256; b++) { t[i] = b; if (b != o) must_reject(dec(k, v, s, a, an, c, n, t, A->taglen), "a changed tag byte", i); } t[i] = o; }
    /* lengths */
    for (size_t m = 0; m < n; m++) must_reject(dec(k, v, s, a, an, c, m, t, A->taglen), "truncated text", m);
    for (size_t m = n + 1; m < n + 34; m++) must_reject(dec(k, v, s, a, an, c, m, t, A->taglen), "extended text", m);
    if (!A->omac) {
        for (size_t m = 0; m < an; m++) must_reject(dec(k, v, s, a, m, c, n, t, A->taglen), "truncated associated data", m);
        for (size_t m = an + 1; m < an + 18; m++) must_reject(dec(k, v, s, a, m, c, n, t, A->taglen), "extended associated data", m);
        /* bytes moved over the border */
        u8 *j = malloc(an + n + 1);
        memcpy(j, a, an); memcpy(j + an, c, n);
        for (size_t m = 0; m <= an + n; m++) if (m != an) must_reject(dec(k, v, s, j, m, j + m, an + n - m, t, A->taglen), "a moved border", m);
        free(j);
    }
    /* no tag, empty or over-long tag, tag of zeros, of the reversed order */
    must_reject(dec(k, v, s, a, an, c, n, t, 0), "no tag", 0);
    if (A->omac) { for (int m = 0; m < 32; m++) if (m != A->taglen) { new_ctx(); init_dec(k, v, s); int l; static u8 o[4096]; if (n) EVP_CipherUpdate(C, o, &l, c, n); u8 *x = malloc(m ? m : 1); memcpy(x, t, m); omac_set_tag(C, x, m); free(x); must_reject(EVP_CipherFinal_ex(C, o, &l) == 1, "a tag of another length", m); } }
    else for (int m = -2; m < 40; m++) if (m <= 0 || m > A->taglen) {
        new_ctx(); init_dec(k, v, s);
        u8 *x = calloc(1, m > 0 ? m : 1);
        if (EVP_CIPHER_CTX_ctrl(C, EVP_CTRL_AEAD_SET_TAG, m, x) == 1) mc_fail(mc_fmt("bad-tag-size:%s", A->sn), "SET_TAG accepts %d bytes", m);
        free(x);
    } else {    /* a shorter tag is compared as far as it goes */
        /* or refused */
        if (!dec(k, v, s, a, an, c, n, t, m)) continue;
        for (int i = 0; i < m * 8; i++) { t[i / 8] ^= 0x80 >> i % 8; must_reject(dec(k, v, s, a, an, c, n, t, m), "an altered bit in a shorter tag", i); t[i / 8] ^= 0x80 >> i % 8; }
    }
    u8 z[16] = {0};
    must_reject(dec(k, v, s, a, an, c, n, z, A->taglen), "a tag of zeros", 0);
    free(a); free(c);
    mc_count("tampered_messages", 1);
}
/* an MGM nonce for which the first counter of text (Y) or of the
 * multiplier (Z) has the given value; 0 if there is none under this key */
static int nonce_for(int Z, const u8 *want, u8 *nonce)
{
    rbc c;
    rbc_init(&c, A->kind, key, NULL);
    rbc_dec(&c, want, nonce);
    if (!(nonce[0] & 0x80) != !Z) return 0;
    nonce[0] &= 0x7f;
    return 1;
}
static void whole(const u8 *v, size_t an, size_t n, const char *what)
{
    static u8 *out;
    u8 t[16]; int l;
    if (!out) out = malloc(MAXM + 64);
    mc_n_execs++;
    new_ctx();
    if (!init_enc(key, v)) mc_fail(mc_fmt("init:%s", A->sn), "init fails");
    ref(key, v, last_seed, an, n);
    if ((an && EVP_CipherUpdate(C, NULL, &l, AADB, an) != 1) || (n && EVP_CipherUpdate(C, out, &l, P, n) != 1) || EVP_CipherFinal_ex(C, out + n, &l) != 1 || !get_tag(t))
        mc_fail(mc_fmt("enc-fails:%s", A->sn), "encryption fails");
    mc_trans(3);
    if (memcmp(out, CT, n)) mc_fail(mc_fmt("wrong-text:%s:%s", A->sn, what), "aad %zu text %zu nonce %s: wrong ciphertext", an, n, mc_hex(v, A->ivlen));
    if (memcmp(t, tag, A->taglen)) mc_fail(mc_fmt("wrong-tag:%s:%s", A->sn, what), "aad %zu text %zu nonce %s: wrong tag", an, n, mc_hex(v, A->ivlen));
}
static void ae(void *u) { one(u); }
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(1);
    P = malloc(MAXM); AADB = malloc(4096); CT = malloc(MAXM); T2 = malloc(MAXM);
    fill(P, MAXM, 1); fill(AADB, 4096, 2); fill(key, 32, 3); fill(iv, 16, 4); fill(sd, 8, 5); iv[0] &= 0x7f;
    for (int d = 0; d < 4; d++) {
        A = &AD[d];
        int bl = A->bl;
        size_t amax = A->omac ? 0 : 2 * bl + 2;
        /* every pair of lengths */
        for (genc = 0; genc < 2; genc++) for (size_t an = 0; an <= amax; an++)
            MC_CASE("%s %s, associated data %zu, every text length", A->sn, genc ? "encryption" : "decryption", an) {
                for (gn = 0; gn <= (A->omac ? 2100u : 3u * bl + 2); gn++) {
                    gan = an; gparts = 1; gzero = gn <= (A->omac ? 3 * bl : 3) || an < 3;
                    if (!an && !gn && !A->omac) continue;       /* not a message of the standard */
                    mc_explore(ae, NULL);
                }
                mc_outcome("%s: text and tag equal the standard", A->sn);
            }
        /* every cut */
        for (genc = 0; genc < 2; genc++) for (size_t n = 1; n <= 3u * bl + (mc_thorough ? 2 : 1); n++)
            MC_CASE("%s %s of %zu bytes in <=4 pieces", A->sn, genc ? "encryption" : "decryption", n) {
                gan = 0; gn = n; gparts = mc_thorough ? 5 : bl == 8 || (!A->omac && n <= 2u * bl + 1) ? 4 : 3; gzero = 0;
                if (gparts == 5 && n > 2u * bl + 1) gparts = 4;
                mc_explore(ae, NULL);
                if (!A->omac) { gan = n; gn = 0; mc_explore(ae, NULL); }
            }
        if (!A->omac) for (genc = 0; genc < 2; genc++) for (size_t n = 1; n <= bl + 2u; n++)
            MC_CASE("%s %s, associated data and %zu bytes of text, both in <=2 pieces", A->sn, genc ? "encryption" : "decryption", n) {
                for (gan = 1; gan <= bl + 2u; gan++) { gn = n; gparts = 2; gzero = gan == 3 && n == 3; mc_explore(ae, NULL); }
            }
        /* alterations */
        for (size_t an = 0; an <= amax; an += A->omac ? 1 : mc_thorough ? 1 : an < 3 ? 1 : an < 6 ? bl - 3 : 3)
            for (int part = 0; part < (A->omac ? 8 : 2); part++)
            MC_CASE("%s altered messages, associated data %zu, part %d", A->sn, an, part) {
                int k = 0, parts = A->omac ? 8 : 2;
                for (size_t n = 0; n <= (A->omac ? mc_thorough ? 70u : 3u * bl + 1 : 2u * bl + 2); n += mc_thorough || n < 3 || (n % bl >= bl - 1u) || n % bl == 0 ? 1 : 3) {
                    if ((!an && !n && !A->omac) || k++ % parts != part) continue;
                    tamper(an, n);
                }
                mc_outcome("%s: every alteration rejected", A->sn);
                mc_sample("%s aad %zu: every bit of tag, text, data, nonce, seed", A->sn, an);
            }
        if (A->omac) {
            /* re-keying boundaries of message and of the encrypted tag */
            for (int e = 0; e < 2; e++) {
                size_t sec = e ? A->section : A->cms_section;
                for (int k = 1; k <= (e ? 3 : sec > 10000 ? 1 : 2); k++) for (int w = 0; w < 4; w++)
                    MC_CASE("%s %s around %d sections of %zu, part %d", A->sn, e ? "encryption" : "decryption", k, sec, w) {
                        for (size_t n = k * sec - 2 * bl - 2 + w * (bl + 1); n < k * sec - 2 * bl - 2 + (w + 1) * (bl + 1); n++) {
                            int l; u8 t[16];
                            static u8 *out; if (!out) out = malloc(MAXM + 64);
                            for (int cut = 0; cut < 3; cut++) {
                                size_t a = cut == 0 ? n : cut == 1 ? k * sec - bl / 2 : k * sec - 3 * bl;
                                if (a > n) a = n;
                                mc_reset_trace(); mc_op("text %zu cut at %zu", n, a);
                                mc_n_execs++; mc_trans(3);
                                new_ctx();
                                memcpy(last_seed, sd, 8);
                                if (!(e ? init_enc(key, iv) : init_dec(key, iv, sd))) mc_fail(mc_fmt("init:%s", A->sn), "init fails");
                                ref(key, iv, last_seed, 0, n);
                                const u8 *in = e ? P : CT;
                                if (cut == 1) { memcpy(out, in, n); in = out; }
                                if (EVP_CipherUpdate(C, out, &l, in, a) != 1 || (n > a && EVP_CipherUpdate(C, out + a, &l, in + a, n - a) != 1)) mc_fail(mc_fmt("update-fails:%s", A->sn), "update fails");
                                if (memcmp(out, e ? CT : P, n)) mc_fail(mc_fmt("wrong-text:%s:section", A->sn), "text of %zu bytes differs", n);
                                if (!e && !omac_set_tag(C, tag, A->taglen)) mc_fail(mc_fmt("set-tag:%s", A->sn), "SET_TAG");
                                if (EVP_CipherFinal_ex(C, t, &l) != 1) mc_fail(mc_fmt("%s:%s:section", e ? "final-fails" : "valid-rejected", A->sn), "final of %zu bytes fails", n);
                                if (e && (!get_tag(t) || memcmp(t, tag, A->taglen))) mc_fail(mc_fmt("wrong-tag:%s:section", A->sn), "wrong tag of %zu bytes", n);
                                if (sec > 10000 && !mc_thorough) break;
                            }
                        }
                        if (!e) { int s0 = mc_thorough; (void)s0; }
                    }
            }
            continue;
        }
        /* counters of MGM at every carry */
        for (int Z = 0; Z < 2; Z++) MC_CASE("%s counter carries of %s", A->sn, Z ? "Z" : "Y") {
            int h = bl / 2, found = 0;
            for (int nb = 1; nb <= h; nb++) for (int back = 0; back < 4; back++) for (unsigned hi = 0; hi < 64; hi++) {
                u8 w[16], v[16];
                fill(w, 16, 700 + hi);
                u8 *ctr = Z ? w : w + h;
                memset(ctr + h - nb, 0xff, nb);
                if (nb < h) ctr[h - nb - 1] = 0x7f;
                ctr[h - 1] -= back;
                if (!nonce_for(Z, w, v)) continue;
                found++;
                mc_reset_trace(); mc_op("%s = %s", Z ? "Z1" : "Y1", mc_hex(w, bl));
                whole(v, 3 * bl + 1, 4 * bl + 3, "carry");
                whole(v, 0, 6 * bl, "carry");
                whole(v, 6 * bl - 1, 0, "carry");
                break;
            }
            if (found < 2 * h) mc_internal("too few nonces");
            mc_count("mgm_carry_cases", found);
        }
        /* the multiplication on every pair of basis elements: first multiplier H1 = E(Z1) */
        for (int part = 0; part < 16; part++) MC_CASE("%s multiplication, part %d", A->sn, part) {
            rbc c;
            u8 save[32];
            memcpy(save, key, 32);
            for (int i = part; i < bl * 8; i += 16) {
                u8 w[16], z[16], v[16];
                int ok = 0;
                for (unsigned s = 0; s < 40 && !ok; s++) {
                    fill(key, 32, 3000 + s);
                    rbc_init(&c, A->kind, key, NULL);
                    memset(w, 0, 16);
                    w[i / 8] = 0x80 >> i % 8;
                    rbc_dec(&c, w, z);
                    ok = nonce_for(1, z, v);
                }
                if (!ok) mc_internal("no key gives this multiplier");
                for (int j = 0; j < bl * 8; j++) {
                    memset(AADB, 0, bl);
                    AADB[j / 8] = 0x80 >> j % 8;
                    struct { u8 t; } q; (void)q;
                    u8 t[16]; int l; u8 et[16], dummy[16];
                    mc_reset_trace(); mc_op("H1 = bit %d, data = bit %d", i, j);
                    mc_n_execs++; mc_trans(2);
                    new_ctx();
                    if (!init_enc(key, v) || EVP_CipherUpdate(C, NULL, &l, AADB, bl) != 1 || EVP_CipherFinal_ex(C, dummy, &l) != 1 || !get_tag(t)) mc_fail(mc_fmt("enc-fails:%s", A->sn), "encryption fails");
                    ref_mgm(A->kind, key, v, AADB, bl, P, 0, dummy, et);
                    if (memcmp(t, et, bl)) mc_fail(mc_fmt("wrong-product:%s", A->sn), "tag differs: the field product of bits %d and %d is wrong", i, j);
                }
            }
            memcpy(key, save, 32);
            fill(AADB, 4096, 2);
            mc_count("basis_products", bl * 8 / 16 * bl * 8);
        }
        MC_CASE("%s long messages", A->sn) {
            for (size_t n = 0; n < 2; n++) { whole(iv, n ? 4000 : 0, 70000 + 5 * n, "long"); }
        }
    }
    return mc_finish();
}
