/* P19: key derivation trees. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "eng.h"
int gost_kdftree2012_256(unsigned char *, size_t, const unsigned char *, size_t, const unsigned char *, size_t, const unsigned char *, size_t, const size_t);
int gost_tlstree(int, const unsigned char *, unsigned char *, const unsigned char *);
static u8 *dupx(const u8 *b, size_t n) { u8 *x = malloc(n ? n : 1); memcpy(x, b, n); return x; }
static void kdf(size_t L, size_t kl, size_t ll, size_t sl, size_t r, int cls)
{
    u8 k[200], l[200], s[200];
    fill(k, kl, 1); fill(l, ll, 2); fill(s, sl, 3);
    if (cls == 1) { memset(k, 0, kl); memset(l, 0, ll); memset(s, 0, sl); }
    if (cls == 2) { memset(k, 0xff, kl); memset(l, 0xff, ll); memset(s, 0xff, sl); }
    u8 *K = dupx(k, kl), *B = dupx(l, ll), *S = dupx(s, sl), *o = malloc(L ? L : 1), *w = malloc(L ? L : 1);
    mc_reset_trace(); mc_op("length %zu, key %zu, label %zu, seed %zu, R %zu, class %d", L, kl, ll, sl, r, cls);
    mc_n_execs++; mc_trans(1);
    memset(o, 0x5c, L);
    int rc = gost_kdftree2012_256(o, L, K, kl, B, ll, S, sl, r);
    int ok = L && L % 32 == 0 && r >= 1 && r <= 4 && (r == 4 || L / 32 < (1ull << 8 * r));
    if (ok != (rc > 0)) mc_fail(mc_fmt("kdf-verdict:%s", ok ? "refused" : "accepted"), "gost_kdftree2012_256 gives %d for %zu bytes with a counter of %zu bytes", rc, L, r);
    ERR_clear_error();
    if (ok) {
        ref_kdftree(K, kl, B, ll, S, sl, r, L, w);
        if (memcmp(o, w, L)) { size_t i = 0; while (o[i] == w[i]) i++; mc_fail(mc_fmt("kdf-value:R%zu", r), "key differs from byte %zu: %s expected %s", i, mc_hex(o + i / 32 * 32, 32), mc_hex(w + i / 32 * 32, 32)); }
        mc_outcome("standard key");
    } else mc_outcome("unusable length refused");
    free(K); free(B); free(S); free(o); free(w);
}
static void put(u8 *b, uint64_t v) { for (int i = 0; i < 8; i++) b[i] = v >> (56 - 8 * i); }
static void tree(int kind, const u8 *key, uint64_t v)
{
    u8 q[8], w[32]; put(q, v);
    u8 *o = malloc(32), *s = dupx(q, 8), *k = dupx(key, 32);
    mc_reset_trace(); mc_op("record %016llx", (unsigned long long)v);
    mc_n_execs++; mc_trans(1);
    int rc = gost_tlstree(kind == BC_KUZ ? NID_grasshopper_cbc : NID_magma_cbc, k, o, s);
    if (rc <= 0) mc_fail("tree-refused", "gost_tlstree refuses record %s", mc_hex(q, 8));
    ref_tlstree(kind, key, q, w);
    if (memcmp(o, w, 32)) mc_fail(mc_fmt("tree-value:%d", kind), "record %s: key %s expected %s", mc_hex(q, 8), mc_hex(o, 32), mc_hex(w, 32));
    if (memcmp(s, q, 8) || memcmp(k, key, 32)) mc_fail("tree-input", "inputs of gost_tlstree changed");
    /* in place */
    rc = gost_tlstree(kind == BC_KUZ ? NID_grasshopper_cbc : NID_magma_cbc, k, k, s);
    if (rc <= 0 || memcmp(k, w, 32)) mc_fail(mc_fmt("tree-in-place:%d", kind), "record %s: wrong key when written over the root key", mc_hex(q, 8));
    free(o); free(s); free(k);
}
/* records */
static const uint64_t SEQ[] = { 0, 1, 63, 64, 4095, 4096, 0x7ffff, 0x80000, 0x1ffffff, 0x2000000, 0xffffffffull, 0x100000000ull, 0x3fffffffffull, 0x4000000000ull, 0x7fffffffffffffffull, 0xffffffffffffffffull, 0x00ff00ff00ff00ffull };
enum { NSEQ = sizeof SEQ / sizeof *SEQ };
static u8 K[2][32], IV[3][16], *P; enum { PL = 12000 };
static const cdesc *cd(const char *sn) { for (int i = 0; i < NCD; i++) if (!strcmp(CD[i].sn, sn)) return &CD[i]; mc_internal("no cipher"); return NULL; }
static void add_iv(u8 *iv, int n, const u8 *seq) { int c = 0; for (int i = n - 1; i >= 0; i--) { c += iv[i] + seq[8 - n + i]; iv[i] = c; c >>= 8; } }
typedef struct { const cdesc *d; int ki, vi; u8 seq[8]; int tree; size_t pos; size_t section; } rec;
/* bytes of the current record from pos */
static void expect(const rec *m, const u8 *in, u8 *out, size_t n)
{
    cconf f; u8 *a = calloc(1, m->pos + n), *b = malloc(m->pos + n);
    memset(&f, 0, sizeof f); f.d = m->d; f.section = m->section;
    memcpy(f.key, K[m->ki], 32); memcpy(f.iv, IV[m->vi], m->d->ivlen);
    if (m->tree) { ref_tlstree(m->d->kind, K[m->ki], m->seq, f.key); add_iv(f.iv, m->d->ivlen, m->seq); }
    memcpy(a + m->pos, in, n);
    conf_ref(&f, a, b, m->pos + n, 1);
    memcpy(out, b + m->pos, n);
    free(a); free(b);
}
static void data(EVP_CIPHER_CTX *c, rec *m, size_t n, const char *what)
{
    u8 *o = malloc(n + 32), *w = malloc(n + 1); int ol = -1;
    if (EVP_CipherUpdate(c, o, &ol, P, n) != 1 || ol != (int)n) mc_fail(mc_fmt("data:%s", m->d->sn), "processing %zu bytes fails", n);
    expect(m, P, w, n);
    if (memcmp(o, w, n)) { size_t i = 0; while (o[i] == w[i]) i++; mc_fail(mc_fmt("record:%s:%s", m->d->sn, what), "record %s (tree %d): wrong from byte %zu", mc_hex(m->seq, 8), m->tree, m->pos + i); }
    m->pos += n;
    free(o); free(w);
}
typedef struct { const char *sn; int depth; int thorough, enc, vi; } rarg;
static void records(void *x)
{
    rarg *a = x; const cdesc *d = cd(a->sn);
    rec m; memset(&m, 0, sizeof m); m.d = d; m.section = d->defsection;
    static const uint64_t some[] = { 0, 1, 64, 4096, 0x80000, 0x2000000, 0xffffffffffffffffull, 0x00000001ffffffffull };
    int ns = a->thorough ? 8 : 6;
    size_t lens[3] = { 21, d->acpkm ? d->defsection + 5 : 40, d->bl };
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    int enc = a->enc;
    m.vi = a->vi;
    mc_op("%s IV %d; ", enc ? "encrypt" : "decrypt", m.vi);
    if (EVP_CipherInit_ex(c, eng_cipher(d->sn), E, K[0], IV[m.vi], enc) != 1) mc_fail("init", "init");
    int did = 0;
    for (int s = 0; s < a->depth; s++) {
        int op = mc_choose(ns * 2 + 5);
        mc_trans(1);
        if (op < ns * 2) {
            u8 q[8]; int dec = op >= ns; put(q, some[op % ns]);
            mc_op("record %s%s; ", mc_hex(q, 8), dec ? " minus one" : "");
            u8 *qq = dupx(q, 8);
            int r = EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_TLSTREE, dec, qq);
            if (memcmp(q, qq, 8)) mc_fail(mc_fmt("seq-changed:%s", d->sn), "the caller's sequence number is changed");
            free(qq);
            if (r != 1) mc_fail(mc_fmt("ctrl:%s", d->sn), "TLSTREE gives %d", r);
            put(m.seq, some[op % ns] - dec);
            m.tree = 1; m.pos = 0;
            data(c, &m, 17, "start");
            did = 1;
        } else switch (op - ns * 2) {
        case 0: case 1: case 2: mc_op("%zu bytes; ", lens[op - ns * 2]); data(c, &m, lens[op - ns * 2], "more"); did = 1; break;
        case 3: mc_op("new message; "); if (EVP_CipherInit_ex(c, NULL, NULL, K[1], IV[2], enc) != 1) mc_fail("init", "re-init"); m.ki = 1; m.vi = 2; m.tree = 0; m.pos = 0; break;
        case 4: { mc_op("copy; "); EVP_CIPHER_CTX *z = EVP_CIPHER_CTX_new(); if (EVP_CIPHER_CTX_copy(z, c) != 1) mc_fail("copy", "copy"); EVP_CIPHER_CTX_free(c); c = z; break; }
        }
    }
    (void)did;
    data(c, &m, 33, "end");
    mc_n_execs++;
    mc_outcome("records as specified");
    EVP_CIPHER_CTX_free(c);
}
static void every_seq(const char *sn, int full)
{
    const cdesc *d = cd(sn);
    rec m; memset(&m, 0, sizeof m); m.d = d; m.section = d->defsection;
    for (int ki = 0; ki < 2; ki++) for (int vi = 0; vi < 3; vi++) for (int i = 0; i < NSEQ + (full ? 64 * 3 : 64); i++) for (int dec = 0; dec < 2; dec++) {
        uint64_t v = i < NSEQ ? SEQ[i] : i - NSEQ < 64 ? 1ull << (i - NSEQ) : i - NSEQ < 128 ? (1ull << (i - NSEQ - 64)) - 1 : ~(1ull << (i - NSEQ - 128));
        u8 q[8]; put(q, v);
        EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
        mc_reset_trace(); mc_op("key %d IV %d record %s dec %d", ki, vi, mc_hex(q, 8), dec);
        if (EVP_CipherInit_ex(c, eng_cipher(sn), E, K[ki], IV[vi], 1) != 1) mc_fail("init", "init");
        if (EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_TLSTREE, dec, q) != 1) mc_fail(mc_fmt("ctrl:%s", sn), "TLSTREE refused");
        put(m.seq, v - dec); m.tree = 1; m.pos = 0; m.ki = ki; m.vi = vi;
        data(c, &m, 50, "any");
        EVP_CIPHER_CTX_free(c);
        mc_n_execs++; mc_trans(1);
    }
    mc_outcome("records as specified");
}
/* MAC keyed through the tree, the way the TLS layer does: a copy for every record */
static void ref_mac(int kind, const u8 *key, int tree, uint64_t v, const u8 *m, size_t n, u8 *o)
{
    u8 k[32], q[8]; put(q, v); memcpy(k, key, 32);
    if (tree) ref_tlstree(kind, key, q, k);
    ref_omac(kind, k, m, n, o);
}
typedef struct { const char *sn; int depth, ns; } marg;
static void macs(void *x)
{
    marg *a = x; int kind = strstr(a->sn, "magma") ? BC_MAGMA : BC_KUZ; size_t sz = kind == BC_KUZ ? 16 : 8;
    const EVP_MD *md = eng_digest(a->sn);
    static const uint64_t some[] = { 0, 1, 64, 4096, 0xffffffffffffffffull, 0x80000, 0x2000000, 0x00000001ffffffffull };
    EVP_PKEY *k = EVP_PKEY_new_mac_key(EVP_MD_type(md), E, K[0], 32);
    EVP_MD_CTX *base = EVP_MD_CTX_new();
    if (!k || EVP_DigestSignInit(base, NULL, md, E, k) != 1) mc_fail(mc_fmt("mac-init:%s", a->sn), "init");
    int tree = 0; uint64_t v = 0; size_t fed = 0;
    for (int s = 0; s < a->depth; s++) {
        int op = mc_choose(a->ns * 2 + 2);
        mc_trans(1);
        if (op < a->ns) {       /* a record on a copy */
            u8 q[8], o[64], w[16]; size_t ol = sizeof o; put(q, some[op]);
            mc_op("copy, record %s, mac; ", mc_hex(q, 8));
            EVP_MD_CTX *c = EVP_MD_CTX_new();
            if (EVP_MD_CTX_copy_ex(c, base) != 1) mc_fail(mc_fmt("copy:%s", a->sn), "copy");
            if (EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_TLSTREE, 0, q) <= 0) mc_fail(mc_fmt("mac-ctrl:%s", a->sn), "TLSTREE refused");
            size_t n = 13 + 20 * s;
            if (EVP_DigestSignUpdate(c, P, 13) != 1 || EVP_DigestSignUpdate(c, P + 13, n - 13) != 1 || EVP_DigestSignFinal(c, o, &ol) != 1 || ol != sz) mc_fail(mc_fmt("mac:%s", a->sn), "mac fails");
            ref_mac(kind, K[0], 1, some[op], P, n, w);
            if (memcmp(o, w, sz)) mc_fail(mc_fmt("mac-record:%s", a->sn), "record %s: mac %s expected %s", mc_hex(q, 8), mc_hex(o, sz), mc_hex(w, sz));
            EVP_MD_CTX_free(c);
        } else if (op < 2 * a->ns) {    /* on the context itself */
            u8 q[8]; put(q, v = some[op - a->ns]);
            mc_op("record %s in place; ", mc_hex(q, 8));
            if (EVP_MD_CTX_ctrl(base, EVP_MD_CTRL_TLSTREE, 0, q) <= 0) mc_fail(mc_fmt("mac-ctrl:%s", a->sn), "TLSTREE refused");
            tree = 1; fed = 0;
        } else if (op == 2 * a->ns) { mc_op("33 bytes; "); if (fed + 33 > PL) continue; if (EVP_DigestSignUpdate(base, P + fed, 33) != 1) mc_fail("upd", "upd"); fed += 33; if (tree == 0 && 0) tree = 0; }
        else { mc_op("copy replaces; "); EVP_MD_CTX *c = EVP_MD_CTX_new(); if (EVP_MD_CTX_copy_ex(c, base) != 1) mc_fail(mc_fmt("copy:%s", a->sn), "copy"); EVP_MD_CTX_free(base); base = c; }
        /* a copy with data of its own keeps what it has: TLSTREE restarts the record */
        if (op < a->ns && 0) fed = 0;
    }
    u8 o[64], w[16]; size_t ol = sizeof o;
    if (EVP_DigestSignFinal(base, o, &ol) != 1 || ol != sz) mc_fail(mc_fmt("mac:%s", a->sn), "mac fails");
    ref_mac(kind, K[0], tree, v, P, fed, w);
    if (memcmp(o, w, sz)) mc_fail(mc_fmt("mac-own:%s", a->sn), "own mac over %zu bytes %s expected %s", fed, mc_hex(o, sz), mc_hex(w, sz));
    mc_n_execs++;
    mc_outcome("mac as specified");
    EVP_MD_CTX_free(base); EVP_PKEY_free(k);
}
static void mac_raw(const char *sn)
{
    int kind = strstr(sn, "magma") ? BC_MAGMA : BC_KUZ; size_t sz = kind == BC_KUZ ? 16 : 8;
    for (int i = 0; i < NSEQ + 64; i++) for (int size = 1; size <= (int)sz; size += size < 4 ? 1 : 4) {
        uint64_t v = i < NSEQ ? SEQ[i] : 1ull << (i - NSEQ);
        u8 q[8], o[64], w[16]; unsigned ol = 0; put(q, v);
        mc_reset_trace(); mc_op("record %s, size %d", mc_hex(q, 8), size);
        EVP_MD_CTX *c = EVP_MD_CTX_new();
        if (EVP_DigestInit_ex(c, eng_digest(sn), E) != 1) mc_fail("init", "init");
        if (i == 0 && EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_TLSTREE, 0, q) > 0) mc_fail(mc_fmt("no-key:%s", sn), "TLSTREE without a key succeeds");
        ERR_clear_error();
        if (EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_SET_KEY, 32, K[1]) <= 0) mc_fail(mc_fmt("key:%s", sn), "key refused");
        if (EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_XOF_LEN, size, NULL) <= 0) mc_fail(mc_fmt("size:%s", sn), "size refused");
        if (EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_TLSTREE, 0, q) <= 0) mc_fail(mc_fmt("mac-ctrl:%s", sn), "TLSTREE refused");
        if (EVP_DigestUpdate(c, P, 70) != 1 || EVP_DigestFinalXOF(c, o, size) != 1) mc_fail(mc_fmt("mac:%s", sn), "mac fails"); ol = size;
        ref_mac(kind, K[1], 1, v, P, 70, w);
        if (memcmp(o, w, ol)) mc_fail(mc_fmt("mac-record:%s", sn), "record %s size %d: %s expected %s", mc_hex(q, 8), size, mc_hex(o, ol), mc_hex(w, sz));
        EVP_MD_CTX_free(c);
        mc_n_execs++; mc_trans(1);
    }
    mc_outcome("mac as specified");
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(1);
    P = malloc(PL); fill(P, PL, 12); fill(K[0], 32, 7); fill(K[1], 32, 8); fill(IV[0], 16, 9); memset(IV[1], 0xff, 16); memset(IV[2], 0, 16);
    for (size_t r = 0; r < 7; r++) MC_CASE("derivation, counter of %zu bytes", r) {
        static const size_t Ls[] = { 0, 1, 16, 31, 32, 33, 63, 64, 65, 96, 128, 160, 256, 480, 512, 8128, 8160, 8192, 8224 };
        for (unsigned l = 0; l < sizeof Ls / sizeof *Ls; l++) kdf(Ls[l], 32, 8, 8, r, 0);
        for (size_t kl = 0; kl <= 140; kl += kl < 68 ? 1 : 7) for (int c = 0; c < 3; c++) kdf(64, kl, 8, 8, r, c);
        for (size_t ll = 0; ll <= 140; ll++) kdf(64, 32, ll, 8, r, 0);
        for (size_t sl = 0; sl <= 140; sl++) kdf(32, 32, 6, sl, r, 0);
        for (size_t ll = 0; ll <= 20; ll++) for (size_t sl = 0; sl <= 20; sl++) kdf(32, 32, ll, sl, r, 0);
    }
    for (int i = 0; i < (mc_thorough ? 10 : 2); i++) MC_CASE("derivation, long %d", i) { size_t n = i < 2 ? (i ? 8191 : 2048) : 65534 + i; kdf(n * 32, 32, 8, 8, i == 1 && !mc_thorough ? 3 : 2, 0); }
    MC_CASE("L of every byte count") for (size_t L = 32; L <= 32 * 300; L += 32) kdf(L, 32, 8, 16, 2, 0);
    for (int kind = BC_MAGMA; kind <= BC_KUZ; kind++) for (int i = 0; i < 64; i++) MC_CASE("tree %d bit %d", kind, i) {
        for (int j = 0; j <= i; j++) {
            uint64_t v = 1ull << i | 1ull << j;
            tree(kind, K[0], v); tree(kind, K[1], ~v); tree(kind, K[0], v - 1); tree(kind, K[1], (1ull << i) - (1ull << j));
            if (mc_thorough) for (int k = 0; k < j; k++) { tree(kind, K[0], v | 1ull << k); tree(kind, K[0], v - (1ull << k)); tree(kind, K[0], (1ull << i) - (1ull << j) + (1ull << k)); }
        }
        for (int b = 0; b < 256; b++) tree(kind, K[0], (uint64_t)b << (i & ~7) | (uint64_t)(255 - b) << (56 - (i & ~7)));
        mc_outcome("standard key");
    }
    MC_CASE("tree of no cipher") {
        u8 o[32], q[8] = { 0 };
        for (int n = -1; n < 1400; n++) if (n != NID_magma_cbc && n != NID_grasshopper_cbc) { if (gost_tlstree(n, K[0], o, q) > 0) mc_fail("tree-nid", "tree for nid %d", n); mc_n_execs++; mc_trans(1); }
        ERR_clear_error(); mc_outcome("refused");
    }
    static const char *const cs[] = { "magma-ctr", "magma-ctr-acpkm", "kuznyechik-ctr", "kuznyechik-ctr-acpkm" };
    for (int i = 0; i < 4; i++) {
        for (int q = 0; q < 4; q++) MC_CASE("%s records %d", cs[i], q) { rarg a = { cs[i], mc_thorough ? 4 : 3, mc_thorough, q & 1, q >> 1 }; mc_explore(records, &a); }
        MC_CASE("%s every record", cs[i]) every_seq(cs[i], mc_thorough);
    }
    static const char *const ms[] = { "magma-mac", "kuznyechik-mac" };
    for (int i = 0; i < 2; i++) {
        MC_CASE("%s records", ms[i]) { marg a = { ms[i], mc_thorough ? 4 : 3, mc_thorough ? 6 : 5 }; mc_explore(macs, &a); }
        MC_CASE("%s every record", ms[i]) mac_raw(ms[i]);
    }
    static const char *const no[] = { "magma-cbc", "magma-ecb", "kuznyechik-cbc", "kuznyechik-ecb", "kuznyechik-ofb", "kuznyechik-cfb", "gost89", "gost89-cnt", "gost89-cnt-12", "gost89-cbc" };
    for (int i = 0; i < 10; i++) MC_CASE("%s has no tree", no[i]) {
        EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); u8 q[8] = { 0 };
        if (EVP_CipherInit_ex(c, eng_cipher(no[i]), E, K[0], IV[0], 1) != 1) mc_fail("init", "init");
        if (EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_TLSTREE, 0, q) > 0) mc_fail(mc_fmt("tree:%s", no[i]), "TLSTREE accepted");
        EVP_CIPHER_CTX_free(c); ERR_clear_error(); mc_n_execs++; mc_trans(1); mc_outcome("refused");
    }
    return mc_finish();
}
