/* P07: symmetric key wrapping. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "eng.h"
#include <openssl/evp.h>
extern int gost_kexp15(const u8 *, const int, int, const u8 *, int, u8 *, const u8 *, const size_t, u8 *, int *);
extern int gost_kimp15(const u8 *, const size_t, int, const u8 *, int, u8 *, const u8 *, const size_t, u8 *);
#include "gost89.h"
extern int keyWrapCryptoPro(gost_ctx *, const u8 *, const u8 *, const u8 *, u8 *);
extern int keyUnwrapCryptoPro(gost_ctx *, const u8 *, const u8 *, u8 *);
extern void keyDiversifyCryptoPro(gost_ctx *, const u8 *, const u8 *, u8 *);
#ifndef NID_kuznyechik_mac
# define NID_kuznyechik_mac NID_grasshopper_mac
#endif
static const struct { const char *sn, *wrap; int kind, bl, ivlen, wl; } A[2] = {
    { "magma", "magma-kexp15", BC_MAGMA, 8, 4, 40 }, { "kuznyechik", "kuznyechik-kexp15", BC_KUZ, 16, 8, 48 },
};
static int cn(int a) { return a ? NID_grasshopper_ctr : NID_magma_ctr; }
static int mn(int a) { return a ? NID_kuznyechik_mac : NID_magma_mac; }
static int a;
static u8 ck[32], mk[32], iv[16], sk[64], w[64], ref[64];
static u8 *dup_(const u8 *p, size_t n) { u8 *q = malloc(n ? n : 1); memcpy(q, p, n); return q; }
static void keys(unsigned s)
{
    fill(ck, 32, s); fill(mk, 32, s + 1); fill(iv, 16, s + 2); fill(sk, 64, s + 3);
    if (s == 1) { memset(ck, 0, 32); memset(mk, 0, 32); memset(iv, 0, 16); memset(sk, 0, 64); }
    if (s == 2) { memset(ck, 255, 32); memset(mk, 255, 32); memset(iv, 255, 16); memset(sk, 255, 64); }
    ref_kexp15(A[a].kind, ck, mk, iv, A[a].ivlen, sk, 32, ref);
}
/* 1 if unwrapped; all buffers have their exact size */
static int imp(const u8 *x, size_t n, const u8 *c, const u8 *m, const u8 *v, u8 *out)
{
    u8 *xx = dup_(x, n), *cc = dup_(c, 32), *mm = dup_(m, 32), *vv = dup_(v, A[a].ivlen), *oo = malloc(32);
    rng_reset(RNG_STREAM);
    memset(oo, 0xA5, 32);
    int r = gost_kimp15(xx, n, cn(a), cc, mn(a), mm, vv, A[a].ivlen, oo);
    memcpy(out, oo, 32);
    free(xx); free(cc); free(mm); free(vv); free(oo);
    mc_trans(1);
    mc_n_execs++;
    return r > 0;
}
static EVP_CIPHER_CTX *C;
static int gcut;
/* through the wrap cipher; every cut if the explorer drives it */
static int unwrap_evp(const u8 *x, size_t n, const u8 *c, const u8 *m, const u8 *v, u8 *out, int parts, int final)
{
    u8 kk[64], vv[8];
    int l, tot = 0, ok;
    EVP_CIPHER_CTX_free(C);
    C = EVP_CIPHER_CTX_new();
    EVP_CIPHER_CTX_set_flags(C, EVP_CIPHER_CTX_FLAG_WRAP_ALLOW);
    memcpy(kk, m, 32); memcpy(kk + 32, c, 32); memcpy(vv, v, A[a].ivlen);
    ok = EVP_DecryptInit_ex(C, eng_cipher(A[a].wrap), E, kk, vv);
    memset(kk, 0x5c, 64); memset(vv, 0x5c, 8);
    if (ok != 1) mc_fail(mc_fmt("wrap-init:%s", A[a].sn), "init of the wrap cipher fails");
    u8 *ob = malloc(32);
    size_t o = 0;
    while (ok == 1 && o < n) {
        size_t s = parts <= 1 ? n - o : (size_t)mc_choose(n - o) + 1;
        parts--;
        u8 *in = dup_(x + o, s);
        mc_op("update(%zu)", s);
        l = -1;
        ok = EVP_CipherUpdate(C, ob, &l, in, s);
        if (ok == 1 && l > 0) { tot += l; memcpy(out, ob, 32); }
        free(in);
        o += s;
        mc_trans(1);
    }
    u8 *fb = malloc(32);
    if (ok == 1 && final) { l = 0; ok = EVP_CipherFinal_ex(C, fb, &l); if (ok == 1) tot += l; }
    free(ob); free(fb);
    mc_n_execs++;
    if (ok == 1 && tot != 32 && (final || o >= (size_t)A[a].wl))
        mc_fail(mc_fmt("wrap-no-key-success:%s", A[a].sn), "%zu bytes unwrapped with success, but %d bytes of key came out", n, tot);
    return ok == 1 && tot == 32;
}
static void cuts(void *u)
{
    u8 o[64];
    mc_reset_trace();
    if (!unwrap_evp(ref, A[a].wl, ck, mk, iv, o, gcut, mc_choose(2)) || memcmp(o, sk, 32))
        mc_fail(mc_fmt("unwrap-evp:%s", A[a].sn), "the wrap cipher does not return the key");
}
static void bad(int acc, const char *what, int i)
{
    if (acc) mc_fail(mc_fmt("accepted:%s:%s", A[a].sn, what), "unwrapping succeeds with %s (%d)", what, i);
}
/* history on one wrap context */
static void hist(void *u)
{
    u8 kk[64], out[64], x[64];
    int l, have_iv = 0, k = 0;
    mc_reset_trace();
    EVP_CIPHER_CTX_free(C);
    C = EVP_CIPHER_CTX_new();
    EVP_CIPHER_CTX_set_flags(C, EVP_CIPHER_CTX_FLAG_WRAP_ALLOW);
    memcpy(kk, mk, 32); memcpy(kk + 32, ck, 32);
    if (mc_choose(2)) { if (EVP_DecryptInit_ex(C, eng_cipher(A[a].wrap), E, kk, iv) != 1) mc_fail("wrap-init", "init"); }
    else {          /* in steps */
        mc_op("init(cipher), then init(iv), then init(key)");
        if (EVP_DecryptInit_ex(C, eng_cipher(A[a].wrap), E, NULL, NULL) != 1 || EVP_DecryptInit_ex(C, NULL, NULL, NULL, iv) != 1
            || EVP_DecryptInit_ex(C, NULL, NULL, kk, NULL) != 1) mc_fail("wrap-init", "init");
    }
    for (int i = 0; i < (mc_thorough ? 3 : 2); i++) {
        int op = mc_choose(5);
        memcpy(x, ref, 48);
        mc_op("op %d", op);
        switch (op) {
        case 0: EVP_CipherUpdate(C, out, &l, x, 7); break;                      /* abandoned */
        case 1: x[3] ^= 1; EVP_CipherUpdate(C, out, &l, x, A[a].wl); break;     /* altered */
        case 2: EVP_CipherUpdate(C, out, &l, x, A[a].wl); break;                /* good */
        case 3: EVP_CipherUpdate(C, out, &l, x, A[a].wl); EVP_CipherFinal_ex(C, out, &l); break;
        case 4: EVP_CipherUpdate(C, NULL, &l, x, A[a].wl); break;               /* size query */
        }
        int r;
        switch (mc_choose(3)) {
        case 0: mc_op("init(key,iv)"); r = EVP_DecryptInit_ex(C, NULL, NULL, kk, iv); break;
        case 1: mc_op("init(iv)"); r = EVP_DecryptInit_ex(C, NULL, NULL, NULL, iv); break;
        case 2: mc_op("init(key)"); r = EVP_DecryptInit_ex(C, NULL, NULL, kk, NULL); break;
        }
        if (r != 1) mc_fail(mc_fmt("wrap-reinit:%s", A[a].sn), "re-initialisation fails");
        mc_trans(2);
    }
    memset(out, 0, 64);
    l = 0;
    if (mc_choose(2)) { if (EVP_CipherUpdate(C, NULL, &l, ref, A[a].wl) != 1 || l != 32) mc_fail(mc_fmt("size-query:%s", A[a].sn), "size query gives %d", l); }
    if (EVP_CipherUpdate(C, out, &l, ref, A[a].wl) != 1 || l != 32 || memcmp(out, sk, 32)) mc_fail(mc_fmt("stale-wrap:%s", A[a].sn), "unwrapping after re-initialisation fails");
    if (EVP_CipherUpdate(C, out, &l, ref, 1) == 1 && l) mc_fail(mc_fmt("extended-accepted:%s", A[a].sn), "a further byte is accepted");
}
static void cp_case(int sbi, const u8 *kek, const u8 *ukm, const u8 *key, int flips)
{
    static const struct { gost_subst_block *b; } SB[6] = {
        { &Gost28147_TC26ParamSetZ }, { &Gost28147_CryptoProParamSetA }, { &Gost28147_CryptoProParamSetB },
        { &Gost28147_CryptoProParamSetC }, { &Gost28147_CryptoProParamSetD }, { &Gost28147_TestParamSet } };
    gost_ctx g;
    u8 e[44], d[32];
    u8 *o = malloc(44), *k2 = dup_(kek, 32), *u2 = dup_(ukm, 8), *s2 = dup_(key, 32), *div = malloc(32), *back = malloc(32);
    mc_n_execs++; mc_trans(3);
    rng_reset(RNG_STREAM);
    gost_init(&g, SB[sbi].b);
    ref_cp_diversify(kek, *SBSEL[sbi].sb, ukm, d);
    ref_cp_wrap(kek, *SBSEL[sbi].sb, ukm, key, e);
    keyDiversifyCryptoPro(&g, k2, u2, div);
    if (memcmp(div, d, 32)) mc_fail("diversify", "S-box %s ukm %s: diversified key %s expected %s", SBSEL[sbi].name, mc_hex(ukm, 8), mc_hex(div, 32), mc_hex(d, 32));
    if (keyWrapCryptoPro(&g, k2, u2, s2, o) != 1 || memcmp(o, e, 44)) mc_fail("wrap-cp", "S-box %s ukm %s: wrapped %s expected %s", SBSEL[sbi].name, mc_hex(ukm, 8), mc_hex(o, 44), mc_hex(e, 44));
    if (memcmp(k2, kek, 32) || memcmp(u2, ukm, 8) || memcmp(s2, key, 32)) mc_fail("wrap-cp-input", "wrapping changes its inputs");
    if (keyUnwrapCryptoPro(&g, k2, o, back) != 1 || memcmp(back, key, 32)) mc_fail("unwrap-cp", "unwrapping does not return the key");
    if (flips) for (int i = 0; i < 352; i++) {
        o[i / 8] ^= 1 << i % 8;
        mc_n_execs++; mc_trans(1);
        if (keyUnwrapCryptoPro(&g, k2, o, back) != 0) mc_fail("accepted:cp", "unwrapping succeeds with altered bit %d", i);
        o[i / 8] ^= 1 << i % 8;
    }
    if (flips) for (int i = 0; i < 256; i++) {
        k2[i / 8] ^= 1 << i % 8;
        mc_n_execs++; mc_trans(1);
        if (keyUnwrapCryptoPro(&g, k2, o, back) != 0) mc_fail("accepted:cp-key", "unwrapping succeeds with altered key bit %d", i);
        k2[i / 8] ^= 1 << i % 8;
    }
    /* the same context goes on working */
    if (keyUnwrapCryptoPro(&g, k2, o, back) != 1 || memcmp(back, key, 32)) mc_fail("unwrap-cp-again", "unwrapping after failures does not return the key");
    free(o); free(k2); free(u2); free(s2); free(div); free(back);
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(1);
    u8 out[64];
    for (a = 0; a < 2; a++) {
        int wl = A[a].wl;
        for (unsigned s = 1; s < (mc_thorough ? 400 : 40); s++)
            MC_CASE("%s kexp15 values, keys %u", A[a].sn, s) {
                keys(s);
                /* every length of key, every size of the output buffer */
                for (int n = 1; n <= 48; n++) {
                    u8 e[80];
                    ref_kexp15(A[a].kind, ck, mk, iv, A[a].ivlen, sk, n, e);
                    for (int room = s < 4 ? 0 : n + A[a].bl; room <= n + A[a].bl + 1; room++) {
                        u8 *o = malloc(room ? room : 1), *k = dup_(sk, n), *c = dup_(ck, 32), *m = dup_(mk, 32), *v = dup_(iv, A[a].ivlen);
                        int ol = room;
                        rng_reset(RNG_STREAM);
                        mc_reset_trace(); mc_op("key of %d bytes, room %d", n, room);
                        int r = gost_kexp15(k, n, cn(a), c, mn(a), m, v, A[a].ivlen, o, &ol);
                        mc_n_execs++; mc_trans(1);
                        if (room < n + A[a].bl) { if (r > 0) mc_fail(mc_fmt("kexp-small:%s", A[a].sn), "success with %d bytes of room for %d", room, n + A[a].bl); }
                        else if (r != 1 || ol != n + A[a].bl || memcmp(o, e, ol)) mc_fail(mc_fmt("kexp-value:%s", A[a].sn), "key of %d bytes: wrong wrapped key", n);
                        free(o); free(k); free(c); free(m); free(v);
                    }
                }
                if (!imp(ref, wl, ck, mk, iv, out) || memcmp(out, sk, 32)) mc_fail(mc_fmt("kimp:%s", A[a].sn), "kimp15 does not return the key");
                mc_outcome("%s wrapped keys equal the standard", A[a].sn);
            }
        for (unsigned s = 1; s < 9; s++) for (int api = 0; api < 2; api++)
            MC_CASE("%s altered wrapped keys, keys %u, %s", A[a].sn, s, api ? "wrap cipher" : "kimp15") {
                keys(s);
                u8 c[32], m[32], v[16];
                memcpy(c, ck, 32); memcpy(m, mk, 32); memcpy(v, iv, 16);
                memcpy(w, ref, 64); memset(w + wl, 0, 64 - wl);
#define TRY(n) (mc_reset_trace(), api ? unwrap_evp(w, n, c, m, v, out, 1, 1) : imp(w, n, c, m, v, out))
                if (!TRY(wl) || memcmp(out, sk, 32)) mc_fail(mc_fmt("unwrap:%s", A[a].sn), "the unaltered key is refused");
                for (int i = 0; i < wl * 8; i++) { w[i / 8] ^= 1 << i % 8; bad(TRY(wl), "an altered bit", i); w[i / 8] ^= 1 << i % 8; }
                for (int i = 0; i < wl; i++) { u8 o = w[i]; for (int b = 0; b < 256; b += mc_thorough ? 1 : 5) { w[i] = b; if (b != o) bad(TRY(wl), "a changed byte", i); } w[i] = o; }
                for (int i = 0; i < 256; i++) { c[i / 8] ^= 1 << i % 8; bad(TRY(wl), "another cipher key", i); c[i / 8] ^= 1 << i % 8; }
                for (int i = 0; i < 256; i++) { m[i / 8] ^= 1 << i % 8; bad(TRY(wl), "another MAC key", i); m[i / 8] ^= 1 << i % 8; }
                for (int i = 0; i < A[a].ivlen * 8; i++) { v[i / 8] ^= 1 << i % 8; bad(TRY(wl), "another IV", i); v[i / 8] ^= 1 << i % 8; }
                for (int n = 0; n < 64; n++) if (n != wl) bad(TRY(n), n < wl ? "truncation" : "extension", n);
                for (int i = 0; i < wl; i++) { memmove(w + i, w + i + 1, wl - i - 1); bad(TRY(wl - 1), "a removed byte", i); memcpy(w, ref, wl); }
                memset(w, 0, 64); bad(TRY(wl), "zeros", 0);
                mc_outcome("%s altered keys refused", A[a].sn);
            }
        MC_CASE("%s wrapped keys with a 00 or FF byte in the MAC", A[a].sn) {
            int seen[16][2] = { { 0 } };
            for (unsigned s = 100; s < 3000; s++) {
                keys(s);
                for (int i = 32; i < wl; i++) for (int z = 0; z < 2; z++) if (ref[i] == (z ? 0xff : 0) && seen[i - 32][z] < 2) {
                    seen[i - 32][z]++;
                    mc_reset_trace(); mc_op("keys %u", s);
                    memcpy(w, ref, 64);
                    if (!imp(w, wl, ck, mk, iv, out) || memcmp(out, sk, 32)) mc_fail(mc_fmt("kimp:%s", A[a].sn), "valid key refused");
                    for (int k = 0; k < wl * 8; k++) { w[k / 8] ^= 1 << k % 8; bad(imp(w, wl, ck, mk, iv, out), "an altered bit", k); w[k / 8] ^= 1 << k % 8; }
                }
            }
        }
        /* a truncated key must not be completed from anything left behind */
        for (int part = 0; part < 8; part++) MC_CASE("%s truncated by one byte, many keys, part %d", A[a].sn, part) {
            for (unsigned s = 100 + part; s < (mc_thorough ? 6000 : 1500); s += 8) {
                keys(s);
                mc_reset_trace(); mc_op("keys %u", s);
                if (!imp(ref, wl, ck, mk, iv, out)) mc_fail(mc_fmt("kimp:%s", A[a].sn), "valid key refused");
                bad(imp(ref, wl - 1, ck, mk, iv, out), "truncation after the same key was unwrapped", s);
            }
        }
        for (int n = 1; n <= (mc_thorough ? 4 : 3); n++)
            MC_CASE("%s wrap cipher, wrapped key in <=%d pieces", A[a].sn, n) { keys(5); gcut = n; mc_explore(cuts, NULL); }
        MC_CASE("%s wrap cipher histories", A[a].sn) { keys(6); mc_explore(hist, NULL); mc_sample("%s: two abandoned/failed/finished unwraps, then one more", A[a].sn); }
        MC_CASE("%s wrap cipher, unusable ciphers", A[a].sn) {
            u8 o[64]; int ol = 64;
            keys(5);
            static const int nid[] = { NID_magma_cbc, NID_grasshopper_cbc, NID_id_Gost28147_89, 0, -1, NID_aes_128_ctr };
            for (int i = 0; i < 6; i++) {
                if (gost_kexp15(sk, 32, nid[i], ck, mn(a), mk, iv, A[a].ivlen, o, &ol) > 0) mc_fail("kexp-cipher", "kexp15 succeeds with cipher %d", nid[i]);
                if (gost_kimp15(ref, wl, nid[i], ck, mn(a), mk, iv, A[a].ivlen, o) > 0) mc_fail("kimp-cipher", "kimp15 succeeds with cipher %d", nid[i]);
                mc_n_execs += 2;
            }
        }
    }
    for (int sb = 0; sb < 6; sb++) {
        u8 kek[32], ukm[8], key[32];
        for (unsigned s = 0; s < 4; s++) MC_CASE("CryptoPro wrap, S-box %s, keys %u, every UKM byte", SBSEL[sb].name, s) {
            fill(kek, 32, 40 + s); fill(key, 32, 50 + s); fill(ukm, 8, 60 + s);
            if (s == 1) { memset(kek, 0, 32); memset(key, 0, 32); memset(ukm, 0, 8); }
            if (s == 2) { memset(kek, 255, 32); memset(key, 255, 32); memset(ukm, 255, 8); }
            cp_case(sb, kek, ukm, key, 1);
            for (int i = 0; i < 8; i++) for (int b = 0; b < 256; b++) { u8 u[8]; memcpy(u, ukm, 8); u[i] = b; cp_case(sb, kek, u, key, mc_thorough); }
            mc_outcome("CryptoPro wrap equals RFC 4357 with %s", SBSEL[sb].name);
        }
        MC_CASE("CryptoPro wrap, S-box %s, MACs with a 00 or FF byte", SBSEL[sb].name) {
            u8 e[44];
            int seen[4][2] = { { 0 } };
            fill(kek, 32, 70);
            for (unsigned s = 0; s < 8000; s++) {
                fill(key, 32, 3000 + s); fill(ukm, 8, 3 + s);
                ref_cp_wrap(kek, *SBSEL[sb].sb, ukm, key, e);
                for (int i = 0; i < 4; i++) for (int z = 0; z < 2; z++) if (e[40 + i] == (z ? 0xff : 0) && seen[i][z] < 2) { seen[i][z]++; cp_case(sb, kek, ukm, key, 1); }
            }
            for (int i = 0; i < 4; i++) for (int z = 0; z < 2; z++) if (!seen[i][z]) mc_internal("no MAC with such a byte");
        }
        for (int part = 0; part < 2; part++) MC_CASE("CryptoPro wrap, S-box %s, single-bit keys, part %d", SBSEL[sb].name, part) {
            fill(ukm, 8, 9);
            for (int i = 0; i < 256; i++) {
                memset(kek, 0, 32); memset(key, 0, 32);
                (part ? key : kek)[i / 8] = 1 << i % 8;
                cp_case(sb, kek, ukm, key, i % 64 == 0);
                memset(kek, 255, 32); memset(key, 255, 32);
                (part ? key : kek)[i / 8] ^= 1 << i % 8;
                cp_case(sb, kek, ukm, key, i % 64 == 0);
            }
        }
    }
    return mc_finish();
}
