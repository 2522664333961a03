#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "refdata.h"
sbox_t RSB_HASH_TEST = SB_HASH_TEST, RSB_HASH_CP = SB_HASH_CP, RSB_TEST = SB_TEST, RSB_A = SB_A,
       RSB_B = SB_B, RSB_C = SB_C, RSB_D = SB_D, RSB_Z = SB_Z;

/* ---- GOST 28147-89 / Magma ---- */
static uint32_t le32(const u8 *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static uint32_t be32(const u8 *p) { return p[3] | p[2] << 8 | p[1] << 16 | (uint32_t)p[0] << 24; }
static void st32(u8 *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static uint32_t g_f(const rbc *c, uint32_t x, uint32_t k)
{
    uint32_t t = x + k, r = 0;
    for (int i = 0; i < 8; i++)
        r |= (uint32_t)c->sb[i][(t >> (4 * i)) & 15] << (4 * i);
    return r << 11 | r >> 21;
}
static void g_rounds(const rbc *c, u8 *b, const int *ks, int n, int lastswap)
{
    uint32_t n1 = le32(b), n2 = le32(b + 4);
    for (int i = 0; i < n; i++) {
        uint32_t t = n2 ^ g_f(c, n1, c->k[ks[i]]);
        n2 = n1;
        n1 = t;
    }
    if (lastswap) { uint32_t t = n1; n1 = n2; n2 = t; }
    st32(b, n1);
    st32(b + 4, n2);
}
static const int KS_ENC[32] = {0,1,2,3,4,5,6,7,0,1,2,3,4,5,6,7,0,1,2,3,4,5,6,7,7,6,5,4,3,2,1,0};
static const int KS_DEC[32] = {0,1,2,3,4,5,6,7,7,6,5,4,3,2,1,0,7,6,5,4,3,2,1,0,7,6,5,4,3,2,1,0};
void rbc_mac_step(const rbc *c, u8 *st, const u8 *blk)
{
    for (int i = 0; i < 8; i++) st[i] ^= blk[i];
    g_rounds(c, st, KS_ENC, 16, 0);
}
/* ---- Kuznyechik ---- */
static u8 gfm(u8 a, u8 b)
{
    unsigned r = 0, x = a;
    for (; b; b >>= 1) {
        if (b & 1) r ^= x;
        x <<= 1;
        if (x & 0x100) x ^= 0x1C3;
    }
    return r;
}
static const u8 LV[16] = {148,32,133,16,194,192,1,251,1,192,194,16,133,32,148,1};
static u8 MT[16][256], PINV[256];
static int kz_ready;
static void kz_setup(void)
{
    if (kz_ready) return;
    for (int i = 0; i < 16; i++) for (int x = 0; x < 256; x++) MT[i][x] = gfm(x, LV[i]);
    for (int i = 0; i < 256; i++) PINV[PI[i]] = i;
    kz_ready = 1;
}
static void kz_L(u8 *w)
{
    for (int j = 0; j < 16; j++) {
        u8 x = 0;
        for (int i = 0; i < 16; i++) x ^= MT[i][w[i]];
        memmove(w + 1, w, 15);
        w[0] = x;
    }
}
static void kz_Li(u8 *w)
{
    for (int j = 0; j < 16; j++) {
        u8 t = w[0], x;
        memmove(w, w + 1, 15);
        w[15] = t;
        x = 0;
        for (int i = 0; i < 16; i++) x ^= MT[i][w[i]];
        w[15] = x;
    }
}
static void kz_LSX(u8 *w, const u8 *k)
{
    for (int i = 0; i < 16; i++) w[i] = PI[w[i] ^ k[i]];
    kz_L(w);
}
void (*ref_secret)(const u8 *, size_t, const char *);
void rbc_init(rbc *c, int kind, const u8 *key, sbox_t sb)
{
    if (ref_secret) ref_secret(key, 32, "cipher key");
    memset(c, 0, sizeof *c);
    c->kind = kind;
    memcpy(c->key, key, 32);
    if (kind == BC_KUZ) {
        kz_setup();
        c->bl = 16;
        u8 a[16], b[16], t[16];
        memcpy(a, key, 16);
        memcpy(b, key + 16, 16);
        memcpy(c->rk[0], a, 16);
        memcpy(c->rk[1], b, 16);
        for (int i = 1; i <= 32; i++) {
            u8 C[16] = {0};
            C[15] = i;
            kz_L(C);
            memcpy(t, a, 16);
            kz_LSX(t, C);
            for (int j = 0; j < 16; j++) t[j] ^= b[j];
            memcpy(b, a, 16);
            memcpy(a, t, 16);
            if (i % 8 == 0) {
                memcpy(c->rk[i / 4], a, 16);
                memcpy(c->rk[i / 4 + 1], b, 16);
            }
        }
        return;
    }
    c->bl = 8;
    c->sb = kind == BC_MAGMA ? SB_Z : sb;
    for (int i = 0; i < 8; i++)
        c->k[i] = kind == BC_MAGMA ? be32(key + 4 * i) : le32(key + 4 * i);
}
static void rev8(const u8 *in, u8 *out) { u8 t[8]; for (int i = 0; i < 8; i++) t[i] = in[7 - i]; memcpy(out, t, 8); }
void rbc_enc(const rbc *c, const u8 *in, u8 *out)
{
    u8 b[16];
    if (c->kind == BC_KUZ) {
        memcpy(b, in, 16);
        for (int i = 0; i < 9; i++) kz_LSX(b, c->rk[i]);
        for (int i = 0; i < 16; i++) out[i] = b[i] ^ c->rk[9][i];
        return;
    }
    if (c->kind == BC_MAGMA) rev8(in, b); else memcpy(b, in, 8);
    g_rounds(c, b, KS_ENC, 32, 1);
    if (c->kind == BC_MAGMA) rev8(b, out); else memcpy(out, b, 8);
}
void rbc_dec(const rbc *c, const u8 *in, u8 *out)
{
    u8 b[16];
    if (c->kind == BC_KUZ) {
        for (int i = 0; i < 16; i++) b[i] = in[i] ^ c->rk[9][i];
        for (int r = 8; r >= 0; r--) {
            kz_Li(b);
            for (int i = 0; i < 16; i++) b[i] = PINV[b[i]] ^ c->rk[r][i];
        }
        memcpy(out, b, 16);
        return;
    }
    if (c->kind == BC_MAGMA) rev8(in, b); else memcpy(b, in, 8);
    g_rounds(c, b, KS_DEC, 32, 1);
    if (c->kind == BC_MAGMA) rev8(b, out); else memcpy(out, b, 8);
}
/* ---- modes ---- */
void ref_ecb(const rbc *c, const u8 *in, u8 *out, size_t n, int enc)
{
    for (size_t i = 0; i + c->bl <= n; i += c->bl) enc ? rbc_enc(c, in + i, out + i) : rbc_dec(c, in + i, out + i);
}
void ref_cbc(const rbc *c, const u8 *iv, const u8 *in, u8 *out, size_t n, int enc)
{
    u8 v[16], t[16], x[16];
    memcpy(v, iv, c->bl);
    for (size_t i = 0; i + c->bl <= n; i += c->bl) {
        memcpy(t, in + i, c->bl);
        if (enc) {
            for (int j = 0; j < c->bl; j++) v[j] ^= t[j];
            rbc_enc(c, v, v);
            memcpy(out + i, v, c->bl);
        } else {
            rbc_dec(c, t, x);
            for (int j = 0; j < c->bl; j++) out[i + j] = x[j] ^ v[j];
            memcpy(v, t, c->bl);
        }
    }
}
void ref_cfb(const rbc *c, const u8 *iv, const u8 *in, u8 *out, size_t n, int enc)
{
    u8 v[16], g[16];
    memcpy(v, iv, c->bl);
    for (size_t i = 0; i < n; i++) {
        int j = i % c->bl;
        if (j == 0) rbc_enc(c, v, g);
        u8 x = in[i], y = x ^ g[j];
        v[j] = enc ? y : x;
        out[i] = y;
    }
}
void ref_ofb(const rbc *c, const u8 *iv, const u8 *in, u8 *out, size_t n)
{
    u8 v[16];
    memcpy(v, iv, c->bl);
    for (size_t i = 0; i < n; i++) {
        if (i % c->bl == 0) rbc_enc(c, v, v);
        out[i] = in[i] ^ v[i % c->bl];
    }
}
static void inc_be(u8 *p, int n) { while (n-- && ++p[n] == 0) ; }
static void acpkm(rbc *c)
{
    u8 D[32], nk[32];
    for (int i = 0; i < 32; i++) D[i] = 0x80 + i;
    for (int i = 0; i < 32; i += c->bl) rbc_enc(c, D + i, nk + i);
    rbc_init(c, c->kind, nk, c->sb);
}
void ref_ctr(const rbc *c0, const u8 *iv, const u8 *in, u8 *out, size_t n, size_t section)
{
    rbc c = *c0;
    u8 v[16], g[16];
    memcpy(v, iv, c.bl);
    for (size_t i = 0; i < n; i++) {
        if (i % c.bl == 0) {
            if (section && i && i % section == 0) acpkm(&c);
            rbc_enc(&c, v, g);
            inc_be(v, c.bl);
        }
        out[i] = in[i] ^ g[i % c.bl];
    }
}
void ref_cp_mesh(u8 *key, sbox_t sb, u8 *iv)
{
    rbc c;
    u8 nk[32];
    rbc_init(&c, BC_G89, key, sb);
    for (int i = 0; i < 32; i += 8) rbc_dec(&c, CP_MESH + i, nk + i);
    memcpy(key, nk, 32);
    if (iv) {
        rbc_init(&c, BC_G89, key, sb);
        rbc_enc(&c, iv, iv);
    }
}
void ref_g89_cfb(const u8 *key0, sbox_t sb, const u8 *iv, int mesh, const u8 *in, u8 *out, size_t n, int enc)
{
    u8 key[32], v[8], g[8];
    rbc c;
    memcpy(key, key0, 32);
    memcpy(v, iv, 8);
    rbc_init(&c, BC_G89, key, sb);
    for (size_t i = 0; i < n; i++) {
        int j = i % 8;
        if (j == 0) {
            if (mesh && i && i % 1024 == 0) {
                ref_cp_mesh(key, sb, v);
                rbc_init(&c, BC_G89, key, sb);
            }
            rbc_enc(&c, v, g);
        }
        u8 x = in[i], y = x ^ g[j];
        v[j] = enc ? y : x;
        out[i] = y;
    }
}
void ref_g89_cnt(const u8 *key0, sbox_t sb, const u8 *iv, int mesh, const u8 *in, u8 *out, size_t n)
{
    u8 key[32], v[8], g[8];
    rbc c;
    memcpy(key, key0, 32);
    rbc_init(&c, BC_G89, key, sb);
    rbc_enc(&c, iv, v);
    for (size_t i = 0; i < n; i++) {
        if (i % 8 == 0) {
            if (mesh && i && i % 1024 == 0) {
                ref_cp_mesh(key, sb, v);
                rbc_init(&c, BC_G89, key, sb);
            }
            /* N3 = N3 + C2 mod 2^32, N4 = N4 + C1 mod (2^32 - 1) */
            st32(v, le32(v) + 0x01010101u);
            uint64_t s = (uint64_t)le32(v + 4) + 0x01010104u;
            s = (s & 0xffffffffu) + (s >> 32);
            st32(v + 4, (uint32_t)s);
            rbc_enc(&c, v, g);
        }
        out[i] = in[i] ^ g[i % 8];
    }
}
/* ---- MACs ---- */
static void imit(const u8 *key0, sbox_t sb, const u8 *iv, int mesh, const u8 *m, size_t n, u8 *out)
{
    u8 key[32], st[8] = {0}, z[8];
    rbc c;
    size_t i;
    memcpy(key, key0, 32);
    if (iv) memcpy(st, iv, 8);
    rbc_init(&c, BC_G89, key, sb);
    for (i = 0; i < n; i += 8) {
        if (mesh && i && i % 1024 == 0) {
            ref_cp_mesh(key, sb, NULL);
            rbc_init(&c, BC_G89, key, sb);
        }
        memset(z, 0, 8);
        memcpy(z, m + i, n - i < 8 ? n - i : 8);
        rbc_mac_step(&c, st, z);
    }
    if (n && n <= 8) { /* at least two blocks are always processed */
        memset(z, 0, 8);
        rbc_mac_step(&c, st, z);
    }
    memcpy(out, st, 8);
}
void ref_imit(const u8 *key, sbox_t sb, int mesh, const u8 *m, size_t n, u8 *out) { imit(key, sb, NULL, mesh, m, n, out); }
void ref_imit_iv(const u8 *key, sbox_t sb, const u8 *iv, const u8 *m, size_t n, u8 *out) { imit(key, sb, iv, 0, m, n, out); }
static void dbl(u8 *o, const u8 *a, int bl)
{
    int c = a[0] >> 7;
    for (int i = 0; i < bl; i++) o[i] = a[i] << 1 | (i + 1 < bl ? a[i + 1] >> 7 : 0);
    if (c) o[bl - 1] ^= bl == 16 ? 0x87 : 0x1b;
}
static void omac_last(const rbc *c, u8 *st, const u8 *k1, const u8 *m, size_t left, u8 *out)
{
    u8 k2[16], b[16] = {0};
    int bl = c->bl;
    dbl(k2, k1, bl);
    memcpy(b, m, left);
    if (left < (size_t)bl) b[left] = 0x80;
    for (int j = 0; j < bl; j++) st[j] ^= b[j] ^ (left == (size_t)bl ? k1[j] : k2[j]);
    rbc_enc(c, st, out);
}
void ref_omac(int kind, const u8 *key, const u8 *m, size_t n, u8 *out)
{
    rbc c;
    u8 st[16] = {0}, r[16] = {0}, k1[16];
    rbc_init(&c, kind, key, NULL);
    int bl = c.bl;
    rbc_enc(&c, r, r);
    dbl(k1, r, bl);
    if (ref_secret) { u8 k2[16]; dbl(k2, k1, bl); ref_secret(r, bl, "encrypted zero of OMAC"); ref_secret(k1, bl, "OMAC subkey"); ref_secret(k2, bl, "OMAC subkey"); }
    size_t i = 0;
    for (; n - i > (size_t)bl; i += bl) {
        for (int j = 0; j < bl; j++) st[j] ^= m[i + j];
        rbc_enc(&c, st, st);
    }
    omac_last(&c, st, k1, m + i, n - i, out);
}
void ref_omac_acpkm(const u8 *key, size_t section, size_t tsection, const u8 *m, size_t n, u8 *out)
{
    size_t secs = n ? (n + section - 1) / section : 1, i = 0;
    u8 *km = calloc(secs, 48), iv[16] = {0}, st[16] = {0};
    rbc c;
    memset(iv, 0xff, 8);
    rbc_init(&c, BC_KUZ, key, NULL);
    ref_ctr(&c, iv, km, km, secs * 48, tsection);
    rbc_init(&c, BC_KUZ, km, NULL);
    if (ref_secret) for (size_t i = 0; i < secs && i < 4; i++) ref_secret(km + 48 * i, 48, "section key");
    size_t cur = 0;
    for (;;) {
        if (i && i % section == 0) rbc_init(&c, BC_KUZ, km + 48 * ++cur, NULL);
        if (n - i <= 16) break;
        for (int j = 0; j < 16; j++) st[j] ^= m[i + j];
        rbc_enc(&c, st, st);
        i += 16;
    }
    omac_last(&c, st, km + 48 * cur + 32, m + i, n - i, out);
    free(km);
}
/* ---- MGM (RFC 9058) ---- */
static void gfmul_be(const u8 *a, const u8 *b, u8 *o, int bl)
{
    u8 z[16] = {0}, v[16];
    memcpy(v, a, bl);
    for (int i = 0; i < bl * 8; i++) { /* bit i of b, least significant first */
        if (b[bl - 1 - i / 8] >> (i % 8) & 1)
            for (int j = 0; j < bl; j++) z[j] ^= v[j];
        u8 t[16];
        dbl(t, v, bl);
        memcpy(v, t, bl);
    }
    memcpy(o, z, bl);
}
static void mgm_acc(const rbc *c, u8 *sum, u8 *Z, const u8 *blk)
{
    u8 H[16], t[16];
    rbc_enc(c, Z, H);
    gfmul_be(H, blk, t, c->bl);
    for (int j = 0; j < c->bl; j++) sum[j] ^= t[j];
    inc_be(Z, c->bl / 2);
}
static void mgm_data(const rbc *c, u8 *sum, u8 *Z, const u8 *d, size_t n)
{
    for (size_t i = 0; i < n; i += c->bl) {
        u8 b[16] = {0};
        memcpy(b, d + i, n - i < (size_t)c->bl ? n - i : (size_t)c->bl);
        mgm_acc(c, sum, Z, b);
    }
}
void ref_mgm(int kind, const u8 *key, const u8 *nonce, const u8 *aad, size_t an, const u8 *pt, size_t n, u8 *ct, u8 *tag)
{
    rbc c;
    u8 Y[16], Z[16], g[16], sum[16] = {0}, len[16] = {0};
    rbc_init(&c, kind, key, NULL);
    int bl = c.bl, h = bl / 2;
    memcpy(Y, nonce, bl);
    Y[0] &= 0x7f;
    memcpy(Z, nonce, bl);
    Z[0] |= 0x80;
    rbc_enc(&c, Y, Y);
    rbc_enc(&c, Z, Z);
    for (size_t i = 0; i < n; i++) {
        if (i % bl == 0) { rbc_enc(&c, Y, g); inc_be(Y + h, h); }
        ct[i] = pt[i] ^ g[i % bl];
    }
    mgm_data(&c, sum, Z, aad, an);
    mgm_data(&c, sum, Z, ct, n);
    uint64_t A = (uint64_t)an * 8, C = (uint64_t)n * 8;
    for (int i = 0; i < h; i++) { len[h - 1 - i] = A >> (8 * i); len[bl - 1 - i] = C >> (8 * i); }
    mgm_acc(&c, sum, Z, len);
    rbc_enc(&c, sum, tag);
}
/* ---- GOST R 34.11-94 (RFC 5831), little-endian byte arrays ---- */
static void h94_A(u8 *y) /* A(Y) = (y1 xor y2) || y4 || y3 || y2 */
{
    u8 t[32];
    memcpy(t, y + 8, 24);
    for (int i = 0; i < 8; i++) t[24 + i] = y[i] ^ y[8 + i];
    memcpy(y, t, 32);
}
static void h94_step(sbox_t sb, u8 *H, const u8 *M)
{
    static const u8 C3[32] = {0,255,0,255,0,255,0,255,255,0,255,0,255,0,255,0,0,255,255,0,255,0,0,255,255,0,0,0,255,255,0,255};
    u8 U[32], V[32], S[32], K[32];
    rbc c;
    memcpy(U, H, 32);
    memcpy(V, M, 32);
    for (int s = 0; s < 4; s++) {
        if (s) {
            h94_A(U);
            if (s == 2) for (int i = 0; i < 32; i++) U[i] ^= C3[i];
            h94_A(V);
            h94_A(V);
        }
        for (int i = 0; i < 4; i++) for (int k = 0; k < 8; k++) K[i + 4 * k] = U[8 * i + k] ^ V[8 * i + k];
        rbc_init(&c, BC_G89, K, sb);
        rbc_enc(&c, H + 8 * s, S + 8 * s);
    }
#define PSI(x, n) for (int q = 0; q < (n); q++) { u8 lo = x[0]^x[2]^x[4]^x[6]^x[24]^x[30], hi = x[1]^x[3]^x[5]^x[7]^x[25]^x[31]; \
        memmove(x, x + 2, 30); x[30] = lo; x[31] = hi; }
    PSI(S, 12);
    for (int i = 0; i < 32; i++) S[i] ^= M[i];
    PSI(S, 1);
    for (int i = 0; i < 32; i++) S[i] ^= H[i];
    PSI(S, 61);
    memcpy(H, S, 32);
}
void ref_hash94(sbox_t sb, const u8 *m, size_t n, u8 out[32])
{
    u8 H[32] = {0}, S[32] = {0}, B[32], L[32] = {0};
    size_t i = 0;
    do {
        memset(B, 0, 32);
        memcpy(B, m + i, n - i < 32 ? n - i : 32);
        h94_step(sb, H, B);
        for (int j = 0, c = 0; j < 32; j++) { c += S[j] + B[j]; S[j] = c; c >>= 8; }
        i += 32;
    } while (i < n);
    uint64_t bits = (uint64_t)n * 8;
    for (int j = 0; j < 8; j++) L[j] = bits >> (8 * j);
    h94_step(sb, H, L);
    h94_step(sb, H, S);
    memcpy(out, H, 32);
}
/* ---- GOST R 34.11-2012 (RFC 6986) ---- */
static uint64_t ST[8][256];
static int st_ready;
static void sb_lps(const u8 *a, u8 *o)
{
    u8 r[64];
    if (!st_ready) {
        for (int j = 0; j < 8; j++) for (int x = 0; x < 256; x++) {
            uint64_t v = 0;
            for (int k = 0; k < 8; k++) if (PI[x] >> k & 1) v ^= SA[8 * j + k];
            ST[j][x] = v;
        }
        st_ready = 1;
    }
    for (int i = 0; i < 8; i++) {
        uint64_t v = 0;
        for (int j = 0; j < 8; j++) v ^= ST[j][a[8 * j + i]];
        for (int k = 0; k < 8; k++) r[8 * i + k] = v >> (8 * k);
    }
    memcpy(o, r, 64);
}
static void sb_g(u8 *h, const u8 *N, const u8 *m)
{
    u8 K[64], t[64], C[64];
    for (int i = 0; i < 64; i++) K[i] = h[i] ^ N[i];
    sb_lps(K, K);
    memcpy(t, m, 64);
    for (int r = 0; r < 12; r++) {
        for (int i = 0; i < 64; i++) t[i] ^= K[i];
        sb_lps(t, t);
        for (int i = 0; i < 64; i++) C[i] = K[i] ^ (u8)(SC[r][i / 8] >> (8 * (i % 8)));
        sb_lps(C, K);
    }
    for (int i = 0; i < 64; i++) h[i] ^= t[i] ^ K[i] ^ m[i];
}
static void add512(u8 *a, const u8 *b) { for (int j = 0, c = 0; j < 64; j++) { c += a[j] + b[j]; a[j] = c; c >>= 8; } }
void ref_streebog(int bits, const u8 *m, size_t n, u8 *out)
{
    u8 h[64], N[64] = {0}, S[64] = {0}, b[64], L[64] = {0}, Z[64] = {0};
    memset(h, bits == 256 ? 1 : 0, 64);
    size_t i = 0;
    for (; n - i >= 64; i += 64) {
        memset(L, 0, 64);
        L[1] = 2;
        sb_g(h, N, m + i);
        add512(N, L);
        add512(S, m + i);
    }
    size_t left = n - i;
    memset(b, 0, 64);
    memcpy(b, m + i, left);
    b[left] = 1;
    sb_g(h, N, b);
    memset(L, 0, 64);
    L[0] = (left * 8) & 255;
    L[1] = (left * 8) >> 8;
    add512(N, L);
    add512(S, b);
    sb_g(h, Z, N);
    sb_g(h, Z, S);
    if (bits == 256) memcpy(out, h + 32, 32); else memcpy(out, h, 64);
}
void ref_h94cp(const u8 *m, size_t n, u8 *out) { ref_hash94(RSB_HASH_CP, m, n, out); }
void ref_h12_256(const u8 *m, size_t n, u8 *out) { ref_streebog(256, m, n, out); }
void ref_h12_512(const u8 *m, size_t n, u8 *out) { ref_streebog(512, m, n, out); }
void ref_hmac(ref_hash_f h, size_t hl, size_t bl, const u8 *key, size_t kl, const u8 *m, size_t n, u8 *out)
{
    u8 *b = malloc(bl + n + 64), k[64] = {0}, in[64];
    if (kl > bl) h(key, kl, k); else memcpy(k, key, kl);
    for (size_t i = 0; i < bl; i++) b[i] = k[i] ^ 0x36;
    memcpy(b + bl, m, n);
    h(b, bl + n, in);
    for (size_t i = 0; i < bl; i++) b[i] = k[i] ^ 0x5c;
    memcpy(b + bl, in, hl);
    h(b, bl + hl, out);
    free(b);
}
void ref_kdftree(const u8 *key, size_t kl, const u8 *label, size_t ll, const u8 *seed, size_t sl, size_t r, size_t outlen, u8 *out)
{
    uint64_t L = (uint64_t)outlen * 8;
    u8 lb[8], *m = malloc(r + ll + 1 + sl + 8);
    int ln = 0;
    for (int s = 56; s >= 0; s -= 8) if (ln || (L >> s & 255)) lb[ln++] = L >> s;
    for (size_t i = 1; i <= outlen / 32; i++) {
        size_t p = 0;
        for (size_t j = 0; j < r; j++) m[p++] = (uint64_t)i >> (8 * (r - 1 - j));
        memcpy(m + p, label, ll); p += ll;
        m[p++] = 0;
        memcpy(m + p, seed, sl); p += sl;
        memcpy(m + p, lb, ln); p += ln;
        ref_hmac(ref_h12_256, 32, 64, key, kl, m, p, out + 32 * (i - 1));
    }
    if (ref_secret) { ref_secret(key, kl, "key derivation key"); for (size_t i = 0; i + 32 <= outlen; i += 32) ref_secret(out + i, 32, "derived key"); }
    free(m);
}
void ref_tlstree(int kind, const u8 *key, const u8 seq[8], u8 out[32])
{
    /* RFC 9189, 8.1: C_1, C_2, C_3 as big-endian byte masks */
    static const uint64_t CK[3] = {0xFFFFFFFF00000000ULL, 0xFFFFFFFFFFF80000ULL, 0xFFFFFFFFFFFFFFC0ULL};
    static const uint64_t CM[3] = {0xFFFFFFC000000000ULL, 0xFFFFFFFFFE000000ULL, 0xFFFFFFFFFFFFF000ULL};
    static const char *lab[3] = {"level1", "level2", "level3"};
    u8 k[32], s[8];
    uint64_t v = 0;
    for (int i = 0; i < 8; i++) v = v << 8 | seq[i];
    memcpy(k, key, 32);
    for (int l = 0; l < 3; l++) {
        uint64_t x = v & (kind == BC_KUZ ? CK : CM)[l];
        for (int i = 0; i < 8; i++) s[i] = x >> (56 - 8 * i);
        u8 t[32];
        ref_kdftree(k, 32, (const u8 *)lab[l], 6, s, 8, 1, 32, t);
        memcpy(k, t, 32);
    }
    memcpy(out, k, 32);
}
/* ---- key wrapping ---- */
void ref_kexp15(int kind, const u8 *ckey, const u8 *mkey, const u8 *iv, size_t ivlen, const u8 *key, size_t keylen, u8 *out)
{
    rbc c;
    u8 *b = malloc(ivlen + keylen + 32), v[32] = {0};
    rbc_init(&c, kind, ckey, NULL);
    memcpy(b, iv, ivlen);
    memcpy(b + ivlen, key, keylen);
    ref_omac(kind, mkey, b, ivlen + keylen, b + ivlen + keylen);
    memcpy(v, iv, ivlen);
    ref_ctr(&c, v, b + ivlen, out, keylen + c.bl, 0);
    free(b);
}
void ref_cp_diversify(const u8 *kek, sbox_t sb, const u8 ukm[8], u8 out[32])
{
    u8 k[32];
    memcpy(k, kek, 32);
    for (int i = 0; i < 8; i++) {
        uint32_t s1 = 0, s2 = 0;
        for (int j = 0; j < 8; j++) if (ukm[i] >> j & 1) s1 += le32(k + 4 * j); else s2 += le32(k + 4 * j);
        u8 S[8];
        rbc c;
        st32(S, s1);
        st32(S + 4, s2);
        rbc_init(&c, BC_G89, k, sb);
        ref_cfb(&c, S, k, k, 32, 1);
    }
    memcpy(out, k, 32);
}
void ref_cp_wrap(const u8 *kek, sbox_t sb, const u8 ukm[8], const u8 key[32], u8 out[44])
{
    u8 d[32], mac[8];
    rbc c;
    ref_cp_diversify(kek, sb, ukm, d);
    rbc_init(&c, BC_G89, d, sb);
    memcpy(out, ukm, 8);
    ref_ecb(&c, key, out + 8, 32, 1);
    ref_imit_iv(d, sb, ukm, key, 32, mac);
    memcpy(out + 40, mac, 4);
}
/* ---- published vectors ---- */
static int hex(const char *h, u8 *o)
{
    int n = 0;
    unsigned v;
    for (; *h; h += 2) { sscanf(h, "%2x", &v); o[n++] = v; }
    return n;
}
#define EQ(buf, hx) do { u8 e_[512]; int n_ = hex(hx, e_); idx++; if (memcmp(e_, buf, n_)) return idx; } while (0)
int ref_selftest(void)
{
    int idx = 0;
    u8 k[32], b[512], o[512], iv[64];
    rbc c;
    /* GOST R 34.12-2015 A.1/A.2 */
    hex("8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef", k);
    rbc_init(&c, BC_KUZ, k, NULL);
    hex("1122334455667700ffeeddccbbaa9988", b);
    rbc_enc(&c, b, o); EQ(o, "7f679d90bebc24305a468d42b9d4edcd");
    rbc_dec(&c, o, o); EQ(o, "1122334455667700ffeeddccbbaa9988");
    /* GOST R 34.13-2015 A.1 */
    u8 P[64]; hex("1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a0011", P);
    hex("1234567890abcef00000000000000000", iv);
    ref_ctr(&c, iv, P, o, 64, 0); EQ(o, "f195d8bec10ed1dbd57b5fa240bda1b885eee733f6a13e5df33ce4b33c45dee4a5eae88be6356ed3d5e877f13564a3a5cb91fab1f20cbab6d1c6d15820bdba73");
    ref_omac(BC_KUZ, k, P, 64, o); EQ(o, "336f4d296059fbe34ddeb35b37749c67");
    hex("ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff", k);
    rbc_init(&c, BC_MAGMA, k, NULL);
    hex("fedcba9876543210", b);
    rbc_enc(&c, b, o); EQ(o, "4ee901e5c2d8ca3d");
    rbc_dec(&c, o, o); EQ(o, "fedcba9876543210");
    hex("92def06b3c130a59db54c704f8189d204a98fb2e67a8024c8912409b17b57e41", P);
    hex("1234567800000000", iv);
    ref_ctr(&c, iv, P, o, 32, 0); EQ(o, "4e98110c97b7b93c3e250d93d6e85d69136d868807b2dbef568eb680ab52a12d");
    ref_omac(BC_MAGMA, k, P, 32, o); EQ(o, "154e72102030c5bb");
    /* R 1323565.1.017-2018 ACPKM */
    hex("8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef", k);
    rbc_init(&c, BC_KUZ, k, NULL);
    u8 Q[112]; hex("1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a001133445566778899aabbcceeff0a001122445566778899aabbcceeff0a001122335566778899aabbcceeff0a0011223344", Q);
    hex("1234567890abcef00000000000000000", iv);
    ref_ctr(&c, iv, Q, o, 112, 32); EQ(o, "f195d8bec10ed1dbd57b5fa240bda1b885eee733f6a13e5df33ce4b33c45dee4" "4bceeb8f646f4c55001706275e85e800587c4df568d094393e4834afd0805046cf30f57686aeece11cfc6c316b8a896edffd07ec813636460c4f3b743423163e6409a9c282fac8d469d221e7fbd6de5d");
    /* OMAC-ACPKM, N=32 bytes, T*=96 bytes */
    hex("1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a0011", P);
    ref_omac_acpkm(k, 32, 96, P, 24, o); EQ(o, "b5367f47b62b995eeb2a648c5843145e");
    ref_omac_acpkm(k, 32, 96, Q, 80, o); EQ(o, "fbb8dcee45bea67c35f58c5700898e5d");
    /* RFC 9058 A.1 */
    u8 A[64], N[16];
    int an = hex("0202020202020202010101010101010104040404040404040303030303030303ea0505050505050505", A);
    int pn = hex("1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a0011aabbcc", b);
    hex("1122334455667700ffeeddccbbaa9988", N);
    u8 tag[16];
    ref_mgm(BC_KUZ, k, N, A, an, b, pn, o, tag);
    EQ(o, "a9757b8147956e9055b8a33de89f42fc8075d2212bf9fd5bd3f7069aadc16b39497ab15915a6ba85936b5d0ea9f6851cc60c14d4d3f883d0ab94420695c76deb2c7552");
    EQ(tag, "cf5d656f40c34f5c46e8bb0e29fcdb4c");
    /* hashes */
    ref_hash94(SB_HASH_CP, (const u8 *)"", 0, o); EQ(o, "3f25bc1fbbce27ca10fb1958f319473ae7e17482c3b53ecf47a7e2de8aabe4c8");
    ref_hash94(SB_HASH_CP, (const u8 *)"This is message, length=32 bytes", 32, o); EQ(o, "2cefc2f7b7bdc514e18ea57fa74ff357e7fa17d652c75f69cb1be7893ede48eb");
    ref_streebog(512, (const u8 *)"012345678901234567890123456789012345678901234567890123456789012", 63, o);
    EQ(o, "1b54d01a4af5b9d5cc3d86d68d285462b19abc2475222f35c085122be4ba1ffa00ad30f8767b3a82384c6574f024c311e2a481332b08ef7f41797891c1646f48");
    ref_streebog(256, (const u8 *)"012345678901234567890123456789012345678901234567890123456789012", 63, o);
    EQ(o, "9d151eefd8590b89daa6ba6cb74af9275dd051026bb149a452fd84e5e57b5500");
    ref_streebog(256, (const u8 *)"", 0, o); EQ(o, "3f539a213e97c802cc229d474c6aa32a825a360b2a933a949fd925208d9ce1bb");
    /* R 50.1.113-2016: HMAC and KDF_TREE */
    for (int i = 0; i < 32; i++) k[i] = i;
    hex("0126bdb87800af214341456563780100", b);
    ref_hmac(ref_h12_256, 32, 64, k, 32, b, 16, o); EQ(o, "a1aa5f7de402d7b3d323f2991c8d4534013137010a83754fd0af6d7cd4922ed9");
    u8 lab[4], seed[8];
    hex("26bdb878", lab); hex("af21434145656378", seed);
    ref_kdftree(k, 32, lab, 4, seed, 8, 1, 64, o);
    EQ(o, "22b6837845c6bef65ea71672b265831086d3c76aebe6dae91cad51d83f79d16b074c9330599d7f8d712fca54392f4ddde93751206b3584c8f43f9e6dc51531f9");
    return 0;
}
