/* P04: digests against the reference; every chunking, carry patterns, copies,
 * re-use of a context, long messages. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "mdx.h"
static const struct { const char *sn; size_t len, bl; ref_hash_f f; } H[] = {
    { "md_gost94", 32, 32, ref_h94cp }, { "md_gost12_256", 32, 64, ref_h12_256 }, { "md_gost12_512", 64, 64, ref_h12_512 },
};
static EVP_MD_CTX *start(mdx *s)
{
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    if (!c || EVP_DigestInit_ex(c, eng_digest(H[s->a].sn), E) != 1) mc_fail("init", "EVP_DigestInit_ex fails");
    return c;
}
static int finish(mdx *s, EVP_MD_CTX *c, u8 *out, size_t *len)
{
    unsigned l = 999;
    int r = EVP_DigestFinal_ex(c, out, &l);
    *len = l;
    return r;
}
static void ref(mdx *s, const u8 *m, size_t n, u8 *o) { H[s->a].f(m, n, o); }
static u8 abc_h[3][64];
static void after(mdx *s, EVP_MD_CTX *c)
{
    u8 o[64]; unsigned l = 0;
    mc_op("re-init; update(3); final");
    if (EVP_DigestInit_ex(c, s->b & 1 ? NULL : eng_digest(H[s->a].sn), s->b & 1 ? NULL : E) != 1 || EVP_DigestUpdate(c, "abc", 3) != 1 || EVP_DigestFinal_ex(c, o, &l) != 1
        || l != H[s->a].len || memcmp(o, abc_h[s->a], l))
        mc_fail(mc_fmt("reuse:%s", s->name), "digest of abc on a re-used context is wrong: %s", mc_hex(o, l));
    s->b++;
}
static u8 *M;
#define MMAX (1 << 17)
static void setup(mdx *s, int a)
{
    memset(s, 0, sizeof *s);
    s->name = H[a].sn; s->a = a; s->start = start; s->finish = finish; s->ref = ref; s->outlen = H[a].len;
    s->msg = M; s->after = after;
}
static void oneshot(int a, const u8 *m, size_t n, const char *what)
{
    u8 o[64], e[64]; unsigned l = 0;
    if (EVP_Digest(m, n, o, &l, eng_digest(H[a].sn), E) != 1 || l != H[a].len) mc_fail(mc_fmt("oneshot:%s", H[a].sn), "EVP_Digest fails");
    H[a].f(m, n, e);
    mc_n_execs++;
    mc_trans(2);
    if (memcmp(o, e, l)) mc_fail(mc_fmt("wrong-value:%s", H[a].sn), "%s: got %s expected %s", what, mc_hex(o, l), mc_hex(e, l));
}
/* long messages of one byte value: digests computed once with lib/ref.c */
static const struct { int a; int byte; unsigned long long n; const char *hex; int thorough; } LONG[] = {
#include "p04_long.h"
};
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(0);
    M = malloc(MMAX);
    for (int a = 0; a < 3; a++) H[a].f((u8 *)"abc", 3, abc_h[a]);
#ifndef LONGONLY
    for (int a = 0; a < 3; a++) {
        mdx s;
        static const size_t extra[] = { 256, 1000, 8192 };
#ifndef SECONDARY
        for (int pat = 0; pat < 4; pat++)
            for (int w = 0; w < (mc_thorough ? 4 : 2); w++)
                MC_CASE("%s states pattern %d window %d", H[a].sn, pat, w) {
                    setup(&s, a);
                    if (pat == 0) fill(M, MMAX, 3);
                    else memset(M, pat == 1 ? 0 : pat == 2 ? 0xff : 0x80, MMAX);
                    s.total = MMAX;
                    s.extra = extra; s.nextra = 3;
                    s.base = w == 0 ? 0 : w == 1 ? 256 * H[a].bl / 8 - 20 : w == 2 ? 8192 - 20 : 65536 - 20;
                    s.win = w ? 40 + H[a].bl : 2 * H[a].bl + 9;
                    mdx_states(&s);
                    mc_outcome("%s pat%d", H[a].sn, pat);
                    if (!pat && !w) mc_sample("digest %s of 3 bytes %s = %s (all chunkings of lengths 0..%zu agree)", H[a].sn, "abc", mc_hex(abc_h[a], H[a].len), s.win);
                }
#endif
        /* every length, one shot and in two updates */
        for (int pat = 0; pat < 3; pat++)
            MC_CASE("%s all lengths pattern %d", H[a].sn, pat) {
                size_t max = mc_thorough ? 9000 : 2100;
                if (pat == 0) fill(M, MMAX, 5); else memset(M, pat == 1 ? 0xff : 0x01, MMAX);
                for (size_t n = 0; n <= max; n++) {
                    u8 *p = malloc(n ? n : 1);
                    memcpy(p, M, n);
                    oneshot(a, p, n, mc_fmt("%zu bytes pattern %d", n, pat));
                    free(p);
                    if (n % 64 == 0) mc_alive();
                }
            }
        /* checksum carries: every combination of word classes in three adjacent words of two blocks */
        if (H[a].bl == 64) {
            static const uint64_t V[4] = { 0, 1, ~0ull, 0x8000000000000000ull };
            for (int pos = 0; pos < 6; pos++)
                for (int bg = 0; bg < 3; bg++)
                    MC_CASE("%s carry pos %d background %d", H[a].sn, pos, bg) {
                        u8 b[160];
                        for (int v = 0; v < 4096; v++) {
                            memset(b, bg == 0 ? 0 : 0xff, 64);
                            memset(b + 64, bg == 2 ? 0xff : 0, 64);
                            if (bg == 1) b[64] = 1;     /* carry runs through the whole background */
                            for (int i = 0; i < 6; i++) memcpy(b + (i / 3) * 64 + (pos + i % 3) * 8, &V[(v >> (2 * i)) & 3], 8);
                            oneshot(a, b, 128, mc_fmt("carry pos %d bg %d v %d", pos, bg, v));
                            if (v % 256 == 0) mc_alive();
                        }
                        mc_outcome("%s carries", H[a].sn);
                    }
            /* the carry of the last, padded block */
            for (int len = 0; len < 64; len++)
                MC_CASE("%s carry into a last block of %d bytes", H[a].sn, len) {
                    u8 b[192];
                    memset(b, 0xff, sizeof b);
                    for (int k = 0; k < 64; k++) {
                        memset(b, 0xff, 64); b[k] = 0xfe;
                        oneshot(a, b, 64 + len, "last block");
                        oneshot(a, b, 128 + len, "last block");
                    }
                }
        } else {
            static const u8 V[4] = { 0, 1, 0xff, 0x80 };
            for (int pos = 0; pos < 30; pos++)
                MC_CASE("%s byte carry pos %d", H[a].sn, pos) {
                    u8 b[96];
                    for (int bg = 0; bg < 3; bg++)
                        for (int v = 0; v < 4096; v++) {
                            memset(b, bg == 0 ? 0 : 0xff, 32);
                            memset(b + 32, bg == 2 ? 0xff : 0, 32);
                            if (bg == 1) b[32] = 1;
                            for (int i = 0; i < 6; i++) b[(i / 3) * 32 + pos + i % 3] = V[(v >> (2 * i)) & 3];
                            if (!mc_thorough && (v & 1) && bg) continue;
                            oneshot(a, b, v % 5 == 0 ? 64 + v % 32 : 64, mc_fmt("carry pos %d bg %d v %d", pos, bg, v));
                            if (v % 256 == 0) mc_alive();
                        }
                }
        }
    }
#endif
#ifdef LONGONLY
    for (int i = 0; i < (int)(sizeof LONG / sizeof *LONG); i++) {
        if (LONG[i].thorough && !mc_thorough) continue;
        MC_CASE("%s of %llu bytes %02x", H[LONG[i].a].sn, LONG[i].n, LONG[i].byte) {
            EVP_MD_CTX *c = EVP_MD_CTX_new();
            u8 o[64]; unsigned l = 0;
            size_t cs = 1 << 20;
            u8 *b = malloc(cs);
            memset(b, LONG[i].byte, cs);
            int r = EVP_DigestInit_ex(c, eng_digest(H[LONG[i].a].sn), E);
            for (unsigned long long n = LONG[i].n; n && r == 1; ) {
                size_t k = n < cs ? n : cs;
                r = EVP_DigestUpdate(c, b, k);
                n -= k;
                mc_alive();
            }
            if (r == 1) r = EVP_DigestFinal_ex(c, o, &l);
            mc_trans(LONG[i].n / cs);
            mc_n_execs++;
            if (r != 1 || l != H[LONG[i].a].len || strcmp(mc_hex(o, l), LONG[i].hex))
                mc_fail(mc_fmt("wrong-value:%s", H[LONG[i].a].sn), "%llu bytes %02x: %s, expected %s", LONG[i].n, LONG[i].byte, mc_hex(o, l), LONG[i].hex);
            EVP_MD_CTX_free(c); free(b);
            mc_outcome("%s long", H[LONG[i].a].sn);
        }
    }
#endif
    return mc_finish();
}
