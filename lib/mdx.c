#define OPENSSL_SUPPRESS_DEPRECATED
#include "mdx.h"
typedef struct { size_t off; int parent; size_t chunk; } node;
static node *Q;
static int qn, qcap;
static u8 *exps;                /* expected values, outlen each */
static u8 *expok;
static size_t expn;
static const u8 *expect(mdx *s, size_t n)
{
    size_t i = n - (s->base < n ? s->base : n);
    static u8 tmp[64];
    if (n < s->base || i >= expn) { s->ref(s, s->msg, n, tmp); return tmp; }
    if (!expok[i]) { s->ref(s, s->msg, n, exps + i * 64); expok[i] = 1; }
    return exps + i * 64;
}
static void exp_reset(mdx *s)
{
    free(exps); free(expok);
    expn = s->win + 1;
    exps = calloc(expn, 64);
    expok = calloc(expn, 1);
}
static void upd(mdx *s, EVP_MD_CTX *c, size_t *off, size_t n)
{
    unsigned a = (*off * 5 + n * 3) & 15;       /* all alignments occur */
    u8 *p = malloc(n + a + 1);
    memcpy(p + a, s->msg + *off, n);
    /* exact end: the sanitizer sees any over-read */
    u8 *q = malloc(n + a ? n + a : 1);
    memcpy(q + a, p + a, n);
    free(p);
    int r = s->update ? s->update(s, c, q + a, n) : EVP_DigestUpdate(c, q + a, n);
    if (r == 1 && memcmp(q + a, s->msg + *off, n)) mc_fail(mc_fmt("input-modified:%s", s->name), "update changed its input");
    free(q);
    if (r != 1) mc_fail(mc_fmt("update-fails:%s", s->name), "update(%zu) at offset %zu returned %d", n, *off, r);
    *off += n;
    mc_trans(1);
}
static void fin(mdx *s, EVP_MD_CTX *c, size_t off, const char *how)
{
    size_t len = 999;
    u8 out[80];
    memset(out, 0xA5, sizeof out);
    int r = s->finish(s, c, out, &len);
    mc_trans(1);
    if (r != 1) mc_fail(mc_fmt("final-fails:%s", s->name), "%s after %zu bytes returned %d", how, off, r);
    if (len != s->outlen) mc_fail(mc_fmt("final-len:%s", s->name), "%s reported %zu bytes, expected %zu", how, len, s->outlen);
    const u8 *e = expect(s, off);
    if (memcmp(out, e, s->outlen))
        mc_fail(mc_fmt("wrong-value:%s", s->name), "%s of %zu bytes: got %s expected %s", how, off, mc_hex(out, s->outlen), mc_hex(e, s->outlen));
    for (size_t i = s->outlen; i < sizeof out; i++)
        if (out[i] != 0xA5) mc_fail(mc_fmt("overrun:%s", s->name), "%s wrote more than %zu bytes", how, s->outlen);
}
static void replay(mdx *s, EVP_MD_CTX *c, int i, size_t *off)
{
    int path[256], n = 0;
    for (int j = i; j > 0 && n < 256; j = Q[j].parent) path[n++] = j;
    *off = 0;
    if (s->base) { mc_op("update(%zu)", s->base); upd(s, c, off, s->base); }
    while (n--) { mc_op("update(%zu)", Q[path[n]].chunk); upd(s, c, off, Q[path[n]].chunk); }
}
static int note(mdx *s, EVP_MD_CTX *c, size_t off)
{
    static u8 b[8192];
    u8 *d = EVP_MD_CTX_md_data(c);
    size_t n = EVP_MD_meth_get_app_datasize(EVP_MD_CTX_md(c));
    if (n > sizeof b - 8) mc_internal("md_data too big");
    memcpy(b, d, n);
    for (size_t i = 0; i + 8 <= n; i += 8) {
        uintptr_t v;
        memcpy(&v, b + i, 8);
        if (v >= (uintptr_t)d && v < (uintptr_t)d + n) { v -= (uintptr_t)d; memcpy(b + i, &v, 8); }
    }
    memcpy(b + n, &off, 8);
    return mc_state(b, n + 8);
}
static void push(size_t off, int parent, size_t chunk)
{
    if (qn == qcap) Q = realloc(Q, (qcap = qcap ? 2 * qcap : 1024) * sizeof *Q);
    Q[qn++] = (node){ off, parent, chunk };
}
static void finals(mdx *s, int i)
{
    size_t off;
    EVP_MD_CTX *c = s->start(s);
    mc_reset_trace();
    replay(s, c, i, &off);
    if (!s->nocopy) {
        EVP_MD_CTX *d = EVP_MD_CTX_new();
        mc_op("copy; final(copy)");
        if (EVP_MD_CTX_copy_ex(d, c) != 1) mc_fail(mc_fmt("copy-fails:%s", s->name), "copy after %zu bytes fails", off);
        fin(s, d, off, "final of copy");
        EVP_MD_CTX_free(d);
    }
    mc_op("final");
    fin(s, c, off, "final");
    mc_n_execs++;
    if (s->after) s->after(s, c);
    EVP_MD_CTX_free(c);
}
void mdx_states(mdx *s)
{
    size_t off;
    exp_reset(s);
    qn = 0;
    mc_reset_trace();
    mc_states_reset();
    EVP_MD_CTX *c = s->start(s);
    push(s->base, -1, 0);
    replay(s, c, 0, &off);
    note(s, c, off);
    EVP_MD_CTX_free(c);
    for (int i = 0; i < qn; i++) {
        size_t at = Q[i].off, maxc = s->base + s->win - at;
        mc_alive();
        finals(s, i);
        for (size_t k = 0; k <= maxc + s->nextra; k++) {
            size_t n = k <= maxc ? k : s->extra[k - maxc - 1];
            if (at + n > s->total) continue;
            mc_reset_trace();
            c = s->start(s);
            replay(s, c, i, &off);
            mc_op("update(%zu)", n);
            upd(s, c, &off, n);
            mc_n_execs++;
            if (k <= maxc) {
                if (note(s, c, off)) {
                    if (qn < 20000) push(off, i, n); else mc_count("state_cap_hit", 1);
                }
            } else fin(s, c, off, "final");
            EVP_MD_CTX_free(c);
        }
    }
}
static mdx *CS;
static int cparts;
static void cut1(void *u)
{
    mdx *s = CS;
    size_t off = 0;
    mc_reset_trace();
    EVP_MD_CTX *c = s->start(s);
    size_t end = s->base + mc_choose(s->win + 1);
    mc_op("length %zu:", end);
    /* first piece may cover the base */
    int left = cparts;
    while (off < end) {
        size_t n;
        if (left == 1) n = end - off;
        else if (off == 0 && s->base) n = end == s->base ? end : s->base + mc_choose(end - s->base + 1);
        else n = 1 + mc_choose(end - off);
        mc_op("update(%zu)", n);
        upd(s, c, &off, n);
        left--;
    }
    if (!s->nocopy && left == cparts - 2) {
        EVP_MD_CTX *d = EVP_MD_CTX_new();
        mc_op("copy; final(copy)");
        if (EVP_MD_CTX_copy_ex(d, c) != 1) mc_fail(mc_fmt("copy-fails:%s", s->name), "copy after %zu bytes fails", off);
        fin(s, d, off, "final of copy");
        EVP_MD_CTX_free(d);
    }
    mc_op("final");
    fin(s, c, end, "final");
    if (s->after) s->after(s, c);
    EVP_MD_CTX_free(c);
}
void mdx_cuts(mdx *s, int parts)
{
    exp_reset(s);
    CS = s; cparts = parts;
    mc_explore(cut1, NULL);
}
