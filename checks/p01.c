/* P01: every cipher mode against the reference, all chunkings.
 * Explicit-state search over contexts of the real implementation: a state is
 * (bytes of the cipher context, message offset); transitions are update calls
 * of every size; every state is also finalised. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "eng.h"

typedef struct {
    cconf f;
    int enc, inplace, pad, meshset, rngmode;
    const char *sbox;
    const u8 *in, *exp;         /* whole message and expected whole output */
    size_t total;               /* message bytes available */
    size_t base, win;           /* explored offsets: base .. base+win */
    const size_t *extra;
    int nextra;
} scen;

typedef struct { size_t off; int parent; size_t chunk; } node;
static node *Q;
static int qn, qcap;
#define STATE_CAP 20000

static size_t emitted(const scen *s, size_t off)
{
    int bl = s->f.d->bl;
    if (s->f.d->mode != M_ECB && s->f.d->mode != M_CBC) return off;
    if (!s->enc && s->pad) return off ? (off - 1) / bl * bl : 0;
    return off / bl * bl;
}
/* one update call with oracle */
static void feed(const scen *s, EVP_CIPHER_CTX *c, size_t *off, size_t n)
{
    size_t before = emitted(s, *off), after = emitted(s, *off + n), want = after - before;
    int stream = s->f.d->mode != M_ECB && s->f.d->mode != M_CBC, outl = -1;
    size_t cap = stream ? n : n + s->f.d->bl;
    u8 *in = malloc(n + 1), *out = s->inplace ? in : malloc(cap + 1);
    memcpy(in, s->in + *off, n);
    if (!s->inplace) memset(out, 0xA5, cap + 1);
    int r = EVP_CipherUpdate(c, out, &outl, in, n);
    if (r != 1) mc_fail(mc_fmt("update-fails:%s", s->f.d->sn), "update(%zu) at offset %zu returned %d", n, *off, r);
    if (outl != (int)want) mc_fail(mc_fmt("update-len:%s", s->f.d->sn), "update(%zu) at offset %zu: outl %d, expected %zu", n, *off, outl, want);
    if (memcmp(out, s->exp + before, want)) {
        size_t i = 0;
        while (out[i] == s->exp[before + i]) i++;
        mc_fail(mc_fmt("wrong-output:%s:%s", s->f.d->sn, s->enc ? "enc" : "dec"), "update(%zu) at offset %zu: byte %zu is %02x, expected %02x",
                n, *off, before + i, out[i], s->exp[before + i]);
    }
    if (!s->inplace) { for (size_t i = cap; i < cap + 1; i++) if (out[i] != 0xA5) mc_fail("overrun", "wrote behind the output"); free(out); }
    free(in);
    *off += n;
    mc_trans(1);
}
static EVP_CIPHER_CTX *start(const scen *s)
{
    rng_reset(s->rngmode);
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    if (!c || !conf_init(&s->f, c, s->enc, s->sbox, s->meshset)) {
        mc_fail(mc_fmt("init:%s", s->f.d->sn), "initialisation fails");
    }
    EVP_CIPHER_CTX_set_padding(c, s->pad);
    return c;
}
static void replay(const scen *s, EVP_CIPHER_CTX *c, int i, size_t *off)
{
    int path[256], n = 0;
    for (int j = i; j > 0 && n < 256; j = Q[j].parent) path[n++] = j;
    *off = 0;
    if (s->base) { mc_op("update(%zu)", s->base); feed(s, c, off, s->base); }
    while (n--) { mc_op("update(%zu)", Q[path[n]].chunk); feed(s, c, off, Q[path[n]].chunk); }
}
static int note_state(const scen *s, EVP_CIPHER_CTX *c, size_t off)
{
    static u8 b[65536];
    size_t n = EVP_CIPHER_impl_ctx_size(EVP_CIPHER_CTX_cipher(c)), k = 0;
    if (n > 60000) n = 60000;
    if (EVP_CIPHER_CTX_get_cipher_data(c)) { memcpy(b, EVP_CIPHER_CTX_get_cipher_data(c), n); k = n; }
    memcpy(b + k, EVP_CIPHER_CTX_iv(c), 16); k += 16;
    memcpy(b + k, EVP_CIPHER_CTX_original_iv(c), 16); k += 16;
    memcpy(b + k, EVP_CIPHER_CTX_buf_noconst(c), 32); k += 32;
    int num = EVP_CIPHER_CTX_num(c);
    memcpy(b + k, &num, 4); k += 4;
    memcpy(b + k, &off, 8); k += 8;
    return mc_state(b, k);
}
static void push(size_t off, int parent, size_t chunk)
{
    if (qn == qcap) Q = realloc(Q, (qcap = qcap ? 2 * qcap : 1024) * sizeof *Q);
    Q[qn++] = (node){ off, parent, chunk };
}
static void do_final(const scen *s, int i)
{
    size_t off;
    u8 out[64];
    int outl = -1, bl = s->f.d->bl, stream = s->f.d->mode != M_ECB && s->f.d->mode != M_CBC;
    mc_reset_trace();
    EVP_CIPHER_CTX *c = start(s);
    replay(s, c, i, &off);
    mc_op("final");
    int r = EVP_CipherFinal_ex(c, out, &outl);
    mc_trans(1);
    mc_n_execs++;
    if (stream || !s->pad) {
        int ok = stream || off % bl == 0;
        if ((r == 1) != ok || (ok && outl != 0))
            mc_fail(mc_fmt("final:%s", s->f.d->sn), "final at %zu returned %d len %d", off, r, outl);
    } else if (s->enc) {
        u8 *p = malloc(off + bl), *e = malloc(off + bl);
        size_t m = off / bl * bl + bl;
        memcpy(p, s->in, off);
        memset(p + off, (int)(m - off), m - off);
        conf_ref(&s->f, p, e, m, 1);
        if (r != 1 || outl != bl || memcmp(out, e + m - bl, bl))
            mc_fail(mc_fmt("pad-final:%s", s->f.d->sn), "padded final at %zu: r=%d outl=%d got %s want %s", off, r, outl, mc_hex(out, bl), mc_hex(e + m - bl, bl));
        free(p); free(e);
    } else {
        int ok = off && off % bl == 0, k = 0;
        if (ok) {
            const u8 *last = s->exp + off - bl;
            k = last[bl - 1];
            if (k < 1 || k > bl) ok = 0;
            else for (int j = bl - k; j < bl; j++) if (last[j] != k) ok = 0;
        }
        if ((r == 1) != ok || (ok && (outl != bl - k || memcmp(out, s->exp + off - bl, bl - k))))
            mc_fail(mc_fmt("unpad-final:%s", s->f.d->sn), "unpadded final at %zu: r=%d outl=%d", off, r, outl);
    }
    EVP_CIPHER_CTX_free(c);
}
static void explore(const scen *s)
{
    int bl = s->f.d->bl, stream = s->f.d->mode != M_ECB && s->f.d->mode != M_CBC;
    size_t off;
    qn = 0;
    mc_reset_trace();
    mc_states_reset();
    EVP_CIPHER_CTX *c = start(s);
    push(s->base, -1, 0);
    replay(s, c, 0, &off);
    note_state(s, c, off);
    EVP_CIPHER_CTX_free(c);
    for (int i = 0; i < qn; i++) {
        size_t at = Q[i].off, maxc = s->base + s->win - at;
        mc_alive();
        do_final(s, i);
        for (size_t k = 0; k <= maxc + s->nextra; k++) {
            size_t n = k <= maxc ? k : s->extra[k - maxc - 1];
            if (at + n > s->total) continue;
            if (s->inplace && (n == 0 || (!stream && n % bl))) continue;
            mc_reset_trace();
            c = start(s);
            replay(s, c, i, &off);
            mc_op("update(%zu)", n);
            feed(s, c, &off, n);
            mc_n_execs++;
            if (k <= maxc && note_state(s, c, off)) {
                if (qn < STATE_CAP) push(off, i, n);
                else mc_count("state_cap_hit", 1);
            }
            EVP_CIPHER_CTX_free(c);
        }
    }
}
/* IVs placing counter/carry edges inside the window */
static void edge_iv(cconf *f, int k)
{
    rbc c;
    u8 t[16];
    if (f->d->mode == M_CNT) {
        static const uint32_t n3[] = { 0xFEFEFEFEu, 0xFEFEFEFFu, 0, 0xFFFFFFFFu }, n4[] = { 0xFEFEFEFBu, 0xFEFEFEFCu, 0xFEFEFEFAu, 0xFDFDFDF7u };
        uint32_t a = n3[k & 3], b = n4[k & 3];
        for (int i = 0; i < 4; i++) { t[i] = a >> (8 * i); t[4 + i] = b >> (8 * i); }
        rbc_init(&c, BC_G89, f->key, f->sb);
        rbc_dec(&c, t, f->iv);
    } else if (k == 0) memset(f->iv, 0xff, f->d->ivlen);
    else if (k == 1) memset(f->iv, 0, f->d->ivlen);
    else if (k == 2) { memset(f->iv, 0xff, f->d->ivlen); f->iv[0] = 0x7f; }
    else { memset(f->iv, 0, f->d->ivlen); f->iv[f->d->ivlen - 1] = 0x80; }
}
static u8 *msg, *expb;
#define MSGMAX (300 * 1024)
static void run_windows(scen *s, const size_t *bnd, int nb, const char *tag)
{
    size_t maxb = 0;
    for (int i = 0; i < nb; i++) if (bnd[i] > maxb) maxb = bnd[i];
    size_t total = maxb + 2200 > MSGMAX ? MSGMAX : maxb + 2200;
    int stream = s->f.d->mode != M_ECB && s->f.d->mode != M_CBC;
    int bl = s->f.d->bl;
    size_t W = mc_thorough ? 5 * bl : (bl == 16 ? 40 : 26);
    static size_t extra[8];
    for (int w = 0; w < nb; w++)
        for (s->enc = 1; s->enc >= 0; s->enc--)
            for (s->inplace = 0; s->inplace <= 1; s->inplace++)
                MC_CASE("%s %s %s at %zu %s %s", s->f.d->sn, tag, s->enc ? "enc" : "dec", bnd[w], s->inplace ? "in-place" : "separate", s->pad ? "pad" : "") {
                    total = bnd[w] + 2200;
                    if (total > MSGMAX) total = MSGMAX;
                    if (!stream) total -= total % bl;
                    fill(msg, total, 7);
                    conf_ref(&s->f, msg, expb, total, 1);
                    if (s->enc) { s->in = msg; s->exp = expb; }
                    else { s->in = expb; s->exp = msg; }
                    s->total = total;
                    s->base = bnd[w] ? bnd[w] - W / 2 - 1 : 0;
                    s->win = bnd[w] ? W + 2 : W;
                    if (s->inplace && !stream) s->base -= s->base % bl;
                    extra[0] = 64; extra[1] = 1024; extra[2] = 1029; extra[3] = 2048;
                    s->extra = extra;
                    s->nextra = 4;
                    explore(s);
                    mc_outcome("%s", s->f.d->sn);
                    if (w == 0) mc_sample("states of %s %s window base %zu len %zu; last path: %s", s->f.d->sn, tag, s->base, s->win, "see trace of case");
                }
}
/* a long message in a few big updates */
static void long_message(const cdesc *d, int enc)
{
    cconf f;
    size_t n = (65536 + 300) * (size_t)d->bl, cut[] = { 1, 3 * d->bl + 1, 70001, 300000, 16, 0 }, o = 0;
    int stream = d->mode != M_ECB && d->mode != M_CBC, l;
    conf_defaults(&f, d, 40);
    u8 *m = malloc(n), *e = malloc(n), *b = malloc(n + 64);
    fill(m, n, 9);
    conf_ref(&f, m, e, n, 1);
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    rng_reset(RNG_STREAM);
    if (!conf_init(&f, c, enc, NULL, 0)) mc_fail(mc_fmt("init:%s", d->sn), "init fails");
    EVP_CIPHER_CTX_set_padding(c, 0);
    for (int i = 0; i < 6; i++) {
        size_t k = i == 5 ? n - o : cut[i];
        if (!stream) k -= i == 5 ? 0 : k % d->bl;
        mc_op("update(%zu)", k);
        mc_alive();
        if (EVP_CipherUpdate(c, b + o, &l, (enc ? m : e) + o, k) != 1 || l != (int)k) mc_fail(mc_fmt("update:%s", d->sn), "update of %zu at %zu fails", k, o);
        o += k;
        mc_trans(1);
    }
    mc_n_execs++;
    if (memcmp(b, enc ? e : m, n)) {
        for (o = 0; b[o] == (enc ? e : m)[o]; o++) ;
        mc_fail(mc_fmt("wrong-output:%s:long", d->sn), "byte %zu of %zu differs", o, n);
    }
    EVP_CIPHER_CTX_free(c);
    free(m); free(e); free(b);
}
/* counter mode across 2^24 blocks: blocks at and around every power of two */
static void huge_ctr(const cdesc *d)
{
    cconf f;
    size_t bl = d->bl, total = ((1 << 24) + 8) * bl, big = 1 << 24, o = 0;
    int l;
    rbc r;
    conf_defaults(&f, d, 41);
    rbc_init(&r, d->kind, f.key, f.sb);
    u8 *z = calloc(1, big), *b = malloc(big + 64);
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    if (!conf_init(&f, c, 1, NULL, 0)) mc_fail(mc_fmt("init:%s", d->sn), "init fails");
    while (o < total) {
        size_t k = total - o < big ? total - o : big - (o ? 0 : 5);
        mc_alive();
        if (EVP_CipherUpdate(c, b, &l, z, k) != 1 || l != (int)k) mc_fail(mc_fmt("update:%s", d->sn), "update fails at %zu", o);
        for (int p = 0; p <= 24; p++)
            for (long j = -2; j <= 2; j++) {
                size_t blk = (1ul << p) + j, at = blk * bl;
                u8 ctr[16], ks[16];
                if ((long)((1ul << p) + j) < 0 || at < o || at + bl > o + k) continue;
                memcpy(ctr, f.iv, 16);
                size_t x = blk;
                for (int q = bl - 1; q >= 0 && x; q--) { x += ctr[q]; ctr[q] = x; x >>= 8; }
                rbc_enc(&r, ctr, ks);
                mc_trans(1);
                if (memcmp(ks, b + (at - o), bl)) mc_fail(mc_fmt("wrong-output:%s:huge", d->sn), "keystream block %zu differs", blk);
            }
        o += k;
    }
    mc_n_execs++;
    EVP_CIPHER_CTX_free(c);
    free(z); free(b);
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    eng_init(0);
    msg = malloc(MSGMAX);
    expb = malloc(MSGMAX);
    for (int di = 0; di < NCD; di++) {
        const cdesc *d = &CD[di];
        for (int enc = 1; enc >= 0; enc--)
            MC_CASE("%s long message %s", d->sn, enc ? "enc" : "dec") long_message(d, enc);
        if (d->mode == M_CTR && !d->acpkm && (d->kind == BC_MAGMA || mc_thorough))
            MC_CASE("%s across 2^24 blocks", d->sn) huge_ctr(d);
        int stream = d->mode != M_ECB && d->mode != M_CBC;
        scen s;
        static size_t bnd[8];
        int nb = 0;
        bnd[nb++] = 0;
        if (d->meshsw) { bnd[nb++] = 1024; bnd[nb++] = 2048; }
        else if (d->acpkm) { bnd[nb++] = d->defsection; if (mc_thorough) bnd[nb++] = 2 * d->defsection; }
        if (d->mode == M_CTR || d->mode == M_CBC) bnd[nb++] = 256 * d->bl;
        /* default parameters, every RNG behaviour */
        for (int rm = 0; rm < 4; rm++) {
            memset(&s, 0, sizeof s);
            conf_defaults(&s.f, d, 1);
            s.rngmode = rm;
            if (rm == RNG_FAIL && d->kind != BC_KUZ && !(d->kind == BC_G89)) continue; /* Magma refuses to start: P12 */
            if (rm == RNG_FAIL && d->acpkm) continue;
            run_windows(&s, bnd, rm && !mc_thorough ? (nb > 1 ? 2 : 1) : nb, mc_fmt("default rng%d", rm));
        }
        /* boundary keys and IVs */
        for (int k = 0; k < 4; k++) {
            memset(&s, 0, sizeof s);
            conf_defaults(&s.f, d, 2 + k);
            if (k == 0) memset(s.f.key, 0, 32);
            if (k == 1) memset(s.f.key, 0xff, 32);
            if (d->ivlen) edge_iv(&s.f, k);
            run_windows(&s, bnd, mc_thorough ? nb : (nb > 1 ? 2 : 1), mc_fmt("edge%d", k));
        }
        /* S-boxes */
        if (d->sboxsel)
            for (int k = 0; k < 6; k++)
                for (int mesh = 0; mesh <= (d->meshsw ? 1 : 0); mesh++) {
                    memset(&s, 0, sizeof s);
                    conf_defaults(&s.f, d, 10 + k);
                    s.f.sb = *SBSEL[k].sb;
                    s.sbox = SBSEL[k].name;
                    s.f.mesh = mesh;
                    s.meshset = d->meshsw;
                    run_windows(&s, bnd, mc_thorough ? nb : (nb > 1 ? 2 : 1), mc_fmt("sbox %s mesh %d", SBSEL[k].name, mesh));
                }
        /* ACPKM sections */
        if (d->acpkm) {
            static const int secs[] = { 1, 2, 3, 4, 8, 16, 512, 16384 };
            for (int k = 0; k < 8; k++) {
                size_t b2[3];
                int n2 = 0;
                memset(&s, 0, sizeof s);
                conf_defaults(&s.f, d, 20 + k);
                s.f.section = secs[k] * d->bl;
                s.meshset = 1;
                if (s.f.section > MSGMAX - 3000) continue;
                b2[n2++] = 0;
                if (s.f.section >= 64) b2[n2++] = s.f.section;
                if (s.f.section >= 64 && s.f.section < 9000) b2[n2++] = 3 * s.f.section;
                run_windows(&s, b2, n2, mc_fmt("section %zu", s.f.section));
            }
        }
        /* PKCS padding */
        if (!stream) {
            memset(&s, 0, sizeof s);
            conf_defaults(&s.f, d, 30);
            s.pad = 1;
            MC_CASE("%s padded enc", d->sn) {
                size_t total = 400;
                fill(msg, total, 7);
                conf_ref(&s.f, msg, expb, 400, 1);
                s.in = msg; s.exp = expb; s.enc = 1; s.total = total; s.base = 0; s.win = 3 * d->bl + 2;
                explore(&s);
            }
            for (size_t n = 0; n <= 2 * d->bl + 1; n++)
                MC_CASE("%s padded dec of %zu bytes", d->sn, n) {
                    size_t m = n / d->bl * d->bl + d->bl;
                    fill(msg, n, 7);
                    memset(msg + n, (int)(m - n), m - n);
                    conf_ref(&s.f, msg, expb, m, 1);
                    s.in = expb; s.exp = msg; s.enc = 0; s.total = m; s.base = 0; s.win = m;
                    explore(&s);
                }
        }
    }
    return mc_finish();
}
