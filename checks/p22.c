/* P22: what is given back to the allocator. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "ops.h"
#include <execinfo.h>
#include <sys/mman.h>
/* ---------------------------------------------------------------- secrets */
static struct { u8 v[64]; size_t n; const char *what; } ND[2000]; static int nnd;
static u8 pfx[65536 / 8], sum1[65536 / 8];
#define PH(x) ((uint32_t)(x) * 2654435761u >> 16)
static uint32_t w32(const u8 *p) { uint32_t w; memcpy(&w, p, 4); return w; }
static void add_raw(const u8 *v, size_t n, const char *what)
{
    if (nnd >= 2000) mc_internal("needles");
    for (size_t i = 0, z = 0; i < n; i++) { z += !v[i]; if (z > n - 12) return; }
    memcpy(ND[nnd].v, v, n); ND[nnd].n = n; ND[nnd].what = what; nnd++;
    for (size_t o = 0; o + 12 <= n; o += 4) { uint32_t h = PH(w32(v + o)); pfx[h / 8] |= 1 << h % 8; }
    if (n == 32) { uint32_t h = PH(w32(v)); sum1[h / 8] |= 1 << h % 8; }
}
static void secret(const u8 *v, size_t n, const char *what)
{
    u8 t[64];
    if (n > 64) n = 64;
    for (int i = 0; i < nnd; i++) if (ND[i].n == n && !memcmp(ND[i].v, v, n)) return;
    add_raw(v, n, what);
    for (size_t i = 0; i < n; i++) t[i] = v[n - 1 - i];
    add_raw(t, n, what);
    if (n % 4 == 0) { for (size_t i = 0; i < n; i++) t[i] = v[i ^ 3]; add_raw(t, n, what); }
}
static void secret_bn(const BIGNUM *d, size_t n, const char *what) { u8 b[64]; if (BN_bn2binpad(d, b, n) > 0) secret(b, n, what); }
/* ---------------------------------------------------------------- looking */
static int looking; static char found[900], fwhat[80], ffun[80]; static long blocks, bytes;
extern void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, size_t n);
#define REPO_DIR "/repo/"
/* the function at an address; remembered across the forked runs */
static struct pcfn { void *pc; int mine; char name[100]; } *PCS;
#define NPC 8192
static const char *fn_at(void *pc, int *mine)
{
    size_t h = ((uintptr_t)pc * 0x9e3779b97f4a7c15u) >> 51;
    while (PCS[h].pc && PCS[h].pc != pc) h = (h + 1) % NPC;
    if (!PCS[h].pc) {
        char t[300] = "?", *e;
        __sanitizer_symbolize_pc(pc, "%f@%s", t, sizeof t);
        if ((e = strchr(t, '@'))) { *e++ = 0; PCS[h].mine = !strncmp(e, REPO_DIR, strlen(REPO_DIR)); }
        snprintf(PCS[h].name, sizeof PCS[h].name, "%.99s", t);
        PCS[h].pc = pc;
    }
    *mine = PCS[h].mine;
    return PCS[h].name;
}
static const char *hit(const u8 *p, size_t n)
{
    /* 12 bytes in a row of a secret, from any multiple of four in it */
    for (size_t i = 0; i + 12 <= n; i++) {
        uint32_t w = w32(p + i), h = PH(w);
        if (!(pfx[h / 8] >> h % 8 & 1)) continue;
        for (int k = 0; k < nnd; k++) for (size_t o = 0; o + 12 <= ND[k].n; o += 4) if (w32(ND[k].v + o) == w && !memcmp(p + i, ND[k].v + o, 12)) return ND[k].what;
    }
    /* two neighbouring groups of eight words that add up to a key */
    for (size_t i = 0; i + 64 <= n; i += 4) {
        uint32_t a[8], b[8], h = PH(w32(p + i) + w32(p + i + 32));
        if (!(sum1[h / 8] >> h % 8 & 1)) continue;
        memcpy(a, p + i, 32); memcpy(b, p + i + 32, 32);
        if (!(a[0] | b[0])) continue;
        for (int j = 0; j < 8; j++) a[j] += b[j];
        for (int k = 0; k < nnd; k++) if (ND[k].n == 32 && !memcmp(ND[k].v, a, 32)) return ND[k].what;
    }
    return NULL;
}
static void on_free(const u8 *p, size_t n, const char *file, int line)
{
    if (!looking || found[0]) return;
    looking = 0;
    int ar = al.armed; al.armed = 0;
    blocks++; bytes += n;
    const char *w = hit(p, n);
    if (w) {
        /* ours if an engine function is on the stack, or is named by the call */
        void *b[40]; int k = backtrace(b, 40), z, own = file && !strncmp(file, REPO_DIR, strlen(REPO_DIR));
        z = snprintf(found, sizeof found, "%s in a block of %zu bytes freed at %s:%d;", w, n, file ? file : "?", line);
        ffun[0] = 0;
        for (int i = 2; i < k && z < 800; i++) {
            int mine; const char *t = fn_at((char *)b[i] - 1, &mine);
            /* what the library's own decoder gives up half way */
            if (!own && !strncmp(t, "ASN1_item_d2i", 13)) break;
            if (mine) { own = 1; if (!ffun[0]) snprintf(ffun, sizeof ffun, "%s", t); }
            if (!strncmp(t, "CRYPTO_", 7) || !strncmp(t, "a_free", 6)) continue;
            z += snprintf(found + z, sizeof found - z, " <- %.60s", t);
        }
        if (!own) { mc_count("not_the_engines", 1); found[0] = 0; }
        else { if (!ffun[0]) { const char *f = strrchr(file, '/'); snprintf(ffun, sizeof ffun, "%s", f ? f + 1 : file); } snprintf(fwhat, sizeof fwhat, "%s", w); }
    }
    al.armed = ar;
    looking = 1;
}

/* ---------------------------------------------------------------- the secrets of an operation */
static void note(const u8 *v, size_t n, const char *what) { secret(v, n, what); }
static void start(void) { nnd = 0; memset(pfx, 0, sizeof pfx); memset(sum1, 0, sizeof sum1); ref_secret = note; }
static void stop(void) { ref_secret = NULL; }
static const cdesc *cd_of(const char *sn) { for (int i = 0; i < NCD; i++) if (!strcmp(CD[i].sn, sn)) return &CD[i]; return NULL; }
static void cipher_secrets(const char *sn, const u8 *key, const u8 *seed)
{
    static u8 o[16384]; u8 t[16];
    int kind = strstr(sn, "magma") ? BC_MAGMA : BC_KUZ;
    secret(key, 32, "key");
    if (strstr(sn, "mgm")) ref_mgm(kind, key, IV, NULL, 0, MSG, 100, o, t);
    else if (strstr(sn, "omac")) {
        u8 k[64]; rbc c; u8 iv[16] = { 0 };
        ref_kdftree(key, 32, (const u8 *)"kdf tree", 8, seed, 8, 1, 64, k);
        rbc_init(&c, kind, k, NULL);
        ref_ctr(&c, iv, MSG, o, 3200, kind == BC_MAGMA ? 1024 : 4096);
        ref_omac(kind, k + 32, MSG, 100, t);
    } else if (cd_of(sn)) {
        cconf f; conf_defaults(&f, cd_of(sn), 1); memcpy(f.key, key, 32); memcpy(f.iv, IV, 16);
        if (f.section) f.section = 1024;
        conf_ref(&f, MSG, o, 3200, 1);
        if (f.section) { f.section = f.d->defsection; conf_ref(&f, MSG, o, 3200, 1); }
    }
}
static void mac_secrets(const char *sn, const u8 *key)
{
    u8 o[16];
    secret(key, 32, "MAC key");
    if (!strcmp(sn, "magma-mac")) ref_omac(BC_MAGMA, key, MSG, 100, o);
    else if (!strcmp(sn, "kuznyechik-mac")) ref_omac(BC_KUZ, key, MSG, 100, o);
    else if (strstr(sn, "acpkm")) ref_omac_acpkm(key, 4096, 4096, MSG, 4096, o);
    else ref_imit(key, !strcmp(sn, "gost-mac") ? RSB_A : RSB_Z, 1, MSG, 3200, o);
}
static void transport_secrets(const op *o, const u8 *b, size_t n)
{
    pkset *s = &PK[o->a]; ktrans t; u8 k[64], w[80];
    secret(MSG, 32, "transported key");
    if (!kt_parse(s, !!o->s[0], b, n, &t)) mc_internal("blob of %s", o->name);
    if (!o->s[0]) {
        ref_vko(s, t.eph, IN[o->a].d, UKM, 8, s->dgst == NID_id_GostR3411_94 ? s->dgst : NID_id_GostR3411_2012_256, k);
        ref_cp_wrap(k, s->dgst == NID_id_GostR3411_94 ? RSB_A : RSB_Z, UKM, MSG, w);
    } else {
        ref_keg(s, t.eph, IN[o->a].d, UKM, k);
        ref_kexp15(o->s[0] == 'm' ? BC_MAGMA : BC_KUZ, k + 32, k, UKM + 24, o->s[0] == 'm' ? 4 : 8, MSG, 32, w);
        secret(k, 64, "key exchange key");
    }
    /* the one-time private key, from what the random source gave */
    BIGNUM *d = BN_new();
    struct rng_state sv = rng; int ok = 0, bits = BN_num_bits(s->c->q), nb = (bits + 7) / 8;
    for (int ex = 0; ex < 2 && !ok; ex++) for (size_t i = 0; i + nb + ex <= sv.log_len && !ok; i++) {
        BN_bin2bn(sv.log + i, nb + ex, d);
        BN_mask_bits(d, bits + ex);
        for (int z = 0; z < 2 && BN_cmp(d, s->c->q) >= 0 && ex; z++) BN_sub(d, d, s->c->q);
        if (BN_is_zero(d) || BN_cmp(d, s->c->q) >= 0) continue;
        EC_POINT *P = ec_mul(s->c, d, NULL);
        if (!EC_POINT_cmp(s->c->g, P, t.eph, ecbn)) { secret_bn(d, s->c->size, "one-time private key"); ok = 1; }
        EC_POINT_free(P);
    }
    rng = sv;
    if (!ok && rng.log_len) mc_count("one_time_key_not_traced", 1);
    BN_free(d);
}
static void op_secrets(const op *o, const u8 *out, size_t n)
{
    static const u8 q[8] = { 0, 0, 0, 1 }, q2[8] = { 0, 0, 0, 9, 0, 0, 1, 0 };
    u8 k[64], b[700]; size_t bl = 0; struct in *x = &IN[o->a]; pkset *s = &PK[o->a];
    struct rng_state sv = rng;
    start();
    if (o->f == f_keygen || o->f == f_paramgen) { BIGNUM *d = BN_bin2bn(out + 8, 64, NULL); secret_bn(d, s->c->size, "private key"); BN_free(d); }
    else if (o->f == f_mac || o->f == f_mackeygen) mac_secrets(o->s, KEY);
    else if (o->f == f_macraw) { mac_secrets(o->s, KEY); if (!strcmp(o->s, "magma-mac") || !strcmp(o->s, "kuznyechik-mac")) { ref_tlstree(o->s[0] == 'm' ? BC_MAGMA : BC_KUZ, KEY, q, k); mac_secrets(o->s, k); } }
    else if (o->f == f_cipher || o->f == f_cms) cipher_secrets(o->s, KEY, sv.log);
    else if (o->f == f_tls) { secret(KEY, 32, "key"); ref_tlstree(o->s[0] == 'm' ? BC_MAGMA : BC_KUZ, KEY, q2, k); cipher_secrets(o->s, k, sv.log); }
    else if (o->f == f_wrap) { secret(KEY, 64, "export key"); secret(MSG, 32, "exported key"); ref_kexp15(o->s[0] == 'm' ? BC_MAGMA : BC_KUZ, KEY + 32, KEY, IV, o->s[0] == 'm' ? 4 : 8, MSG, 32, b); }
    else if (o->f == f_kdf) { ref_kdftree(KEY, 32, MSG, 8, MSG, 8, 1, 64, k); ref_tlstree(BC_KUZ, KEY, MSG, k); }
    else if (o->f == f_ctrl) secret(KEY, 32, "key");
    else if (o->f == f_encrypt) transport_secrets(o, out, n);
    else if (o->f == f_decrypt) { stop(); rng_reset(RNG_STREAM); if (!f_encrypt(o, b, &bl)) mc_internal("no blob"); ref_secret = note; transport_secrets(o, b, bl); }
    else if (o->f == f_derive) {
        if (o->s[0] == 'k') { ref_keg(s, x->Q2, x->d, UKM, k); secret(k, 64, "derived key"); }
        else ref_vko(s, x->Q2, x->d, UKM, 8, o->s[1] == '9' ? NID_id_GostR3411_94 : o->s[1] == '2' ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_2012_512, k);
    }
    if (s->c && x->d && o->f != f_keygen && o->f != f_paramgen) { secret_bn(x->d, s->c->size, "private key"); secret_bn(x->d2, s->c->size, "private key"); }
    if (o->f == f_sign) { BIGNUM *r = BN_new(), *t = BN_new(), *kk = BN_new(); sig_unpack(s, out, r, t); if (ref_nonce(s, x->d, MSG, s->c->size, r, t, kk)) secret_bn(kk, s->c->size, "signature nonce"); BN_free(r); BN_free(t); BN_free(kk); }
    stop();
    rng = sv;
}
/* ---------------------------------------------------------------- */
static void look(void) { found[0] = 0; blocks = 0; looking = 1; }
static void seen(const char *name, const char *how)
{
    looking = 0;
    if (found[0]) mc_fail(mc_fmt("released:%s:%s", fwhat, ffun), "%s %s: %s", name, how, found);
}
static struct shared { int ok; size_t n; u8 out[8192]; long allocs, rngs, blocks; int failed; u8 site[1 << 16]; } *SH;
typedef struct { op *o; long at; int what; } job;
static void plain(void *v)
{
    job *j = v;
    rng_reset(RNG_STREAM);
    memset(&al, 0, sizeof al); al.freed = on_free;
    SH->ok = j->o->f(j->o, SH->out, &SH->n);
    if (!SH->ok) mc_fail(mc_fmt("broken:%s", j->o->name), "the operation fails");
    op_secrets(j->o, SH->out, SH->n);
    rng_reset(RNG_STREAM);
    al.armed = 1; al.n = 0; al.site = SH->site; al.site_max = sizeof SH->site;
    look();
    j->o->f(j->o, SH->out, &SH->n);
    al.armed = 0; al.site = NULL; SH->allocs = al.n; SH->rngs = rng.calls; SH->blocks = blocks;
    seen(j->o->name, "succeeds");
    if (!SH->blocks) mc_internal("nothing freed in %s", j->o->name);
}
static void faulty(void *v)
{
    job *j = v; u8 out[8192]; size_t n = 0;
    rng_reset(RNG_STREAM);
    memset(&al, 0, sizeof al); al.freed = on_free;
    if (!j->o->f(j->o, out, &n)) mc_internal("%s", j->o->name);
    op_secrets(j->o, out, n);
    rng_reset(RNG_STREAM);
    if (j->what) { rng.fail_at = j->at; rng.fail_ret = j->what == 1 ? 0 : -1; }
    else { al.armed = 1; al.n = 0; al.fail_at = j->at; al.failed = 0; }
    look();
    n = 0;
    int r = j->o->f(j->o, out, &n);
    al.armed = 0; rng.fail_at = 0;
    SH->failed = !r;
    seen(j->o->name, j->what ? "with failing random source" : mc_fmt("with failing allocation (%s:%d)", al.file ? al.file : "?", al.line));
    ERR_clear_error();
}
static void explore(op *o)
{
    job j = { o, 0, 0 };
    prep(o->a);
    memset(SH, 0, sizeof *SH);
    mc_reset_trace(); mc_op("no failure");
    mc_isolate(plain, &j);
    long total = SH->allocs, rt = SH->rngs;
    static u8 site[1 << 16]; memcpy(site, SH->site, sizeof site);
    mc_count("blocks_examined", SH->blocks);
    for (j.at = 1; j.at <= total; j.at++) {
        if (!mc_thorough && !site[j.at]) continue;
        mc_reset_trace(); mc_op("allocation %ld of %ld fails", j.at, total);
        mc_isolate(faulty, &j);
        mc_n_execs++; mc_trans(1); mc_count(SH->failed ? "failed_operations" : "completed_operations", 1);
    }
    for (j.what = 1; j.what < 3; j.what++) for (j.at = 1; j.at <= rt && (mc_thorough || j.at < 60); j.at++) {
        mc_reset_trace(); mc_op("random draw %ld of %ld fails", j.at, rt);
        mc_isolate(faulty, &j);
        mc_n_execs++; mc_trans(1); mc_count(SH->failed ? "failed_operations" : "completed_operations", 1);
    }
    mc_outcome("nothing left behind");
}
/* ---------------------------------------------------------------- keys and messages that are refused */
typedef struct { int i, form, what; size_t at; u8 b[700]; size_t n; int ok; } dmg;
static void dmg_secrets(dmg *d)
{
    struct in *x = &IN[d->i]; pkset *s = &PK[d->i];
    start();
    secret_bn(x->d, s->c->size, "private key"); secret_bn(x->d2, s->c->size, "private key");
    stop();
}
static void one_damaged_key(void *v)
{
    dmg *d = v; u8 *h = malloc(d->n ? d->n : 1); const u8 *p = h;
    memcpy(h, d->b, d->n);
    memset(&al, 0, sizeof al); al.freed = on_free;
    look();
    PKCS8_PRIV_KEY_INFO *x = d2i_PKCS8_PRIV_KEY_INFO(NULL, &p, d->n);
    EVP_PKEY *k = x ? EVP_PKCS82PKEY(x) : NULL;
    d->ok = !!k;
    EVP_PKEY_free(k);
    looking = 0;
    PKCS8_PRIV_KEY_INFO_free(x);
    seen("decode of a private key", d->ok ? "succeeds" : "refused");
    free(h);
    ERR_clear_error();
}
static void damaged_keys(int i, int form)
{
    static const u8 X[] = { 0x01, 0x80, 0xff, 0x10 };
    u8 p[600], e[700]; pkset *s = &PK[i]; dmg d = { .i = i, .form = form };
    prep(i);
    size_t pn = ref_priv(s, IN[i].d, form, p), n = ref_p8(s, pk_digest_oid(s), p, pn, e);
    dmg_secrets(&d);
    if (form >= PF_MASK1 && form <= PF_MASK3) {
        u8 w[12]; size_t sz = s->c->size;
        for (size_t o = 0; o + sz < pn; o += sz) { memcpy(w, p + o + sz - 6, 12); add_raw(w, 12, "masked private key and mask"); }
    }
    for (size_t at = 0; at <= n; at++) for (unsigned x = 0; x < (at < n ? sizeof X : 1u); x++) {
        if (at < n && !mc_thorough && x > 1) break;
        memcpy(d.b, e, n); d.n = n;
        if (at < n) d.b[at] ^= X[x];
        mc_reset_trace(); mc_op(at < n ? "byte %zu of %zu ^= %02x" : "undamaged", at, n, X[x]);
        one_damaged_key(&d);
        if (at == n && !d.ok) mc_fail("broken:decode", "%s form %d refused", pk_name(s), form);
        mc_n_execs++; mc_trans(1); mc_count(d.ok ? "keys_accepted" : "keys_refused", 1);
    }
    for (size_t l = 0; l < n; l++) {
        memcpy(d.b, e, n); d.n = l;
        mc_reset_trace(); mc_op("cut to %zu of %zu bytes", l, n);
        one_damaged_key(&d);
        mc_n_execs++; mc_trans(1); mc_count("keys_refused", 1);
    }
    mc_outcome("nothing left behind");
}
static void damaged_blobs(op *o)
{
    u8 b[700], c[700], out[700]; size_t n = 0; int done = 0;
    prep(o->a);
    rng_reset(RNG_STREAM);
    if (!f_encrypt(o, b, &n)) mc_internal("no blob");
    op e = *o; e.f = f_encrypt;
    op_secrets(&e, b, n);
    if (ref_secret) mc_internal("hook");
    static const u8 X[] = { 0x01, 0x80, 0x04, 0xff };
    EVP_PKEY *k = priv(o->a);
    for (size_t at = 0; at < n; at++) for (int x = 0; x < (mc_thorough ? 4 : 2); x++) {
        memcpy(c, b, n); c[at] ^= X[x];
        mc_reset_trace(); mc_op("byte %zu of %zu ^= %02x", at, n, X[x]);
        memset(&al, 0, sizeof al); al.freed = on_free;
        look();
        EVP_PKEY_CTX *p = EVP_PKEY_CTX_new(k, E); size_t l = 32;
        int r = p && EVP_PKEY_decrypt_init(p) == 1 && (!o->s[0] || set_kt(o, p)) && EVP_PKEY_decrypt(p, out, &l, c, n) == 1;
        EVP_PKEY_CTX_free(p);
        seen(o->name, r ? "accepted" : "refused");
        ERR_clear_error();
        mc_n_execs++; mc_trans(1); mc_count(r ? "blobs_accepted" : "blobs_refused", 1); done += !r;
    }
    EVP_PKEY_free(k);
    if (!done) mc_fail("broken:damaged", "no damaged blob is refused");
    mc_outcome("nothing left behind");
}
/* wrapped keys and authenticated messages with a wrong tag */
static void damaged_wrap(op *o)
{
    u8 b[200], out[200], w[200], iv[8]; int wl = sizeof w, mg = o->s[0] == 'm', l, l2;
    op_secrets(o, b, 0);
    memcpy(iv, IV, 8);
    if (gost_kexp15(MSG, 32, mg ? NID_magma_ctr : NID_grasshopper_ctr, KEY + 32, mg ? NID_magma_mac : NID_grasshopper_mac, KEY, iv, mg ? 4 : 8, w, &wl) <= 0) mc_internal("kexp15");
    const EVP_CIPHER *ci = ENGINE_get_cipher(E, OBJ_sn2nid(mg ? "magma-kexp15" : "kuznyechik-kexp15"));
    for (int at = 0; at < wl; at++) for (int bit = 0; bit < 8; bit++) for (int cut = 0; cut < 2; cut++) {
        memcpy(b, w, wl); b[at] ^= 1 << bit;
        mc_reset_trace(); mc_op("byte %d of %d ^= %02x%s", at, wl, 1 << bit, cut ? ", in two pieces" : "");
        memset(&al, 0, sizeof al); al.freed = on_free;
        look();
        EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
        EVP_CIPHER_CTX_set_flags(c, EVP_CIPHER_CTX_FLAG_WRAP_ALLOW);
        int r = EVP_CipherInit_ex(c, ci, E, KEY, IV, 0) == 1 && EVP_CipherUpdate(c, out, &l, b, cut ? at : wl) == 1 && (!cut || EVP_CipherUpdate(c, out + l, &l, b + at, wl - at) == 1) && EVP_CipherFinal_ex(c, out + l, &l2) == 1;
        EVP_CIPHER_CTX_free(c);
        seen(o->name, "refused");
        ERR_clear_error();
        if (r && !cut) mc_fail("broken:wrap", "a damaged key is accepted");
        /* the same with the function behind it */
        look();
        r = gost_kimp15(b, wl, mg ? NID_magma_ctr : NID_grasshopper_ctr, KEY + 32, mg ? NID_magma_mac : NID_grasshopper_mac, KEY, iv, mg ? 4 : 8, out) > 0;
        seen(o->name, "refused");
        ERR_clear_error();
        mc_n_execs++; mc_trans(1); mc_count("wrapped_keys_refused", 1);
    }
    mc_outcome("nothing left behind");
}
/* ---------------------------------------------------------------- life histories */
static u8 KA[32], KB[32];
static const u8 TREE[8] = { 0, 0, 0, 9, 0, 0, 1, 0 };
typedef struct { int n; u8 op[12]; } hist;
static void pick(hist *h, int nops, int depth)
{
    h->n = 0;
    for (int i = 0; i < depth; i++) { int c = mc_choose(nops + 1); if (!c) break; h->op[h->n++] = c - 1; }
}
static const char *cl_sn; static int cl_depth;
static void cl_key(const char *sn, const u8 *k)
{
    u8 t[32], big[32];
    static u8 o[16384];
    cipher_secrets(sn, k, rng.log);
    const cdesc *d = cd_of(sn);
    if (d) {
        cconf f; conf_defaults(&f, d, 1); memcpy(f.key, k, 32); memcpy(f.iv, IV, 16);
        f.mesh = 1; conf_ref(&f, MSG, o, 4000, 1);
        if (d->acpkm) { f.section = 512; conf_ref(&f, MSG, o, 4000, 1); }
        /* a mesh may have been carried into the other S-box */
    }
    (void)big;
    ref_tlstree(*sn == 'm' ? BC_MAGMA : BC_KUZ, k, TREE, t);
    secret(t, 32, "record key");
    if (d) { cconf f; conf_defaults(&f, d, 1); memcpy(f.key, t, 32); memcpy(f.iv, IV, 16); if (d->acpkm) { f.section = 512; conf_ref(&f, MSG, o, 4000, 1); } if (d->acpkm) { f.section = d->defsection; conf_ref(&f, MSG, o, 4000, 1); } }
}
static int cl_collect;
static void cl_seeded(const char *sn, const u8 *k, size_t from)
{
    if (!cl_collect || !strstr(sn, "omac") || from + 8 > rng.log_len) return;
    struct rng_state sv = rng;
    ref_secret = note; cipher_secrets(sn, k, sv.log + from); ref_secret = NULL;
    rng = sv;
}
static void cl_run(const hist *h, int quiet)
{
    const EVP_CIPHER *ci = ENGINE_get_cipher(E, OBJ_sn2nid(cl_sn)), *other = ENGINE_get_cipher(E, OBJ_sn2nid(*cl_sn == 'k' ? "magma-ctr-acpkm" : *cl_sn == 'm' ? "kuznyechik-ctr-acpkm" : "magma-cbc"));
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(), *t; static u8 out[3000]; int l; const u8 *key = KA;
    ASN1_TYPE *at; size_t from = rng.log_len; u8 tag[16];
    EVP_CipherInit_ex(c, ci, E, KA, IV, 1); cl_seeded(cl_sn, KA, from);
    for (int i = 0; i < h->n; i++) {
        from = rng.log_len;
        switch (h->op[i]) {
        case 0: if (!quiet) mc_op("update(40)"); EVP_CipherUpdate(c, out, &l, MSG, 40); break;
        case 1: if (!quiet) mc_op("update(1104)"); EVP_CipherUpdate(c, out, &l, MSG, 1104); break;
        case 2: if (!quiet) mc_op("init(key B)"); EVP_CipherInit_ex(c, NULL, NULL, key = KB, NULL, 1); cl_seeded(cl_sn, KB, from); break;
        case 3: if (!quiet) mc_op("init(iv)"); EVP_CipherInit_ex(c, NULL, NULL, NULL, IV, 1); cl_seeded(cl_sn, key, from); break;
        case 4: if (!quiet) mc_op("copy, free the original"); t = EVP_CIPHER_CTX_new(); EVP_CIPHER_CTX_copy(t, c); EVP_CIPHER_CTX_free(c); c = t; break;
        case 5: if (!quiet) mc_op("reset, init(cipher, key B, iv)"); EVP_CIPHER_CTX_reset(c); EVP_CipherInit_ex(c, ci, E, key = KB, IV, 0); cl_seeded(cl_sn, KB, from); break;
        case 6: if (!quiet) mc_op("section 512"); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_KEY_MESH, 512, NULL); break;
        case 7: if (!quiet) mc_op("record key"); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_TLSTREE, 0, (void *)TREE); break;
        case 8: if (!quiet) mc_op("init(other cipher, key B, iv)"); EVP_CipherInit_ex(c, other, E, KB, IV, 1); break;
        case 9: if (!quiet) mc_op("final and tag"); EVP_CipherFinal_ex(c, out, &l); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, *cl_sn == 'm' ? 8 : 16, tag); break;
        case 10: if (!quiet) mc_op("parameters out and in"); at = ASN1_TYPE_new(); if (EVP_CIPHER_param_to_asn1(c, at) > 0) EVP_CIPHER_asn1_to_param(c, at); ASN1_TYPE_free(at); break;
        }
        ERR_clear_error();
    }
    EVP_CIPHER_CTX_free(c);
}
static struct { u8 pfx[sizeof pfx], sum1[sizeof sum1]; int nnd; } base;
static void mark(void) { base.nnd = nnd; memcpy(base.pfx, pfx, sizeof pfx); memcpy(base.sum1, sum1, sizeof sum1); }
static void back(void) { if (nnd == base.nnd) return; nnd = base.nnd; memcpy(pfx, base.pfx, sizeof pfx); memcpy(sum1, base.sum1, sizeof sum1); }
static void cl_one(void *v)
{
    hist h; (void)v;
    pick(&h, 11, cl_depth);
    back();
    memset(&al, 0, sizeof al); al.freed = on_free;
    if (strstr(cl_sn, "omac")) { rng_reset(RNG_STREAM); cl_collect = 1; cl_run(&h, 1); cl_collect = 0; }
    rng_reset(RNG_STREAM);
    look();
    cl_run(&h, 0);
    seen(cl_sn, "context");
    mc_trans(h.n + 1);
}
static void cipher_lives(const char *sn)
{
    static u8 o[16384]; cconf f;
    cl_sn = sn; cl_depth = mc_thorough ? 4 : 3;
    rng_reset(RNG_STREAM);
    start();
    cl_key(sn, KA); cl_key(sn, KB);
    /* the other cipher with key B */
    const char *on = *sn == 'k' ? "magma-ctr-acpkm" : *sn == 'm' ? "kuznyechik-ctr-acpkm" : "magma-cbc";
    conf_defaults(&f, cd_of(on), 1); memcpy(f.key, KB, 32); memcpy(f.iv, IV, 16); conf_ref(&f, MSG, o, 4000, 1);
    if (f.d->acpkm) { f.section = 512; conf_ref(&f, MSG, o, 4000, 1); }
    stop();
    mark();
    mc_explore(cl_one, NULL);
    mc_outcome("nothing left behind");
}
/* MAC contexts, keyed directly */
static void ml_run(const hist *h, int quiet)
{
    const EVP_MD *md = ENGINE_get_digest(E, OBJ_sn2nid(cl_sn));
    EVP_MD_CTX *c = EVP_MD_CTX_new(), *t; u8 out[64]; unsigned l; EVP_PKEY *k;
    EVP_DigestInit_ex(c, md, E); EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_SET_KEY, 32, KA);
    for (int i = 0; i < h->n; i++) {
        switch (h->op[i]) {
        case 0: if (!quiet) mc_op("update(100)"); EVP_DigestUpdate(c, MSG, 100); break;
        case 1: if (!quiet) mc_op("update(4096)"); EVP_DigestUpdate(c, MSG, 4096); break;
        case 2: if (!quiet) mc_op("key B"); EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_SET_KEY, 32, KB); break;
        case 3: if (!quiet) mc_op("copy, free the original"); t = EVP_MD_CTX_new(); EVP_MD_CTX_copy_ex(t, c); EVP_MD_CTX_free(c); c = t; break;
        case 4: if (!quiet) mc_op("final"); EVP_DigestFinal_ex(c, out, &l); break;
        case 5: if (!quiet) mc_op("record key"); EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_TLSTREE, 0, (void *)TREE); break;
        case 6: if (!quiet) mc_op("reset, init, key B"); EVP_MD_CTX_reset(c); EVP_DigestInit_ex(c, md, E); EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_SET_KEY, 32, KB); break;
        case 7: if (!quiet) mc_op("copy over itself from a fresh context"); t = EVP_MD_CTX_new(); EVP_DigestInit_ex(t, md, E); EVP_MD_CTX_ctrl(t, EVP_MD_CTRL_SET_KEY, 32, KB); EVP_DigestUpdate(t, MSG, 60); EVP_MD_CTX_copy_ex(c, t); EVP_MD_CTX_free(t); break;
        case 8: if (!quiet) mc_op("signing context on a MAC key"); EVP_MD_CTX_reset(c); k = EVP_PKEY_new_mac_key(EVP_MD_type(md), E, KA, 32); EVP_DigestSignInit(c, NULL, md, E, k); EVP_PKEY_free(k); break;
        }
        ERR_clear_error();
    }
    EVP_MD_CTX_free(c);
}
static void ml_one(void *v)
{
    hist h; (void)v;
    pick(&h, 9, cl_depth);
    memset(&al, 0, sizeof al); al.freed = on_free;
    rng_reset(RNG_STREAM);
    look();
    ml_run(&h, 0);
    seen(cl_sn, "context");
    mc_trans(h.n + 1);
}
static void mac_lives(const char *sn)
{
    u8 o[32], t[32]; int kind = *sn == 'm' ? BC_MAGMA : BC_KUZ;
    cl_sn = sn; cl_depth = mc_thorough ? 5 : 4;
    rng_reset(RNG_STREAM);
    start();
    for (int i = 0; i < 2; i++) {
        const u8 *k = i ? KB : KA;
        mac_secrets(sn, k);
        ref_tlstree(kind, k, TREE, t); mac_secrets(sn, t);
        static u8 m[4096 * 6];
        if (strstr(sn, "acpkm")) { ref_omac_acpkm(k, 4096, 4096, m, 20000, o); ref_omac_acpkm(t, 4096, 4096, m, 20000, o); }
        else if (!strncmp(sn, "gost-mac", 8)) ref_imit(k, !strcmp(sn, "gost-mac") ? RSB_A : RSB_Z, 1, m, 20000, o);
    }
    stop();
    mc_explore(ml_one, NULL);
    mc_outcome("nothing left behind");
}
/* MAC keys: parameters of the key generation, keys, and contexts holding them, given up in any order */
static void kl_run(const hist *h)
{
    int nid = OBJ_sn2nid(cl_sn); const EVP_MD *md = ENGINE_get_digest(E, nid); char hex[70];
    EVP_PKEY_CTX *p = EVP_PKEY_CTX_new_id(nid, E), *q; EVP_PKEY *k = NULL; EVP_MD_CTX *c = EVP_MD_CTX_new(), *t; u8 out[64]; size_t l; int st = 0;
    EVP_PKEY_keygen_init(p);
    for (int i = 0; i < h->n; i++) {
        switch (h->op[i]) {
        case 0: mc_op("key A"); EVP_PKEY_CTX_ctrl(p, -1, EVP_PKEY_OP_KEYGEN, EVP_PKEY_CTRL_SET_MAC_KEY, 32, KA); break;
        case 1: mc_op("key B as text"); for (int j = 0; j < 32; j++) hex[j] = 'a' + j % 26; hex[32] = 0; EVP_PKEY_CTX_ctrl_str(p, "key", hex); break;
        case 2: mc_op("key B in hexadecimal"); for (int j = 0; j < 32; j++) snprintf(hex + 2 * j, 3, "%02x", KB[j]); EVP_PKEY_CTX_ctrl_str(p, "hexkey", hex); break;
        case 3: mc_op("31 bytes of key B in hexadecimal"); for (int j = 0; j < 31; j++) snprintf(hex + 2 * j, 3, "%02x", KB[j]); EVP_PKEY_CTX_ctrl_str(p, "hexkey", hex); break;
        case 4: mc_op("generate"); EVP_PKEY_free(k); k = NULL; EVP_PKEY_keygen(p, &k); break;
        case 5: mc_op("copy of the parameters, free the original"); q = EVP_PKEY_CTX_dup(p); if (q) { EVP_PKEY_CTX_free(p); p = q; } break;
        case 6: mc_op("sign init"); EVP_MD_CTX_reset(c); st = k && EVP_DigestSignInit(c, NULL, md, E, k) == 1; break;
        case 7: mc_op("update and final"); if (st) { EVP_DigestSignUpdate(c, MSG, 50); l = 64; EVP_DigestSignFinal(c, out, &l); } break;
        case 8: mc_op("copy of the context, free the original"); t = EVP_MD_CTX_new(); st = EVP_MD_CTX_copy_ex(t, c) == 1 && st; EVP_MD_CTX_free(c); c = t; break;
        case 9: mc_op("new parameters"); EVP_PKEY_CTX_free(p); p = EVP_PKEY_CTX_new_id(nid, E); EVP_PKEY_keygen_init(p); break;
        }
        ERR_clear_error();
    }
    EVP_PKEY_CTX_free(p); EVP_MD_CTX_free(c); EVP_PKEY_free(k);
}
static void kl_one(void *v)
{
    hist h; (void)v;
    pick(&h, 10, cl_depth);
    memset(&al, 0, sizeof al); al.freed = on_free;
    rng_reset(RNG_STREAM);
    look();
    kl_run(&h);
    seen(cl_sn, "key");
    mc_trans(h.n + 1);
}
static void key_lives(const char *sn)
{
    u8 t[32];
    cl_sn = sn; cl_depth = mc_thorough ? 5 : 4;
    start();
    for (int j = 0; j < 32; j++) t[j] = 'a' + j % 26;
    mac_secrets(sn, KA); mac_secrets(sn, KB); mac_secrets(sn, t);
    stop();
    mc_explore(kl_one, NULL);
    mc_outcome("nothing left behind");
}
/* contexts of private keys */
static op *pl_op; static u8 pl_blob[700]; static size_t pl_n; static EVP_PKEY *pl_peer;
static void pl_sign_secret(const u8 *sig) { op s = *pl_op; pkset *q = &PK[s.a]; BIGNUM *r = BN_new(), *t = BN_new(), *kk = BN_new(); struct rng_state sv = rng; sig_unpack(q, sig, r, t); if (ref_nonce(q, IN[s.a].d, MSG + 200, q->c->size, r, t, kk)) secret_bn(kk, q->c->size, "signature nonce"); BN_free(r); BN_free(t); BN_free(kk); rng = sv; }
static void pl_enc_secret(const u8 *b, size_t n) { struct rng_state sv = rng; ref_secret = note; transport_secrets(pl_op, b, n); ref_secret = NULL; rng = sv; }
static void pl_run(const hist *h)
{
    op *o = pl_op; pkset *s = &PK[o->a]; EVP_PKEY *k = priv(o->a), *g = NULL; EVP_PKEY_CTX *p = EVP_PKEY_CTX_new(k, E), *q; u8 out[700], par[32]; size_t l;
    BIGNUM *bd;
    for (int i = 0; i < h->n; i++) {
        int quiet = cl_collect;
#define W(t) if (!quiet) mc_op(t)
        switch (h->op[i]) {
        case 0: W("encrypt"); EVP_PKEY_encrypt_init(p); set_kt(o, p); l = 600; if (EVP_PKEY_encrypt(p, out, &l, MSG, 32) == 1 && cl_collect) pl_enc_secret(out, l); break;
        case 1: W("decrypt"); EVP_PKEY_decrypt_init(p); if (o->s[0]) set_kt(o, p); l = 32; EVP_PKEY_decrypt(p, par, &l, pl_blob, pl_n); break;
        case 2: W("derive"); EVP_PKEY_derive_init(p); EVP_PKEY_derive_set_peer(p, pl_peer); EVP_PKEY_CTX_ctrl(p, -1, -1, EVP_PKEY_CTRL_SET_IV, o->s[0] ? 32 : 8, UKM); l = 64; EVP_PKEY_derive(p, out, &l); break;
        case 3: W("sign"); EVP_PKEY_sign_init(p); l = 128; if (EVP_PKEY_sign(p, out, &l, MSG + 200, s->c->size) == 1 && cl_collect) pl_sign_secret(out); break;
        case 4: W("copy, free the original"); q = EVP_PKEY_CTX_dup(p); if (q) { EVP_PKEY_CTX_free(p); p = q; } break;
        case 5: W("generate"); EVP_PKEY_keygen_init(p); EVP_PKEY_free(g); g = NULL; if (EVP_PKEY_keygen(p, &g) == 1 && cl_collect && (bd = (BIGNUM *)EC_KEY_get0_private_key(EVP_PKEY_get0(g)))) secret_bn(bd, s->c->size, "private key"); break;
        case 6: W("context of the new key"); if (g) { EVP_PKEY_CTX_free(p); p = EVP_PKEY_CTX_new(g, E); } break;
        case 7: W("encode and decode"); { PKCS8_PRIV_KEY_INFO *x = EVP_PKEY2PKCS8(k); EVP_PKEY *k2 = x ? EVP_PKCS82PKEY(x) : NULL; EVP_PKEY_free(k); k = k2; int lk = looking; looking = 0; PKCS8_PRIV_KEY_INFO_free(x); looking = lk; break; }
        case 8: W("give up the key"); EVP_PKEY_free(k); k = priv(o->a); break;
        }
        ERR_clear_error();
        if (!k) mc_fail("broken:key", "key lost");
    }
    EVP_PKEY_CTX_free(p); EVP_PKEY_free(k); EVP_PKEY_free(g);
}
static void pl_one(void *v)
{
    hist h; (void)v;
    pick(&h, 9, cl_depth);
    back();
    memset(&al, 0, sizeof al); al.freed = on_free;
    rng_reset(RNG_STREAM); cl_collect = 1; pl_run(&h); cl_collect = 0;
    rng_reset(RNG_STREAM);
    look();
    pl_run(&h);
    seen(pl_op->name, "context");
    mc_trans(h.n + 1);
}
static void pkey_lives(op *o)
{
    u8 k[64]; pkset *s;
    prep(o->a); s = &PK[o->a];
    pl_op = o; cl_depth = mc_thorough ? 3 : 2;
    rng_reset(RNG_STREAM);
    pl_n = 0; op e = *o; e.f = f_encrypt;
    if (!f_encrypt(o, pl_blob, &pl_n)) mc_internal("blob");
    op_secrets(&e, pl_blob, pl_n);
    ref_secret = note;
    if (o->s[0]) { ref_keg(s, IN[o->a].Q2, IN[o->a].d, UKM, k); secret(k, 64, "derived key"); }
    else ref_vko(s, IN[o->a].Q2, IN[o->a].d, UKM, 8, s->dgst == NID_id_GostR3411_94 ? s->dgst : NID_id_GostR3411_2012_256, k);
    ref_secret = NULL;
    mark();
    pl_peer = pubb(o->a);
    mc_explore(pl_one, NULL);
    EVP_PKEY_free(pl_peer);
    mc_outcome("nothing left behind");
}
int main(int argc, char **argv)
{
    alloc_install();
    mc_init(argc, argv);
    eng_init(1);
    pk_init();
    SH = mmap(NULL, sizeof *SH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    PCS = mmap(NULL, NPC * sizeof *PCS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ops_init();
    fill(KA, 32, 70); fill(KB, 32, 71);
    for (int i = 0; i < NOPS; i++) MC_CASE("%s", OPS[i].name) explore(&OPS[i]);
    for (int j = 0; j < 3; j++) for (int form = 0; form < NPF; form++) {
        int i = 0;
        for (int k = 0; k < NOPS; k++) if (OPS[k].f == f_priv && strstr(OPS[k].name, j == 0 ? "2001" : j == 1 ? "2012_256" : "2012_512")) i = OPS[k].a;
        MC_CASE("damaged private key %d form %d", j, form) damaged_keys(i, form);
    }
    for (int i = 0; i < NOPS; i++) {
        op *o = &OPS[i];
        if (o->f == f_decrypt) { MC_CASE("damaged %s", o->name) damaged_blobs(o); MC_CASE("lives of %s", o->name) pkey_lives(o); }
        if (o->f == f_wrap) MC_CASE("damaged %s", o->name) damaged_wrap(o);
        if (o->f == f_cipher) MC_CASE("lives of %s", o->name) cipher_lives(o->s);
        if (o->f == f_macraw) MC_CASE("lives of %s", o->name) mac_lives(o->s);
        if (o->f == f_mackeygen) MC_CASE("lives of %s", o->name) key_lives(o->s);
    }
    return mc_finish();
}
