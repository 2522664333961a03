#define OPENSSL_SUPPRESS_DEPRECATED
#include "eng.h"
#include <unistd.h>
#include <fcntl.h>
ENGINE *E;
struct rng_state rng;

void rng_reset(int mode)
{
    memset(&rng, 0, sizeof rng);
    rng.mode = mode;
    rng.s = 0x243F6A8885A308D3ull;
}
static int rng_bytes(unsigned char *b, int n)
{
    rng.calls++;
    if (rng.mode == RNG_FAIL || (rng.fail_at && (rng.calls == rng.fail_at || (rng.fail_sticky && rng.calls > rng.fail_at))))
        return rng.fail_ret;
    for (int i = 0; i < n; i++) {
        u8 v;
        if (rng.script_pos < rng.script_len) v = rng.script[rng.script_pos++];
        else if (rng.mode == RNG_ZERO) v = 0;
        else if (rng.mode == RNG_FF) v = 0xff;
        else {
            rng.s ^= rng.s << 13; rng.s ^= rng.s >> 7; rng.s ^= rng.s << 17;
            v = rng.s >> 24;
        }
        b[i] = v;
        if (rng.log_len < sizeof rng.log) rng.log[rng.log_len++] = v;
    }
    rng.bytes += n;
    return 1;
}
static int rng_status(void) { return 1; }
static RAND_METHOD meth = { NULL, rng_bytes, NULL, NULL, rng_bytes, rng_status };

void fill(u8 *p, size_t n, unsigned seed)
{
    uint64_t s = 0x9E3779B97F4A7C15ull * (seed + 1) + 0x1234567;
    for (size_t i = 0; i < n; i++) {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        p[i] = s >> 32;
    }
}
extern void ENGINE_load_gost(void);
void eng_rand(void) { rng_reset(RNG_STREAM); RAND_set_rand_method(&meth); }
void eng_init(int set_default)
{
    int r = ref_selftest();
    if (r) mc_internal("reference model self test %d failed", r);
    rng_reset(RNG_STREAM);
    OPENSSL_init_crypto(OPENSSL_INIT_NO_LOAD_CONFIG | OPENSSL_INIT_LOAD_CRYPTO_STRINGS, NULL);
    RAND_set_rand_method(&meth);
#ifdef KIND_ENGINE
    ENGINE_load_gost();
    E = ENGINE_by_id("gost");
    if (!E || !ENGINE_init(E)) { ERR_print_errors_fp(stderr); mc_internal("cannot load the engine"); }
    if (set_default && !ENGINE_set_default(E, ENGINE_METHOD_ALL)) mc_internal("ENGINE_set_default");
#endif
}
#ifdef KIND_ENGINE
const EVP_CIPHER *eng_cipher(const char *sn)
{
    const EVP_CIPHER *c = ENGINE_get_cipher(E, OBJ_sn2nid(sn));
    if (!c) mc_fail(mc_fmt("no-cipher:%s", sn), "engine does not provide %s", sn);
    return c;
}
const EVP_MD *eng_digest(const char *sn)
{
    const EVP_MD *c = ENGINE_get_digest(E, OBJ_sn2nid(sn));
    if (!c) mc_fail(mc_fmt("no-digest:%s", sn), "engine does not provide %s", sn);
    return c;
}
#endif
const cdesc CD[] = {
    /* sn                    kind      mode   bl iv acpkm defsec meshsw sboxsel */
    { "gost89",              BC_G89,   M_CFB, 8, 8, 0, 0, 1, 1 },
    { "gost89-cnt",          BC_G89,   M_CNT, 8, 8, 0, 0, 1, 1 },
    { "gost89-cnt-12",       BC_G89,   M_CNT, 8, 8, 0, 0, 1, 1, 1 },
    { "gost89-cbc",          BC_G89,   M_CBC, 8, 8, 0, 0, 0, 1 },
    { "magma-ecb",           BC_MAGMA, M_ECB, 8, 0, 0, 0, 0, 0 },
    { "magma-cbc",           BC_MAGMA, M_CBC, 8, 8, 0, 0, 0, 0 },
    { "magma-ctr",           BC_MAGMA, M_CTR, 8, 4, 0, 0, 0, 0 },
    { "magma-ctr-acpkm",     BC_MAGMA, M_CTR, 8, 4, 1, 1024, 0, 0 },
    { "kuznyechik-ecb",      BC_KUZ,   M_ECB, 16, 0, 0, 0, 0, 0 },
    { "kuznyechik-cbc",      BC_KUZ,   M_CBC, 16, 16, 0, 0, 0, 0 },
    { "kuznyechik-cfb",      BC_KUZ,   M_CFB, 16, 16, 0, 0, 0, 0 },
    { "kuznyechik-ofb",      BC_KUZ,   M_OFB, 16, 16, 0, 0, 0, 0 },
    { "kuznyechik-ctr",      BC_KUZ,   M_CTR, 16, 8, 0, 0, 0, 0 },
    { "kuznyechik-ctr-acpkm",BC_KUZ,   M_CTR, 16, 8, 1, 4096, 0, 0 },
};
const int NCD = sizeof CD / sizeof *CD;
const struct sbsel SBSEL[6] = {
    { "id-tc26-gost-28147-param-Z", &RSB_Z },
    { "id-Gost28147-89-CryptoPro-A-ParamSet", &RSB_A },
    { "id-Gost28147-89-CryptoPro-B-ParamSet", &RSB_B },
    { "id-Gost28147-89-CryptoPro-C-ParamSet", &RSB_C },
    { "id-Gost28147-89-CryptoPro-D-ParamSet", &RSB_D },
    { "id-Gost28147-89-TestParamSet", &RSB_TEST },
};
void conf_defaults(cconf *f, const cdesc *d, unsigned kseed)
{
    memset(f, 0, sizeof *f);
    f->d = d;
    f->sb = d->mode == M_CNT && !d->cnt12 ? RSB_A : RSB_Z;
    f->mesh = d->meshsw;
    f->section = d->defsection;
    fill(f->key, 32, kseed);
    fill(f->iv, d->ivlen, kseed + 1000);
}
void conf_ref(const cconf *f, const u8 *in, u8 *out, size_t n, int enc)
{
    const cdesc *d = f->d;
    rbc c;
    if (d->kind == BC_G89 && d->mode == M_CFB) { ref_g89_cfb(f->key, f->sb, f->iv, f->mesh, in, out, n, enc); return; }
    if (d->kind == BC_G89 && d->mode == M_CNT) { ref_g89_cnt(f->key, f->sb, f->iv, f->mesh, in, out, n); return; }
    rbc_init(&c, d->kind, f->key, f->sb);
    switch (d->mode) {
    case M_ECB: ref_ecb(&c, in, out, n, enc); break;
    case M_CBC: ref_cbc(&c, f->iv, in, out, n, enc); break;
    case M_CFB: ref_cfb(&c, f->iv, in, out, n, enc); break;
    case M_OFB: ref_ofb(&c, f->iv, in, out, n); break;
    case M_CTR: ref_ctr(&c, f->iv, in, out, n, f->section); break;
    }
}
#ifdef KIND_ENGINE
int conf_init(const cconf *f, EVP_CIPHER_CTX *c, int enc, const char *sboxname, int meshset)
{
    if (sboxname && f->d->mode == M_CNT) {  /* every CNT init selects its own S-box */
        if (EVP_CipherInit_ex(c, eng_cipher(f->d->sn), E, f->key, f->iv, enc) != 1) return 0;
        if (EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_SET_SBOX, 0, (void *)sboxname) != 1) return 0;
    } else if (sboxname) {
        if (EVP_CipherInit_ex(c, eng_cipher(f->d->sn), E, NULL, NULL, enc) != 1) return 0;
        if (EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_SET_SBOX, 0, (void *)sboxname) != 1) return 0;
        if (EVP_CipherInit_ex(c, NULL, NULL, f->key, f->d->ivlen ? f->iv : NULL, enc) != 1) return 0;
    } else if (EVP_CipherInit_ex(c, eng_cipher(f->d->sn), E, f->key, f->d->ivlen ? f->iv : NULL, enc) != 1) return 0;
    if (meshset && EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_KEY_MESH, f->d->acpkm ? (int)f->section : f->mesh, NULL) != 1) return 0;
    return 1;
}
#endif
