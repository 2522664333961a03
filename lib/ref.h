/* Reference model of the GOST primitives, written from the standards and
 * independent of the code under test.  Deliberately plain and slow. */
#ifndef REF_H
#define REF_H
#include <stddef.h>
#include <stdint.h>
typedef unsigned char u8;
typedef const u8 (*sbox_t)[16];
extern sbox_t RSB_HASH_TEST, RSB_HASH_CP, RSB_TEST, RSB_A, RSB_B, RSB_C, RSB_D, RSB_Z;

enum { BC_G89, BC_MAGMA, BC_KUZ };
typedef struct {
    int kind, bl;
    uint32_t k[8];
    sbox_t sb;
    u8 rk[10][16];
    u8 key[32];
} rbc;
void rbc_init(rbc *c, int kind, const u8 *key, sbox_t sb /* BC_G89 only */);
void rbc_enc(const rbc *c, const u8 *in, u8 *out);
void rbc_dec(const rbc *c, const u8 *in, u8 *out);
void rbc_mac_step(const rbc *c, u8 *st, const u8 *blk); /* 16 rounds, BC_G89 */

/* modes; the IV is a full block; in may equal out */
void ref_ecb(const rbc *c, const u8 *in, u8 *out, size_t n, int enc);
void ref_cbc(const rbc *c, const u8 *iv, const u8 *in, u8 *out, size_t n, int enc);
void ref_cfb(const rbc *c, const u8 *iv, const u8 *in, u8 *out, size_t n, int enc);
void ref_ofb(const rbc *c, const u8 *iv, const u8 *in, u8 *out, size_t n);
/* section 0: plain CTR */
void ref_ctr(const rbc *c, const u8 *iv, const u8 *in, u8 *out, size_t n, size_t section);
void ref_g89_cfb(const u8 *key, sbox_t sb, const u8 *iv, int mesh, const u8 *in, u8 *out, size_t n, int enc);
void ref_g89_cnt(const u8 *key, sbox_t sb, const u8 *iv, int mesh, const u8 *in, u8 *out, size_t n);
void ref_cp_mesh(u8 *key, sbox_t sb, u8 *iv /* may be NULL */);

/* MACs: full-length value */
void ref_imit(const u8 *key, sbox_t sb, int mesh, const u8 *m, size_t n, u8 out[8]);
void ref_imit_iv(const u8 *key, sbox_t sb, const u8 *iv, const u8 *m, size_t n, u8 out[8]);
void ref_omac(int kind, const u8 *key, const u8 *m, size_t n, u8 *out);
void ref_omac_acpkm(const u8 *key, size_t section, size_t tsection, const u8 *m, size_t n, u8 *out);
void ref_mgm(int kind, const u8 *key, const u8 *nonce, const u8 *aad, size_t an,
             const u8 *pt, size_t n, u8 *ct, u8 *tag);

/* hashes */
void ref_hash94(sbox_t sb, const u8 *m, size_t n, u8 out[32]);
void ref_streebog(int bits, const u8 *m, size_t n, u8 *out);
typedef void (*ref_hash_f)(const u8 *m, size_t n, u8 *out);
void ref_h94cp(const u8 *m, size_t n, u8 *out);
void ref_h12_256(const u8 *m, size_t n, u8 *out);
void ref_h12_512(const u8 *m, size_t n, u8 *out);
void ref_hmac(ref_hash_f h, size_t hl, size_t bl, const u8 *key, size_t kl, const u8 *m, size_t n, u8 *out);
void ref_kdftree(const u8 *key, size_t kl, const u8 *label, size_t ll, const u8 *seed, size_t sl,
                 size_t r, size_t outlen, u8 *out);
void ref_tlstree(int kind, const u8 *key, const u8 seq[8], u8 out[32]);

/* key wrapping */
void ref_kexp15(int kind, const u8 *ckey, const u8 *mkey, const u8 *iv, size_t ivlen,
                const u8 *key, size_t keylen, u8 *out);
void ref_cp_diversify(const u8 *kek, sbox_t sb, const u8 ukm[8], u8 out[32]);
void ref_cp_wrap(const u8 *kek, sbox_t sb, const u8 ukm[8], const u8 key[32], u8 out[44]);
extern void (*ref_secret)(const u8 *v, size_t n, const char *what);    /* told every key that comes up */
int ref_selftest(void); /* 0 = ok; else index of failing vector */
#endif
