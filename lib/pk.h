/* GOST public-key objects built from oracle values, and oracle-side signature/VKO/key-transport formulas. */
#ifndef PK_H
#define PK_H
#include "ecref.h"
typedef struct { int type, dgst; const char *tname; ecurve *c; } pkset;
extern pkset PK[32]; extern int NPK;    /* every key type with every parameter set it supports */
void pk_init(void);
const char *pk_name(const pkset *s);
EVP_PKEY *pk_new(const pkset *s, const BIGNUM *d);          /* private and matching public key (oracle product) */
EVP_PKEY *pk_wrap(const pkset *s, const BIGNUM *d, const EC_POINT *Q);  /* any of the parts may be absent */
EVP_PKEY_CTX *pk_ctx(EVP_PKEY *k);
/* reference verification, dgst little endian */
int ref_verify(const pkset *s, const EC_POINT *Q, const u8 *dgst, size_t dlen, const BIGNUM *r, const BIGNUM *s_);
/* nonce a signature was made with, 1 if it satisfies the equation with x(kG) = r */
int ref_nonce(const pkset *s, const BIGNUM *d, const u8 *dgst, size_t dlen, const BIGNUM *r, const BIGNUM *s_, BIGNUM *k);
void sig_pack(const pkset *s, const BIGNUM *r, const BIGNUM *s_, u8 *sig);
void sig_unpack(const pkset *s, const u8 *sig, BIGNUM *r, BIGNUM *s_);
/* raw random bytes that make BN_rand_range(q) return v (appended to buf); returns length */
size_t rng_bn(const pkset *s, const BIGNUM *v, u8 *buf);
const char *bnh(const BIGNUM *b);
BIGNUM *bn_hex(const char *h);
/* strict DER reader: expects tag, returns contents, advances */
typedef struct { const u8 *p, *e; } der;
int der_get(der *d, int tag, der *in);
/* key transport blobs taken apart by the reference; 1 if well formed */
typedef struct { int gost2018, has_eph; u8 enc[160]; size_t enclen; u8 mac[16]; size_t maclen, ukmlen; u8 ukm[40]; u8 oid[16]; size_t oidlen; EC_POINT *eph; int spki_type, spki_curve; } ktrans;
int kt_parse(const pkset *s, int is2018, const u8 *b, size_t n, ktrans *t);
/* reference VKO: 1 if defined */
int ref_vko(const pkset *s, const EC_POINT *Q, const BIGNUM *d, const u8 *ukm, size_t n, int dgst_nid, u8 *out);
int ref_keg(const pkset *s, const EC_POINT *Q, const BIGNUM *d, const u8 *ukm32, u8 out[64]);
/* SubjectPublicKeyInfo made by the reference; dgst_nid 0: no digest parameter */
size_t ref_spki(const pkset *s, const EC_POINT *Q, int dgst_oid_nid, u8 *out);
int ref_spki_parse(const ecurve *c, const u8 *b, size_t n, int *type, int *curve, EC_POINT **Q);
/* DER writer */
size_t der_put(u8 *out, int tag, const u8 *in, size_t n);
size_t der_oid(u8 *out, int nid);
size_t ref_kt(const pkset *s, const u8 enc[32], const u8 mac[4], int sbox_nid, const u8 *spki, size_t spkilen, const u8 *ukm, size_t ukmlen, u8 *out);
size_t ref_pst(const u8 *psexp, size_t n, const u8 *spki, size_t spkilen, const u8 *ukm, size_t ukmlen, u8 *out);
void pt_le(const ecurve *c, const EC_POINT *Q, u8 *out);     /* X || Y little endian */
/* PKCS#8 made by the reference */
enum { PF_RAW, PF_OCT, PF_INT, PF_MASK1, PF_MASK2, PF_MASK3, PF_SEQ0, PF_SEQ1, PF_SEQ2, NPF };
int pk_digest_oid(const pkset *s);
size_t ref_p8(const pkset *s, int dg, const u8 *priv, size_t n, u8 *out);
size_t ref_priv(const pkset *s, const BIGNUM *d, int form, u8 *out);
EVP_PKEY *p8_decode(const u8 *b, size_t n);        /* from an exactly sized heap copy */
size_t p8_encode(EVP_PKEY *k, u8 *out);            /* 0: refused */
EVP_PKEY *spki_decode(const u8 *b, size_t n);
#endif
