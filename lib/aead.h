/* Authenticated ciphers: reference and plumbing shared by several checks. */
#ifndef AEAD_H
#define AEAD_H
#include "eng.h"
typedef struct { const char *sn; int kind, omac, bl, ivlen, taglen; size_t section, cms_section; } adesc;
extern const adesc AD[4];
/* CTR-ACPKM-OMAC: ciphertext and encrypted tag */
void ref_ctr_omac(const adesc *d, const u8 *key, const u8 *iv, const u8 seed[8], size_t section,
                  const u8 *pt, size_t n, u8 *ct, u8 *tag);
int omac_get_tag(EVP_CIPHER_CTX *c, u8 *tag, size_t n);         /* after the final call of encryption */
int omac_set_tag(EVP_CIPHER_CTX *c, const u8 *tag, size_t n);
/* algorithm parameters with the given IV and seed */
ASN1_TYPE *omac_params(const adesc *d, const u8 *iv, const u8 *seed);
ASN1_TYPE *ukm_params(const u8 *ukm, size_t n);
#endif
