#define OPENSSL_SUPPRESS_DEPRECATED
#include "aead.h"
const adesc AD[4] = {
    { "magma-mgm", BC_MAGMA, 0, 8, 8, 8, 0, 0 },
    { "kuznyechik-mgm", BC_KUZ, 0, 16, 16, 16, 0, 0 },
    { "magma-ctr-acpkm-omac", BC_MAGMA, 1, 8, 4, 8, 1024, 8192 },
    { "kuznyechik-ctr-acpkm-omac", BC_KUZ, 1, 16, 8, 16, 4096, 262144 },
};
#define OID_MAC "1.2.643.7.1.0.6.1.1"
void ref_ctr_omac(const adesc *d, const u8 *key, const u8 *iv, const u8 seed[8], size_t section,
                  const u8 *pt, size_t n, u8 *ct, u8 *tag)
{
    u8 k[64], fiv[16] = {0}, *b = malloc(n + 16);
    rbc c;
    ref_kdftree(key, 32, (const u8 *)"kdf tree", 8, seed, 8, 1, 64, k);
    rbc_init(&c, d->kind, k, NULL);
    memcpy(fiv, iv, d->ivlen);
    memcpy(b, pt, n);
    ref_omac(d->kind, k + 32, pt, n, b + n);
    ref_ctr(&c, fiv, b, b, n + d->taglen, section);
    memcpy(ct, b, n);
    memcpy(tag, b + n, d->taglen);
    free(b);
}
int omac_get_tag(EVP_CIPHER_CTX *c, u8 *tag, size_t n)
{
    STACK_OF(X509_ATTRIBUTE) *s = sk_X509_ATTRIBUTE_new_null();
    ASN1_OBJECT *o = OBJ_txt2obj(OID_MAC, 1);
    int ok = o && s && EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_PROCESS_UNPROTECTED, 1, s) > 0;
    if (ok) {
        ASN1_OCTET_STRING *os = X509at_get0_data_by_OBJ(s, o, -3, V_ASN1_OCTET_STRING);
        ok = os && os->length == (int)n;
        if (ok) memcpy(tag, os->data, n);
    }
    ASN1_OBJECT_free(o);
    sk_X509_ATTRIBUTE_pop_free(s, X509_ATTRIBUTE_free);
    return ok;
}
int omac_set_tag(EVP_CIPHER_CTX *c, const u8 *tag, size_t n)
{
    STACK_OF(X509_ATTRIBUTE) *s = NULL;
    ASN1_OBJECT *o = OBJ_txt2obj(OID_MAC, 1);
    int r = 0;
    if (o && X509at_add1_attr_by_OBJ(&s, o, V_ASN1_OCTET_STRING, tag, n))
        r = EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_PROCESS_UNPROTECTED, 0, s);
    ASN1_OBJECT_free(o);
    sk_X509_ATTRIBUTE_pop_free(s, X509_ATTRIBUTE_free);
    return r > 0;
}
ASN1_TYPE *ukm_params(const u8 *ukm, size_t n)
{
    /* SEQUENCE { OCTET STRING ukm } */
    u8 *b = malloc(n + 8);
    b[0] = 0x30; b[1] = n + 2; b[2] = 4; b[3] = n;
    memcpy(b + 4, ukm, n);
    const u8 *p = b;
    ASN1_TYPE *t = d2i_ASN1_TYPE(NULL, &p, n + 4);
    free(b);
    if (!t) mc_internal("ukm_params");
    return t;
}
ASN1_TYPE *omac_params(const adesc *d, const u8 *iv, const u8 *seed)
{
    u8 u[16];
    memcpy(u, iv, d->ivlen);
    memcpy(u + d->ivlen, seed, 8);
    return ukm_params(u, d->ivlen + 8);
}
