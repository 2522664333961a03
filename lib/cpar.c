/* Algorithm parameters of the ciphers: what they say, by an independent reading. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "cpar.h"
static int cdix(const char *sn) { for (int i = 0; i < NCD; i++) if (!strcmp(CD[i].sn, sn)) return i; mc_internal("no %s", sn); return 0; }
pc PC[] = {
    { "gost89", 0, 0, 1, 0 }, { "gost89-cnt", 0, 0, 1, 0 }, { "gost89-cnt-12", 0, 0, 1, 0 }, { "gost89-cbc", 0, 0, 1, 0 }, { "magma-cbc", 0, 0, 1, 0 },
    { "magma-ctr", 0, 0, 0, 0 }, { "magma-ctr-acpkm", 0, 0, 0, 8192 }, { "magma-ctr-acpkm-omac", 0, 1, 0, 8192 },
    { "kuznyechik-ctr", 0, 0, 0, 0 }, { "kuznyechik-ctr-acpkm", 0, 0, 0, 262144 }, { "kuznyechik-ctr-acpkm-omac", 0, 1, 0, 262144 },
};
const cdesc *PCD(const pc *p) { return &CD[p->cd]; }
static size_t tlv(u8 *o, int tag, const u8 *b, size_t n)
{
    size_t h = 0;
    o[h++] = tag;
    if (n < 128) o[h++] = n; else if (n < 256) { o[h++] = 0x81; o[h++] = n; } else { o[h++] = 0x82; o[h++] = n >> 8; o[h++] = n; }
    memmove(o + h, b, n);
    return h + n;
}
static const u8 *sb_oid(int i, size_t *n)
{
    static u8 b[64]; u8 *q = b;
    *n = i2d_ASN1_OBJECT(OBJ_nid2obj(OBJ_sn2nid(SBSEL[i].name)), &q);
    return b;
}
size_t ref_par(const pc *p, const par *v, u8 *o)
{
    u8 b[200]; size_t n, m;
    if (p->g89) { n = tlv(b, 4, v->iv, 8); const u8 *q = sb_oid(v->sb, &m); memcpy(b + n, q, m); n += m; }
    else { u8 u[24]; int l = PCD(p)->ivlen; memcpy(u, v->iv, l); memcpy(u + l, v->seed, 8); n = tlv(b, 4, u, l + 8); }
    return tlv(o, 0x30, b, n);
}
static ASN1_TYPE *mk_type(int type, const u8 *b, size_t n)
{
    ASN1_TYPE *t = ASN1_TYPE_new(); ASN1_STRING *s = ASN1_STRING_new();
    ASN1_STRING_set(s, b, n);
    /* the exact size matters to the sanitizer */
    u8 *x = OPENSSL_malloc(n ? n : 1); memcpy(x, b, n); ASN1_STRING_set0(s, x, n);
    ASN1_TYPE_set(t, type, s);
    return t;
}
int get_par(EVP_CIPHER_CTX *c, int type, const u8 *b, size_t n)
{
    ASN1_TYPE *t = mk_type(type, b, n);
    int r = EVP_CIPHER_asn1_to_param(c, t);
    ASN1_TYPE_free(t);
    return r;
}
/* what the message is under key and parameters */
void ref_msg(const pc *p, const u8 *key, const par *v, const u8 *in, u8 *out, size_t n, int enc)
{
    cconf f; memset(&f, 0, sizeof f);
    f.d = PCD(p); memcpy(f.key, key, 32); memcpy(f.iv, v->iv, f.d->ivlen);
    f.sb = *SBSEL[v->sb].sb; f.section = p->sec;
    f.mesh = p->g89 && f.d->mode != M_CBC;
    if (p->omac) { u8 k[64]; ref_kdftree(key, 32, (const u8 *)"kdf tree", 8, v->seed, 8, 1, 64, k); memcpy(f.key, k, 32); }
    conf_ref(&f, in, out, n, enc);
}
static u8 K[32], M[64];
/* a reader of its own for what the damaged parameters say; only DER and the BER OpenSSL's own generic reader takes */
static int understand(const pc *p, const u8 *b, size_t n, par *v)
{
    const u8 *q = b;
    STACK_OF(ASN1_TYPE) *s = d2i_ASN1_SEQUENCE_ANY(NULL, &q, n);
    int ok = 0;
    if (!s) { ERR_clear_error(); return 0; }
    memset(v, 0, sizeof *v);
    int l = PCD(p)->ivlen;
    if (p->g89) {
        if (sk_ASN1_TYPE_num(s) == 2) {
            ASN1_TYPE *a = sk_ASN1_TYPE_value(s, 0), *o = sk_ASN1_TYPE_value(s, 1);
            if (ASN1_TYPE_get(a) == V_ASN1_OCTET_STRING && a->value.octet_string->length == l && ASN1_TYPE_get(o) == V_ASN1_OBJECT) {
                memcpy(v->iv, a->value.octet_string->data, l);
                for (int i = 0; i < 6; i++) if (OBJ_obj2nid(o->value.object) == OBJ_sn2nid(SBSEL[i].name) && (PCD(p)->sboxsel || i == 0)) { v->sb = i; ok = 1; }
            }
        }
    } else if (sk_ASN1_TYPE_num(s) == 1) {
        ASN1_TYPE *a = sk_ASN1_TYPE_value(s, 0);
        if (ASN1_TYPE_get(a) == V_ASN1_OCTET_STRING && a->value.octet_string->length == l + 8) {
            memcpy(v->iv, a->value.octet_string->data, l); memcpy(v->seed, a->value.octet_string->data + l, 8); ok = 1;
        }
    }
    sk_ASN1_TYPE_pop_free(s, ASN1_TYPE_free);
    return ok;
}
static void judge(const pc *p, int type, const u8 *b, size_t n)
{
    par v; u8 o[64], x[64];
    mc_n_execs++; mc_trans(1);
    EVP_CIPHER_CTX *r = EVP_CIPHER_CTX_new();
    if (EVP_CipherInit_ex(r, eng_cipher(p->sn), E, NULL, NULL, 0) != 1) mc_fail("init", "init");
    int rc = get_par(r, type, b, n);
    int ok = type == V_ASN1_SEQUENCE && understand(p, b, n, &v);
    if (rc <= 0) {
        ERR_clear_error();
        mc_count("refused", 1);
        const u8 *q = b; (void)q;
        EVP_CIPHER_CTX_free(r);
        return;
    }
    mc_count("accepted", 1);
    if (!ok) mc_fail(mc_fmt("accepts:%s", p->sn), "type %d, %s is accepted", type, mc_hex(b, n));
    if (EVP_CipherInit_ex(r, NULL, NULL, K, NULL, 0) != 1) mc_fail(mc_fmt("init:%s", p->sn), "no init after reading");
    EVP_CIPHER_CTX_set_padding(r, 0);
    memset(o, 0, 64);
    int ol; EVP_CipherUpdate(r, o, &ol, M, 48);
    ref_msg(p, K, &v, M, x, 48, 0);
    if (memcmp(o, x, 48)) mc_fail(mc_fmt("other-value:%s", p->sn), "%s is read as some other parameters", mc_hex(b, n));
    EVP_CIPHER_CTX_free(r);
}
void cpar_damage(const pc *p, int deep)
{
    par v; memset(&v, 0, sizeof v); fill(v.iv, PCD(p)->ivlen, 8); fill(v.seed, 8, 9); v.sb = PCD(p)->sboxsel ? 2 : 0;
    u8 d[200], a[300]; size_t n = ref_par(p, &v, d);
    static const int types[] = { V_ASN1_OCTET_STRING, V_ASN1_SET, V_ASN1_UTF8STRING, V_ASN1_BIT_STRING, V_ASN1_INTEGER, V_ASN1_PRINTABLESTRING, V_ASN1_OTHER, V_ASN1_GENERALIZEDTIME };
    mc_op("unchanged"); judge(p, V_ASN1_SEQUENCE, d, n);
    for (unsigned t = 0; t < sizeof types / sizeof *types; t++) { mc_reset_trace(); mc_op("type %d", types[t]); judge(p, types[t], d, n); }
    { /* no string at all */
        for (int t = 0; t < 3; t++) {
            EVP_CIPHER_CTX *r = EVP_CIPHER_CTX_new(); EVP_CipherInit_ex(r, eng_cipher(p->sn), E, NULL, NULL, 0);
            ASN1_TYPE *y = ASN1_TYPE_new();
            if (t == 1) ASN1_TYPE_set(y, V_ASN1_NULL, NULL); else if (t == 2) ASN1_TYPE_set(y, V_ASN1_OBJECT, OBJ_nid2obj(NID_id_Gost28147_89_CryptoPro_A_ParamSet));
            mc_reset_trace(); mc_op("type without string %d", t);
            if (EVP_CIPHER_asn1_to_param(r, y) > 0) mc_fail(mc_fmt("accepts:%s", p->sn), "parameters of type %d are accepted", t);
            ERR_clear_error(); ASN1_TYPE_free(y); EVP_CIPHER_CTX_free(r); mc_n_execs++; mc_trans(1);
        }
    }
#define J(len, ...) do { mc_reset_trace(); mc_op(__VA_ARGS__); judge(p, V_ASN1_SEQUENCE, a, len); } while (0)
    for (size_t i = 0; i < n; i++) {
        for (int x = 0; x < 256; x++) { memcpy(a, d, n); a[i] = x; J(n, "byte %zu is %02x", i, x); }
        memcpy(a, d, n); J(i, "cut to %zu", i);
        memmove(a + i, a + i + 1, n - i - 1); J(n - 1, "byte %zu removed", i);
        memcpy(a, d, n); memmove(a + i + 1, a + i, n - i); J(n + 1, "byte %zu doubled", i);
    }
    if (deep) {
        static const u8 vs[] = { 0, 1, 2, 4, 6, 7, 8, 0x0c, 0x10, 0x24, 0x30, 0x31, 0x7f, 0x80, 0x81, 0x82, 0xff };
        for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) for (unsigned x = 0; x < sizeof vs; x++) for (unsigned y = 0; y < sizeof vs; y++) { memcpy(a, d, n); a[i] = vs[x]; a[j] = vs[y]; J(n, "bytes %zu, %zu are %02x %02x", i, j, vs[x], vs[y]); }
        for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) { memcpy(a, d, i); memcpy(a + i, d + j, n - j); J(n - (j - i), "bytes %zu to %zu removed", i, j); }
    }
    /* every length of the string, every parameter set name, every arrangement */
    for (int l = 0; l <= 140; l++) for (int fillb = 0; fillb < 2; fillb++) {
        u8 s[200], b[260]; memset(s, fillb ? 0 : 0x5a, sizeof s);
        if (l <= 16) { memcpy(s, v.iv, PCD(p)->ivlen); if (!p->g89) memcpy(s + PCD(p)->ivlen, v.seed, 8); }
        size_t m = tlv(b, 4, s, l), on = 0;
        const u8 *o = sb_oid(v.sb, &on);
        if (p->g89) { memcpy(b + m, o, on); m += on; }
        size_t k = tlv(a, 0x30, b, m); J(k, "string of %d bytes", l);
        if (l == PCD(p)->ivlen + (p->g89 ? 0 : 8) || l == 8 || l == 12 || l == 16) {
            /* other arrangements */
            m = tlv(b, 4, s, l); k = tlv(a, 0x30, b, m); J(k, "only the string of %d", l);
            memcpy(b + m, o, on); k = tlv(a, 0x30, b, m + on); J(k, "string of %d and a name", l);
            memcpy(b + m + on, o, on); k = tlv(a, 0x30, b, m + 2 * on); J(k, "string of %d and two names", l);
            memcpy(b, o, on); m = on + tlv(b + on, 4, s, l); k = tlv(a, 0x30, b, m); J(k, "name before string of %d", l);
            m = tlv(b, 4, s, l); m += tlv(b + m, 4, s, l); k = tlv(a, 0x30, b, m); J(k, "two strings of %d", l);
            m = tlv(b, 4, s, l); k = tlv(a, 0x31, b, m); J(k, "SET of string of %d", l);
            k = tlv(a, 4, s, l); J(k, "bare string of %d", l);
            for (int tag = 0; tag < 256; tag++) { m = tlv(b, tag, s, l); if (p->g89) { memcpy(b + m, o, on); m += on; } k = tlv(a, 0x30, b, m); J(k, "string of %d has tag %02x", l, tag); }
        }
    }
    if (p->g89) {
        for (int nid = 1; nid < 1300; nid++) {
            u8 b[200]; u8 *q; size_t m; ASN1_OBJECT *ob = OBJ_nid2obj(nid);
            if (!ob || !OBJ_length(ob) || OBJ_length(ob) > 60) { ERR_clear_error(); continue; }
            m = tlv(b, 4, v.iv, 8); q = b + m; m += i2d_ASN1_OBJECT(ob, &q);
            size_t k = tlv(a, 0x30, b, m); J(k, "names %s", OBJ_nid2sn(nid));
        }
    }
    mc_outcome("refused or read as written");
}
void cpar_init(void)
{
    for (int i = 0; i < NPC; i++) {
        char b[64]; snprintf(b, sizeof b, "%s", PC[i].sn);
        char *o = strstr(b, "-omac"); if (o) *o = 0;
        PC[i].cd = cdix(b);
    }
    fill(K, 32, 2); fill(M, 64, 1);
}
