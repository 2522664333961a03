/* The engine linked into the harness, with its environment under control. */
#ifndef ENG_H
#define ENG_H
#include <openssl/evp.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/objects.h>
#include <openssl/x509.h>
#include "mc.h"
#include "ref.h"
/* control numbers of the engine's interface */
#ifndef EVP_PKEY_CTRL_MAC_LEN
# define EVP_PKEY_CTRL_GOST_PARAMSET (EVP_PKEY_ALG_CTRL+1)
# define EVP_PKEY_CTRL_MAC_LEN (EVP_PKEY_ALG_CTRL+5)
# define EVP_PKEY_CTRL_SET_VKO (EVP_PKEY_ALG_CTRL+11)
# define EVP_MD_CTRL_KEY_LEN (EVP_MD_CTRL_ALG_CTRL+3)
# define EVP_MD_CTRL_SET_KEY (EVP_MD_CTRL_ALG_CTRL+4)
#endif

extern ENGINE *E;
void eng_init(int set_default);     /* loads and initialises the engine */
void eng_rand(void);                /* only puts the random generator under control */

/* Every random byte the library sees comes from here. */
enum { RNG_STREAM, RNG_ZERO, RNG_FF, RNG_FAIL };
extern struct rng_state {
    int mode;
    long calls, bytes;
    long fail_at;                   /* fail the n-th call (1-based); 0: never */
    int fail_ret;                   /* value of a failing call: 0 or -1 */
    int fail_sticky;                /* all later calls fail too */
    uint64_t s;
    const u8 *script;               /* consumed first */
    size_t script_len, script_pos;
    u8 log[4096];                   /* what was handed out */
    size_t log_len;
} rng;
void rng_reset(int mode);
void fill(u8 *p, size_t n, unsigned seed);  /* deterministic bytes */

const EVP_CIPHER *eng_cipher(const char *sn);
const EVP_MD *eng_digest(const char *sn);

/* GOST ciphers without MAC */
enum { M_ECB, M_CBC, M_CFB, M_OFB, M_CTR, M_CNT };
typedef struct {
    const char *sn;
    int kind, mode, bl, ivlen;
    int acpkm;          /* KEY_MESH sets an ACPKM section */
    int defsection;     /* section in force without KEY_MESH */
    int meshsw;         /* KEY_MESH switches CryptoPro meshing */
    int sboxsel;        /* SET_SBOX works */
    int cnt12;
} cdesc;
extern const cdesc CD[];
extern const int NCD;
/* what the standard says for one whole message */
typedef struct { const cdesc *d; sbox_t sb; int mesh; size_t section; u8 key[32], iv[16]; } cconf;
void conf_defaults(cconf *f, const cdesc *d, unsigned kseed);
void conf_ref(const cconf *f, const u8 *in, u8 *out, size_t n, int enc);
/* puts a context in the state conf describes; 1 on success */
int conf_init(const cconf *f, EVP_CIPHER_CTX *c, int enc, const char *sboxname, int meshset);
extern const struct sbsel { const char *name; sbox_t *sb; } SBSEL[6];
#endif
