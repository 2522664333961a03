#ifndef CPAR_H
#define CPAR_H
#include "eng.h"
typedef struct { const char *sn; int cd; int omac; int g89; int sec; } pc;
enum { NPC = 11 };
extern pc PC[NPC];
typedef struct { u8 iv[16], seed[8]; int sb; /* index into SBSEL */ } par;
const cdesc *PCD(const pc *p);
size_t ref_par(const pc *p, const par *v, u8 *o);
int get_par(EVP_CIPHER_CTX *c, int type, const u8 *b, size_t n);
void ref_msg(const pc *p, const u8 *key, const par *v, const u8 *in, u8 *out, size_t n, int enc);
void cpar_init(void);
/* every damage of the parameters of one cipher: refused, or read as what they say */
void cpar_damage(const pc *p, int deep);
#endif
