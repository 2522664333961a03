/* Exhaustive explorer for digest/MAC contexts. */
#ifndef MDX_H
#define MDX_H
#include "eng.h"
typedef struct mdx mdx;
struct mdx {
    const char *name;
    EVP_MD_CTX *(*start)(mdx *);                    /* fresh, ready for updates */
    int (*finish)(mdx *, EVP_MD_CTX *, u8 *out, size_t *len);   /* 1 on success */
    int (*update)(mdx *, EVP_MD_CTX *, const u8 *, size_t);     /* default EVP_DigestUpdate */
    void (*ref)(mdx *, const u8 *m, size_t n, u8 *out);
    size_t outlen;
    int nocopy;                 /* do not finalise through a copy */
    const u8 *msg;              /* whole message */
    size_t total, base, win;
    const size_t *extra; int nextra;
    void (*after)(mdx *, EVP_MD_CTX *);   /* re-use of the finished context */
    long a, b, c; const void *p;          /* for the callbacks */
};
/* breadth-first search; state = context bytes + offset; every update size */
void mdx_states(mdx *s);
/* all ways to cut every length base..base+win into at most `parts` pieces */
void mdx_cuts(mdx *s, int parts);
#endif
