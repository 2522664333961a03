/* The allocator of the library under control. */
#ifndef ALLOC_H
#define ALLOC_H
#include <stddef.h>
extern struct alloc_state {
    int armed;
    long n;             /* allocations since armed */
    long fail_at;       /* the n-th fails; 0: none */
    int sticky;         /* and all after it */
    int failed;
    const char *file; int line;         /* where the failed one was asked for */
    unsigned char *site;        /* if set, one byte per allocation: 1 when its site (who asked, from where) is new */
    long site_max;
    long live;          /* blocks given out and not given back */
    void (*freed)(const unsigned char *p, size_t n, const char *file, int line);   /* sees every block given back */
} al;
void alloc_install(void);       /* before anything else of the library */
#endif
