#include "alloc.h"
#include "mc.h"
#include <malloc.h>
#include <openssl/crypto.h>
#include <execinfo.h>
#include <link.h>
struct alloc_state al;
/* A site: the place in the library that asks for memory and the two innermost
   call sites outside the library on the way there. */
static struct { unsigned long lo, hi; } obj[64];
static int nobj;
static int see(struct dl_phdr_info *i, size_t n, void *x)
{
    (void)n; (void)x;
    if (!i->dlpi_name || !strstr(i->dlpi_name, "libcrypto")) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && nobj < 64) { obj[nobj].lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; obj[nobj].hi = obj[nobj].lo + i->dlpi_phdr[k].p_memsz; nobj++; }
    return 0;
}
static unsigned long seen[1 << 16];
static __attribute__((noinline)) int new_site(const char *file, int line)
{
    void *b[64];
    if (!nobj) { dl_iterate_phdr(see, NULL); if (!nobj) mc_internal("libcrypto not found"); }
    int n = backtrace(b, 64), k = 0;
    unsigned long h = (unsigned long)file * 1000003 + line;
    for (int i = 4; i < n && k < 2; i++) {
        int lib = 0;
        for (int j = 0; j < nobj; j++) lib |= (unsigned long)b[i] >= obj[j].lo && (unsigned long)b[i] < obj[j].hi;
        if (!lib) { h = (h ^ (unsigned long)b[i]) * 0x9e3779b97f4a7c15ul; h ^= h >> 29; k++; }
    }
    h |= 1;
    for (unsigned s = h >> 17 & 0xffff; ; s = (s + 1) & 0xffff) { if (seen[s] == h) return 0; if (!seen[s]) { seen[s] = h; return 1; } }
}
static __attribute__((noinline)) int fails(const char *file, int line)
{
    if (!al.armed) return 0;
    al.n++;
    if (al.site) { if (al.n >= al.site_max) mc_internal("too many allocations"); int a = al.armed; al.armed = 0; al.site[al.n] = new_site(file, line); al.armed = a; return 0; }
    if (al.fail_at && (al.n == al.fail_at || (al.sticky && al.n > al.fail_at))) {
        if (!al.failed) { al.file = file; al.line = line; }
        al.failed = 1;
        return 1;
    }
    return 0;
}
static void *a_malloc(size_t n, const char *f, int l) { if (fails(f, l)) return NULL; al.live++; return malloc(n ? n : 1); }
static void a_free(void *p, const char *f, int l)
{
    if (p) al.live--;
    if (p && al.freed) al.freed(p, malloc_usable_size(p), f, l);
    free(p);
}
static void *a_realloc(void *p, size_t n, const char *f, int l)
{
    if (fails(f, l)) return NULL;
    if (!p) al.live++;
    if (!al.freed || !p) return realloc(p, n ? n : 1);
    size_t o = malloc_usable_size(p);
    void *q = malloc(n ? n : 1);
    if (!q) return NULL;
    al.live++;
    memcpy(q, p, o < n ? o : n);
    a_free(p, f, l);
    return q;
}
void alloc_install(void)
{
    if (!CRYPTO_set_mem_functions(a_malloc, a_realloc, a_free)) mc_internal("CRYPTO_set_mem_functions");
}
