#include "prov/err.h"
#include <stdlib.h>
#include <stdarg.h>
#include <openssl/crypto.h>
struct proverr_functions_st { const OSSL_CORE_HANDLE *core; OSSL_FUNC_core_new_error_fn *ne; OSSL_FUNC_core_set_error_debug_fn *sd; OSSL_FUNC_core_vset_error_fn *se; };
struct proverr_functions_st *proverr_new_handle(const OSSL_CORE_HANDLE *core, const OSSL_DISPATCH *in)
{
    struct proverr_functions_st *h = OPENSSL_zalloc(sizeof *h);
    if (!h) return 0;
    h->core = core;
    for (; in && in->function_id; in++) {
        if (in->function_id == OSSL_FUNC_CORE_NEW_ERROR) h->ne = OSSL_FUNC_core_new_error(in);
        if (in->function_id == OSSL_FUNC_CORE_SET_ERROR_DEBUG) h->sd = OSSL_FUNC_core_set_error_debug(in);
        if (in->function_id == OSSL_FUNC_CORE_VSET_ERROR) h->se = OSSL_FUNC_core_vset_error(in);
    }
    return h;
}
struct proverr_functions_st *proverr_dup_handle(struct proverr_functions_st *src)
{
    struct proverr_functions_st *h = src ? OPENSSL_malloc(sizeof *h) : 0;
    if (h) *h = *src;
    return h;
}
void proverr_free_handle(struct proverr_functions_st *h) { OPENSSL_free(h); }
void proverr_new_error(const struct proverr_functions_st *h) { if (h && h->ne) h->ne(h->core); }
void proverr_set_error_debug(const struct proverr_functions_st *h, const char *f, int l, const char *fn) { if (h && h->sd) h->sd(h->core, f, l, fn); }
void proverr_set_error(const struct proverr_functions_st *h, uint32_t r, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    if (h && h->se) h->se(h->core, r, fmt, ap);
    va_end(ap);
}
