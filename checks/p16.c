/* P16: every single allocation failure. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "ops.h"
#include <sys/mman.h>
static struct shared { int ok; size_t n; u8 out[8192]; long allocs; int failed, success, engine; u8 site[1 << 16]; } *SH;
typedef struct { op *o; long at; int sticky, warm; const u8 *ref; size_t nref; } job;
static int good(const job *j, const u8 *out, size_t n)
{
    if (j->o->check) return j->o->check(j->o, out, n);
    return n == j->nref && !memcmp(out, j->ref, n);
}
static void plain(void *x)
{
    job *j = x;
    rng_reset(RNG_STREAM);
    if (j->warm) { size_t z = 0; u8 b[8192]; j->o->f(j->o, b, &z); rng_reset(RNG_STREAM); }
    al.armed = 1; al.n = 0; al.fail_at = 0; al.failed = 0;
    if (!mc_thorough) { al.site = SH->site; al.site_max = sizeof SH->site; }
    SH->ok = j->o->f(j->o, SH->out, &SH->n);
    al.site = NULL;
    al.armed = 0; SH->allocs = al.n;
    if (SH->ok && j->o->check && !j->o->check(j->o, SH->out, SH->n)) mc_fail(mc_fmt("broken:%s", j->o->name), "the operation gives a wrong result without any failure");
}
static void faulty(void *x)
{
    job *j = x; u8 out[8192]; size_t n = 0;
    if (j->warm) { rng_reset(RNG_STREAM); j->o->f(j->o, out, &n); n = 0; }
    rng_reset(RNG_STREAM);
    memset(&al, 0, sizeof al);
    al.armed = 1; al.fail_at = j->at; al.sticky = j->sticky;
    int r = j->o->f(j->o, out, &n);
    al.armed = 0;
    SH->failed = al.failed; SH->success = r;
    SH->engine = al.failed && al.file && strstr(al.file, "gost");
    const char *where = mc_fmt("%s:%d", al.file ? al.file : "?", al.line);
    if (!al.failed) return;
    if (r && !good(j, out, n)) mc_fail(mc_fmt("wrong-result:%s", j->o->name), "allocation %ld (%s) fails, the operation reports success with %s", j->at, where, mc_hex(out, n > 100 ? 100 : n));
    /* the same again, with memory */
    ERR_clear_error();
    al.failed = 0; al.fail_at = 0;
    rng_reset(RNG_STREAM); n = 0;
    r = j->o->f(j->o, out, &n);
    if (!r) mc_fail(mc_fmt("lost:%s", j->o->name), "after the failure of allocation %ld (%s) the operation keeps failing", j->at, where);
    if (!good(j, out, n)) mc_fail(mc_fmt("wrong-after:%s", j->o->name), "after the failure of allocation %ld (%s) the operation gives %s", j->at, where, mc_hex(out, n > 100 ? 100 : n));
}
static void explore(op *o, int sticky, int warm)
{
    job j = { o, 0, sticky, warm, NULL, 0 };
    static u8 ref[8192];
    prep(o->a);
    memset(SH, 0, sizeof *SH);
    mc_reset_trace();
    mc_isolate(plain, &j);
    if (!SH->ok) mc_fail(mc_fmt("broken:%s", o->name), "the operation fails without any failure injected");
    memcpy(ref, SH->out, SH->n); j.ref = ref; j.nref = SH->n;
    long total = SH->allocs, tried = 0;
    if (total < 1) mc_internal("%s does not allocate", o->name);
    for (j.at = 1; j.at <= total; j.at++) {
        if (!mc_thorough && !SH->site[j.at]) continue;
        tried++;
        mc_reset_trace(); mc_op("allocation %ld of %ld fails%s", j.at, total, sticky ? ", and all later ones" : "");
        mc_isolate(faulty, &j);
        mc_n_execs++; mc_trans(1);
        mc_count(SH->success ? "completed" : "reported", 1);
        if (SH->engine) mc_count("asked_by_the_engine", 1);
    }
    mc_outcome("fails cleanly or completes");
    mc_sample("%s: %ld of %ld allocations", o->name, tried, total);
}
int main(int argc, char **argv)
{
    alloc_install();
    mc_init(argc, argv);
    eng_init(1);
    pk_init();
    SH = mmap(NULL, sizeof *SH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ops_init();
    for (int i = 0; i < NOPS; i++) {
        MC_CASE("%s, first in the process", OPS[i].name) explore(&OPS[i], 0, 0);
        MC_CASE("%s, again", OPS[i].name) explore(&OPS[i], 0, 1);
        if (mc_thorough) for (int w = 0; w < 2; w++) MC_CASE("%s, from then on, %d", OPS[i].name, w) explore(&OPS[i], 1, w);
    }
    return mc_finish();
}
