/* P18: threads on separate objects do not disturb one another. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "ops.h"
#include "csched.h"
#include <sys/mman.h>
typedef struct { u8 out[4096]; size_t n; int ok; } result;
static struct shared { runres r; result solo[SC_MAXT], blob; long live; u8 b[8192]; } *SH;
static struct { u8 b[700]; size_t n; } BLOB[200];
static struct rng_state RS[SC_MAXT];
static void swap_rng(int from, int to) { if (from >= 0) RS[from] = rng; if (to >= 0) rng = RS[to]; }
/* ---------------------------------------------------------------- operations */
static int f_dec18(const op *o, u8 *out, size_t *n) { int i = o->check ? 0 : 0; (void)i; extern op L[]; return dec(o, BLOB[o - L].b, BLOB[o - L].n, out, n); }
static int f_pubname(const op *o, u8 *out, size_t *n)
{
    /* the name of the curve must stay the key's own */
    EVP_PKEY *k = pub(o->a); int r = k && dump_key(k, out, n, o->a); u8 *b = NULL; int l;
    if (r) { r = (l = i2d_PUBKEY(k, &b)) > 0; if (r) { memcpy(out + *n, b, l); *n += l; OPENSSL_free(b); } }
    EVP_PKEY_free(k); return r;
}
static int f_lookup(const op *o, u8 *out, size_t *n)
{
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(OBJ_sn2nid("gost2001"), E); const EVP_MD *m = ENGINE_get_digest(E, OBJ_sn2nid("md_gost12_256")), *m2 = EVP_get_digestbyname("streebog512"); const EVP_CIPHER *ci = ENGINE_get_cipher(E, OBJ_sn2nid("kuznyechik-mgm"));
    int t[4] = { !!c, m ? EVP_MD_type(m) : 0, m2 ? EVP_MD_type(m2) : 0, ci ? EVP_CIPHER_nid(ci) : 0 };
    (void)o; memcpy(out, t, *n = sizeof t); EVP_PKEY_CTX_free(c); return 1;
}
op L[200]; static int NL;
static void add(const char *name, int (*f)(const op *, u8 *, size_t *), int (*c)(const op *, const u8 *, size_t), int a, const char *s) { L[NL++] = (op){ strdup(name), f, c, a, s }; }
static int find(const char *name) { for (int i = 0; i < NL; i++) if (!strcmp(L[i].name, name)) return i; mc_internal("no operation %s", name); return 0; }
/* ---------------------------------------------------------------- one run */
static int NT, IDX[SC_MAXT], CAP; static plan PL; static result OUT[SC_MAXT];
static void thread_op(void *v) { int i = (int)(intptr_t)v; OUT[i].n = 0; OUT[i].ok = L[IDX[i]].f(&L[IDX[i]], OUT[i].out, &OUT[i].n); ERR_clear_error(); }
static int good(int i, const result *r)
{
    const op *o = &L[IDX[i]]; const result *s = &SH->solo[i];
    if (!r->ok) return 0;
    if (r->n == s->n && !memcmp(r->out, s->out, s->n)) return 1;
    return o->check && o->check(o, r->out, r->n);
}
static void alone(void *v)
{
    int i = *(int *)v; result *s = &SH->solo[i];
    rng_reset(RNG_STREAM);
    s->n = 0; s->ok = L[IDX[i]].f(&L[IDX[i]], s->out, &s->n);
    if (!s->ok) { ERR_print_errors_fp(stderr); mc_fail(mc_fmt("broken:%s", L[IDX[i]].name), "%s fails alone", L[IDX[i]].name); }
}
static void together(void *v)
{
    void (*f[SC_MAXT])(void *) = { thread_op, thread_op, thread_op }; void *a[SC_MAXT] = { (void *)0, (void *)1, (void *)2 };
    (void)v;
    rng_reset(RNG_STREAM);
    for (int i = 0; i < NT; i++) RS[i] = rng;
    sc_switch = swap_rng;
    sc_run(NT, f, a, &PL, CAP, &SH->r);
    if (getenv("SC_DUMP") && !PL.n && !PL.first) { FILE *o = fopen(getenv("SC_DUMP"), "w"); fprintf(o, "%d points\n", SH->r.npoints); sc_dump(o); fclose(o); }
    for (int i = 0; i < NT; i++) if (!good(i, &OUT[i]))
        mc_fail(mc_fmt("disturbed:%s", L[IDX[i]].name), "%s %s; alone: %s%s%s%s%s", L[IDX[i]].name, OUT[i].ok ? mc_fmt("gives %s", mc_hex(OUT[i].out, OUT[i].n > 120 ? 120 : OUT[i].n)) : "fails",
            mc_hex(SH->solo[i].out, SH->solo[i].n > 120 ? 120 : SH->solo[i].n), PL.n > 0 ? "; preempted in " : "", PL.n > 0 ? sc_where(&SH->r, 0) : "", PL.n > 1 ? " and " : "", PL.n > 1 ? sc_where(&SH->r, 1) : "");
    /* and nothing is left behind that disturbs the next ones */
    for (int i = 0; i < NT; i++) {
        rng_reset(RNG_STREAM);
        thread_op((void *)(intptr_t)i);
        if (!good(i, &OUT[i])) mc_fail(mc_fmt("afterwards:%s", L[IDX[i]].name), "%s after the threads have ended %s%s", L[IDX[i]].name, OUT[i].ok ? "gives something else than alone; preempted in " : "fails; preempted in ", PL.n ? sc_where(&SH->r, 0) : "");
    }
    if (SH->live && SH->r.live > SH->live) mc_fail("leak", "%ld more blocks stay allocated than after running one after the other; preempted in %s%s%s", SH->r.live - SH->live, PL.n ? sc_where(&SH->r, 0) : "", PL.n > 1 ? " and " : "", PL.n > 1 ? sc_where(&SH->r, 1) : "");
}
/* ---------------------------------------------------------------- all schedules */
static int bound; static long runs;
static int restart;
static void run(const plan *p)
{
    mc_reset_trace();
    mc_op("%s starts", L[IDX[p->first]].name);
    for (int i = 0; i < p->n; i++) mc_op("preempted at point %d for thread %d", p->p[i].at, p->p[i].to);
    PL = *p;
    mc_isolate(together, NULL);
    runs++; mc_n_execs++; mc_trans(SH->r.switches);
    if (SH->r.infeasible) mc_count("library_lock_held", 1);
    if (SH->r.fresh) { sc_merge(); restart = 1; }
}
static void dfs(plan p)
{
    run(&p);
    if (restart || p.n == bound || SH->r.infeasible) return;
    int n = SH->r.npoints; u8 can[SC_MAXPT]; memcpy(can, SH->r.run, n);
    for (int k = p.n ? p.p[p.n - 1].at + 1 : 0; k < n; k++) for (int t = 0; t < NT; t++) if (can[k] >> t & 1) {
        plan q = p; q.p[q.n].at = k; q.p[q.n++].to = t;
        dfs(q);
        if (restart) return;
    }
}
static void scenario(int nt, const int *idx, int b, int cap)
{
    NT = nt; memcpy(IDX, idx, nt * sizeof *idx); bound = b; CAP = cap;
    sc_forget();
    memset(SH, 0, sizeof *SH);
    for (int i = 0; i < nt; i++) mc_isolate(alone, &i);
    int same = 1; for (int i = 1; i < nt; i++) same &= idx[i] == idx[0];
    /* one after the other, in every order that starts with a different one */
    long live = 0;
    for (int i = 0; i < nt; i++) { plan p = { .first = i }; run(&p); if (SH->r.live > live) live = SH->r.live; }
    SH->live = live;
    int rounds = 0;
    do {
        restart = 0; runs = 0;
        for (int f = 0; f < (same ? 1 : nt) && !restart; f++) dfs((plan){ .first = f });
        if (++rounds > 200) mc_internal("no fixed point");
    } while (restart);
    mc_count("schedules", runs);
    mc_count("points", sc_npcs());
    mc_outcome("as alone");
}
static void mkblob(void *v) { op e = *(op *)v; e.f = f_encrypt; SH->blob.n = 0; if (!f_encrypt(&e, SH->blob.out, &SH->blob.n)) mc_internal("blob"); }
int main(int argc, char **argv)
{
    sc_init();
    mc_init(argc, argv);
    eng_init(1);
    pk_init();
    SH = mmap(NULL, sizeof *SH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ops_init();
    for (int i = 0; i < NPK; i++) prep(i);
    for (int i = 0; i < NOPS; i++) {
        op *o = &OPS[i];
        if (o->f == f_ctrl || o->f == f_encwrap) continue;       /* these change settings of the process */
        add(o->name, o->f == f_decrypt ? f_dec18 : o->f, o->check, o->a, o->s);
        if (o->f == f_decrypt) { rng_reset(RNG_STREAM); mc_isolate(mkblob, &L[NL - 1]); memcpy(BLOB[NL - 1].b, SH->blob.out, BLOB[NL - 1].n = SH->blob.n); }
    }
    int p0 = NL;
    for (int i = 0; i < NPK; i++) add(mc_fmt("public %s", pk_name(&PK[i])), f_pubname, NULL, i, NULL);
    int p1 = NL;
    add("look up", f_lookup, NULL, 0, NULL);
    int lk = find("look up");
    const int cap = mc_thorough ? 64 : 16;
    /* every pair of parameter sets */
    for (int i = p0; i < p1; i++) for (int j = i; j < p1; j++) MC_CASE("%s with %s", L[i].name, L[j].name) scenario(2, (int[]){ i, j }, 3, cap);
    /* every operation with itself, and with those that set things up */
    static const char *const SEL[] = { "decode private 2012_256", "sign 2001", "derive 2012_256", "transport encrypt 2001", "cipher gost89", "mac gost-mac", "digest md_gost12_256", "cipher kuznyechik-ctr-acpkm-omac" };
    for (int i = 0; i < p0; i++) MC_CASE("%s twice", L[i].name) scenario(2, (int[]){ i, i }, mc_thorough ? 3 : 2, cap);
    for (int i = 0; i < p0; i++) MC_CASE("%s with %s", L[i].name, "look up") scenario(2, (int[]){ i, lk }, 2, cap);
    for (int k = 0; k < (int)(sizeof SEL / sizeof *SEL); k++) {
        int j = find(SEL[k]);
        for (int i = 0; i < p0; i++) if (i != j) MC_CASE("%s with %s", L[i].name, L[j].name) scenario(2, (int[]){ i, j }, mc_thorough ? 2 : 1, cap);
    }
    if (mc_thorough) for (int i = 0; i < p0; i++) for (int j = i + 1; j < p0; j++) MC_CASE("both: %s, %s", L[i].name, L[j].name) scenario(2, (int[]){ i, j }, 2, cap);
    /* three threads */
    for (int k = 0; k < (mc_thorough ? p1 - p0 : 4); k++) MC_CASE("three threads from %s", L[p0 + k].name) scenario(3, (int[]){ p0 + k, p0 + (k + 3) % (p1 - p0), p0 + (k + 7) % (p1 - p0) }, mc_thorough ? 3 : 2, cap);
    /* settings taken from the environment at first use */
    static const char *const EV[] = { "cipher gost89", "mac gost-mac", "encode 2001", "encode 2012_512" };
    for (int i = 0; i < 4; i++) for (int j = i; j < 4; j++) MC_CASE("environment: %s with %s", EV[i], EV[j]) {
        setenv("CRYPT_PARAMS", "id-Gost28147-89-CryptoPro-B-ParamSet", 1); setenv("GOST_PK_FORMAT", "LEGACY_PK_WRAP", 1);
        scenario(2, (int[]){ find(EV[i]), find(EV[j]) }, mc_thorough ? 3 : 2, cap);
        unsetenv("CRYPT_PARAMS"); unsetenv("GOST_PK_FORMAT");
    }
    unsetenv("CRYPT_PARAMS"); unsetenv("GOST_PK_FORMAT");
    return mc_finish();
}
