#include "csched.h"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <dlfcn.h>
#include <openssl/crypto.h>

typedef struct { int id, state; pthread_t th; pid_t tid; char *slo, *shi; sem_t go; void (*f)(void *); void *arg; void *waits; } thr;
enum { IDLE, READY, WAITING, DONE };
static __thread thr *me;
static thr T[SC_MAXT]; static int NT, active, cur;
static const plan *P; static int pnext, cap; static runres *R;
static sem_t mainsem;
void (*sc_switch)(int, int);

/* ---------------------------------------------------------------- memory: never used twice */
#define ARENA (1ul << 30)
static char *A0, *Ap; static u8 *dead;          /* one bit per 16 bytes: given back */
static long live;
typedef struct { size_t n; uint64_t magic; } blk;
#define MAGIC 0x5ca1ab1e0ddba11dull
#define IN_ARENA(p) ((char *)(p) >= A0 && (char *)(p) < A0 + ARENA)
static int isdead(const void *p) { size_t g = ((char *)p - A0) / 16; return dead[g / 8] >> g % 8 & 1; }
static void *a_malloc(size_t n, const char *f, int l)
{
    char *p = __atomic_fetch_add(&Ap, (n + 31 + 16) & ~15ul, __ATOMIC_RELAXED);
    if (p + n + 64 > A0 + ARENA) mc_internal("arena");
    blk *b = (blk *)p;
    b->n = n; b->magic = MAGIC;
    live++;
    memset(p + 16, 0xcb, n);
    (void)f; (void)l;
    return p + 16;
}
static void a_free(void *v, const char *f, int l)
{
    if (!v) return;
    if (!IN_ARENA(v)) mc_fail("bad-free", "a pointer %p that was never allocated is freed at %s:%d", v, f, l);
    blk *b = (blk *)((char *)v - 16);
    if (b->magic != MAGIC) mc_fail("bad-free", "a pointer into the middle of a block is freed at %s:%d", f, l);
    if (isdead(v)) mc_fail(mc_fmt("double-free:%s", f ? (strrchr(f, '/') ? strrchr(f, '/') + 1 : f) : "?"), "a block of %zu bytes is freed twice, the second time at %s:%d", b->n, f, l);
    memset(v, 0xdb, b->n);
    for (size_t i = 0; i < b->n + 1; i += 16) { size_t g = ((char *)v - A0 + i) / 16; dead[g / 8] |= 1 << g % 8; }
    live--;
}
static void *a_realloc(void *p, size_t n, const char *f, int l)
{
    if (!p) return a_malloc(n, f, l);
    void *q = a_malloc(n, f, l); size_t o = ((blk *)((char *)p - 16))->n;
    memcpy(q, p, o < n ? o : n);
    a_free(p, f, l);
    return q;
}
long sc_live(void) { return live; }
/* ---------------------------------------------------------------- points, shared between the forked runs
 * An access is a point if it is to an object that was there before the threads started, is touched by two
 * of them and changed by one; or is by an instruction that reached, in some run, an object made since that
 * is. Both sets grow over the runs of a scenario, until no run finds a new member. */
#define NPC 8192
static struct set { uintptr_t v[NPC]; int n; uintptr_t pend[512]; int npend; } *OLD, *NEW;     /* pend: found in a run, in force from the next on */
static unsigned sh(uintptr_t v) { return (v * 0x9e3779b97f4a7c15u) >> 51; }
static int slot(struct set *s, uintptr_t v) { unsigned h = sh(v); while (s->v[h] && s->v[h] != v) h = (h + 1) % NPC; return h; }
static int in(struct set *s, uintptr_t v) { return s->v[slot(s, v)] == v; }
static int add(struct set *s, uintptr_t v)
{
    if (in(s, v)) return 0;
    for (int i = 0; i < s->npend; i++) if (s->pend[i] == v) return 1;
    if (s->npend < 512) s->pend[s->npend++] = v;
    return 1;
}
static void merge(struct set *s)
{
    for (int i = 0; i < s->npend; i++) { if (++s->n > NPC / 2) mc_internal("too many points"); s->v[slot(s, s->pend[i])] = s->pend[i]; }
    s->npend = 0;
}
void sc_merge(void) { merge(OLD); merge(NEW); }
void sc_forget(void) { memset(OLD, 0, sizeof *OLD); memset(NEW, 0, sizeof *NEW); }
int sc_npcs(void) { return OLD->n + NEW->n; }
static const char *fname(void *pc);
static struct { void *pc; unsigned char n[SC_MAXT]; } CNT[NPC];      /* how often a thread was at a point here */
void sc_dump(FILE *f)
{
    for (int i = 0; i < NPC; i++) if (OLD->v[i]) fprintf(f, "object %lx\n", OLD->v[i]);
    for (int i = 0; i < NPC; i++) if (NEW->v[i]) fprintf(f, "new, by %s\n", fname((char *)NEW->v[i] - 1));
    for (int i = 0; i < NPC; i++) if (CNT[i].pc) fprintf(f, "at %s: %d %d\n", fname((char *)CNT[i].pc - 1), CNT[i].n[0], CNT[i].n[1]);
}
/* what each address was touched by */
#define NAD (1 << 17)
static struct ad { uintptr_t a; u8 rd, wr, sh; int npc; void *pc[6]; } *AD; static long nad;
static int fresh; static uintptr_t made;        /* blocks from here on were made by the threads */
/* returns whether this is a point */
static int seen_at(uintptr_t a, int wr, void *pc)
{
    unsigned h = (a * 0x9e3779b97f4a7c15u) >> 47;
    int isnew = IN_ARENA(a) && a >= made;
    while (AD[h].a && AD[h].a != a) h = (h + 1) % NAD;
    struct ad *d = &AD[h];
    if (!d->a) { if (++nad > NAD * 3 / 4) mc_internal("too many addresses"); d->a = a; }
    int m = 1 << me->id;
    if (wr) d->wr |= m; else d->rd |= m;
    int all = d->rd | d->wr;
    if (!d->sh && d->wr && (all & (all - 1))) {
        d->sh = 1;
        if (!isnew) fresh |= add(OLD, a);
        else for (int i = 0; i < d->npc; i++) fresh |= add(NEW, (uintptr_t)d->pc[i]);
    }
    if (!isnew) return in(OLD, a);
    if (d->sh) fresh |= add(NEW, (uintptr_t)pc);
    else {
        int i = 0;
        while (i < d->npc && d->pc[i] != pc) i++;
        if (i == d->npc && d->npc < 6) d->pc[d->npc++] = pc;
    }
    return in(NEW, (uintptr_t)pc);
}
/* ---------------------------------------------------------------- scheduling */
static unsigned runnable(void) { unsigned m = 0; for (int i = 0; i < NT; i++) if (T[i].state == READY) m |= 1 << i; return m; }
static void give(int to)
{
    int from = me ? me->id : -1;
    cur = to; R->switches++;
    if (sc_switch) sc_switch(from, to);
    sem_post(&T[to].go);
}
static void pause_me(void) { thr *t = me; while (sem_wait(&t->go)) ; }
static void switch_to(int to) { give(to); pause_me(); }
static const char *fname(void *pc)
{
    static char b[3][200]; static int k; char c[200], exe[200], ln[200] = ""; FILE *f; char *o = b[k++ % 3];
    extern char __executable_start[];
    int n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0;
    snprintf(c, sizeof c, "addr2line -f -s -e %s 0x%lx 2>/dev/null", exe, (unsigned long)((char *)pc - __executable_start));
    snprintf(o, 200, "%p", pc);
    if ((f = popen(c, "r"))) { if (fgets(o, 100, f)) { o[strcspn(o, "\n")] = 0; if (fgets(ln, 90, f)) { ln[strcspn(ln, "\n ")] = 0; strcat(o, " "); strcat(o, ln); } } pclose(f); }
    return o;
}
const char *sc_where(const runres *r, int i) { return r->where[i] ? fname((char *)r->where[i] - 1) : "-"; }
static void point(void *pc)
{
    unsigned h = sh((uintptr_t)pc); while (CNT[h].pc && CNT[h].pc != pc) h = (h + 1) % NPC;
    CNT[h].pc = pc;
    if (CNT[h].n[me->id] >= cap) return;
    CNT[h].n[me->id]++;
    if (R->npoints >= SC_MAXPT) return;
    int k = R->npoints++;
    R->run[k] = runnable() & ~(1u << me->id);
    if (pnext < P->n && P->p[pnext].at == k) {
        int to = P->p[pnext].to;
        R->where[pnext] = pc;
        pnext++;
        if (T[to].state != READY) mc_internal("plan: thread %d not ready", to);
        switch_to(to);
    }
}
static void next_or_done(void)
{
    unsigned m = runnable();
    if (!m) {
        for (int i = 0; i < NT; i++) if (T[i].state == WAITING) { R->deadlock = 1; mc_fail("deadlock", "thread %d waits for a lock that is never released", i); }
        sem_post(&mainsem); return;
    }
    give(__builtin_ctz(m));
}
static void *body(void *v)
{
    thr *t = v; pthread_attr_t a; void *lo; size_t n;
    me = t;
    t->tid = syscall(SYS_gettid);
    pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &n); pthread_attr_destroy(&a);
    t->slo = lo; t->shi = t->slo + n;
    sem_post(&mainsem);
    pause_me();
    t->f(t->arg);
    OPENSSL_thread_stop();
    t->state = DONE;
    next_or_done();
    me = NULL;
    return NULL;
}
static int asleep(pid_t tid)
{
    char p[64], b[400], *e; FILE *f; int n;
    snprintf(p, sizeof p, "/proc/self/task/%d/stat", tid);
    if (!(f = fopen(p, "r"))) return 0;
    n = fread(b, 1, 399, f); fclose(f); b[n > 0 ? n : 0] = 0;
    e = strrchr(b, ')');
    return e && e[2] == 'S';
}
void sc_run(int nt, void (**f)(void *), void **arg, const plan *p, int cap_, runres *r)
{
    NT = nt; P = p; R = r; pnext = 0; cap = cap_; fresh = 0; nad = 0;
    memset(r, 0, sizeof *r);
    AD = mmap(NULL, NAD * sizeof *AD, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sem_init(&mainsem, 0, 0);
    for (int i = 0; i < nt; i++) {
        T[i] = (thr){ .id = i, .f = f[i], .arg = arg[i] };
        sem_init(&T[i].go, 0, 0);
        if (pthread_create(&T[i].th, NULL, body, &T[i])) mc_internal("pthread_create");
        while (sem_wait(&mainsem)) ;
        T[i].state = READY;
    }
    made = (uintptr_t)Ap;
    active = 1;
    give(p->first);
    for (int idle = 0;;) {
        struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
        ts.tv_nsec += 20000000; if (ts.tv_nsec >= 1000000000) ts.tv_sec++, ts.tv_nsec -= 1000000000;
        if (!sem_timedwait(&mainsem, &ts)) break;
        /* the running thread sleeps in the library, for a lock held by a preempted one: no such schedule */
        int c = cur; int s = asleep(T[c].tid);
        if (s && c == cur && T[c].state == READY) { if (++idle > 5) { r->infeasible = 1; _exit(0); } }
        else idle = 0;
    }
    active = 0;
    for (int i = 0; i < nt; i++) pthread_join(T[i].th, NULL);
    if (pnext < p->n) mc_internal("plan not followed: %d of %d", pnext, p->n);
    r->fresh = fresh;
    r->live = live;
    munmap(AD, NAD * sizeof *AD);
}
/* ---------------------------------------------------------------- what the engine does */
static char *bss_lo, *bss_hi;
extern char __data_start[] __attribute__((weak)), _end[];
static int touch(char *a, size_t n, int wr, void *pc)
{
    int hit = 0;
    for (uintptr_t g = (uintptr_t)a & ~7ul; g < (uintptr_t)a + n && g < (uintptr_t)a + 4096; g += 8) hit |= seen_at(g, wr, pc);
    return hit;
}
static inline void acc(void *p, size_t n, int wr, void *pc)
{
    if (!active || !me) return;
    char *a = p;
    if (a >= me->slo && a < me->shi) return;
    if (IN_ARENA(a)) { if (isdead(a)) mc_fail(mc_fmt("use-after-free:%s", fname(pc)), "%s of freed memory in %s", wr ? "write" : "read", fname(pc)); }
    else if (a < bss_lo || a >= bss_hi) return;
    if (touch(a, n, wr, pc)) point(pc);
}
#define RA __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void *p) { acc(p, n, 0, RA); } void __tsan_write##n(void *p) { acc(p, n, 1, RA); } \
    void __tsan_unaligned_read##n(void *p) { acc(p, n, 0, RA); } void __tsan_unaligned_write##n(void *p) { acc(p, n, 1, RA); } \
    void __tsan_volatile_read##n(void *p) { acc(p, n, 0, RA); } void __tsan_volatile_write##n(void *p) { acc(p, n, 1, RA); } \
    void __tsan_read_write##n(void *p) { acc(p, n, 1, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, 0, RA); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, 1, RA); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void *a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void *a) { (void)a; }
#define AT(n, t) \
    t __tsan_atomic##n##_load(const volatile t *p, int o) { acc((void *)p, sizeof(t), 0, RA); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##n##_store(volatile t *p, t v, int o) { acc((void *)p, sizeof(t), 1, RA); __atomic_store_n(p, v, 5); } \
    t __tsan_atomic##n##_exchange(volatile t *p, t v, int o) { acc((void *)p, sizeof(t), 1, RA); return __atomic_exchange_n(p, v, 5); } \
    t __tsan_atomic##n##_fetch_add(volatile t *p, t v, int o) { acc((void *)p, sizeof(t), 1, RA); return __atomic_fetch_add(p, v, 5); } \
    t __tsan_atomic##n##_fetch_sub(volatile t *p, t v, int o) { acc((void *)p, sizeof(t), 1, RA); return __atomic_fetch_sub(p, v, 5); } \
    t __tsan_atomic##n##_fetch_and(volatile t *p, t v, int o) { acc((void *)p, sizeof(t), 1, RA); return __atomic_fetch_and(p, v, 5); } \
    t __tsan_atomic##n##_fetch_or(volatile t *p, t v, int o) { acc((void *)p, sizeof(t), 1, RA); return __atomic_fetch_or(p, v, 5); } \
    t __tsan_atomic##n##_fetch_xor(volatile t *p, t v, int o) { acc((void *)p, sizeof(t), 1, RA); return __atomic_fetch_xor(p, v, 5); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile t *p, t *e, t v, int o, int f) { acc((void *)p, sizeof(t), 1, RA); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile t *p, t *e, t v, int o, int f) { acc((void *)p, sizeof(t), 1, RA); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    t __tsan_atomic##n##_compare_exchange_val(volatile t *p, t e, t v, int o, int f) { acc((void *)p, sizeof(t), 1, RA); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) {}
void __tsan_atomic_signal_fence(int o) {}

/* a call out of the engine: the objects it is given count as touched */
void sc_call(uintptr_t *reg, void *pc, int mask)
{
    if (!active || !me) return;
    int e = errno, hit = 0;
    size_t n = mask >> 16 ? reg[mask >> 16] : 1;
    for (int i = 0; i < 6; i++) if ((mask >> i | mask >> (i + 8)) & 1) {
        char *a = (char *)reg[i];
        if (a >= me->slo && a < me->shi) continue;
        if (IN_ARENA(a)) { if (isdead(a)) continue; }
        else if (a < bss_lo || a >= bss_hi) continue;
        hit |= touch(a, n, mask >> i & 1, pc);
    }
    if (hit) point(pc);
    errno = e;
}
/* locks */
static struct lk { void *l; int owner, readers; } LK[64]; static int nlk;
static struct lk *lock_of(void *l) { for (int i = 0; i < nlk; i++) if (LK[i].l == l) return &LK[i]; if (nlk == 64) mc_internal("locks"); LK[nlk] = (struct lk){ l, -1, 0 }; return &LK[nlk++]; }
static void wake(void *l) { for (int i = 0; i < NT; i++) if (T[i].state == WAITING && T[i].waits == l) T[i].state = READY; }
static void block_on(void *l)
{
    me->state = WAITING; me->waits = l;
    unsigned m = runnable();
    if (!m) { R->deadlock = 1; mc_fail("deadlock", "every thread waits"); }
    switch_to(__builtin_ctz(m));
    me->state = READY;
}
static void always(void *pc) { point(pc); }
static int lock(void *l, int wr, void *pc)
{
    if (!active || !me) return 1;
    always(pc);
    struct lk *k = lock_of(l);
    if (k->owner == me->id) { R->deadlock = 1; mc_fail("deadlock", "a thread takes a lock it holds"); }
    while (k->owner >= 0 || (wr && k->readers)) block_on(l);
    if (wr) k->owner = me->id; else k->readers++;
    return 1;
}
static int unlock(void *l, void *pc)
{
    if (!active || !me) return 1;
    struct lk *k = lock_of(l);
    if (k->owner == me->id) k->owner = -1; else if (k->readers) k->readers--; else mc_fail("unlock", "a lock that is not held is released");
    wake(l);
    always(pc);
    return 1;
}
int __wrap_CRYPTO_THREAD_write_lock(void *l) { return lock(l, 1, RA); }
int __wrap_CRYPTO_THREAD_read_lock(void *l) { return lock(l, 0, RA); }
int __wrap_CRYPTO_THREAD_unlock(void *l) { return unlock(l, RA); }
int __wrap_pthread_mutex_lock(void *l) { lock(l, 1, RA); return 0; }
int __wrap_pthread_mutex_unlock(void *l) { unlock(l, RA); return 0; }
int __wrap_pthread_rwlock_wrlock(void *l) { lock(l, 1, RA); return 0; }
int __wrap_pthread_rwlock_rdlock(void *l) { lock(l, 0, RA); return 0; }
int __wrap_pthread_rwlock_unlock(void *l) { unlock(l, RA); return 0; }
static struct once { void *o; int st; } ON[64]; static int non;
static int once(int *o, void (*f)(void), void *pc)
{
    struct once *x = NULL;
    /* between threads our own account; the real one is kept for everyone else */
    if (!active || !me) return CRYPTO_THREAD_run_once((CRYPTO_ONCE *)o, f);
    always(pc);
    if (*(volatile int *)o == 2) return 1;                /* done before the threads started */
    for (int i = 0; i < non; i++) if (ON[i].o == o) x = &ON[i];
    if (!x) { x = &ON[non++]; *x = (struct once){ o, 0 }; if (non == 64) mc_internal("once"); }
    while (x->st == 1) block_on(o);
    if (x->st == 0) {
        x->st = 1;
        f();
        CRYPTO_THREAD_run_once((CRYPTO_ONCE *)o, (void (*)(void))abs);
        x->st = 2;
        wake(o);
    }
    always(pc);
    return 1;
}
int __wrap_CRYPTO_THREAD_run_once(void *o, void (*f)(void)) { return once(o, f, RA); }
int __wrap_pthread_once(void *o, void (*f)(void)) { once(o, f, RA); return 0; }

static void on_crash(int s) { mc_fail(mc_fmt("crash:signal%d", s), "signal %d", s); }
void sc_init(void)
{
    A0 = Ap = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    dead = mmap(NULL, ARENA / 128, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    OLD = mmap(NULL, 2 * sizeof *OLD, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    NEW = OLD + 1;
    bss_lo = __data_start; bss_hi = _end;
    if (!CRYPTO_set_mem_functions(a_malloc, a_realloc, a_free)) mc_internal("CRYPTO_set_mem_functions");
    signal(SIGSEGV, on_crash); signal(SIGBUS, on_crash); signal(SIGABRT, on_crash); signal(SIGFPE, on_crash);
}
