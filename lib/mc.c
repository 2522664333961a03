#include "mc.h"
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/prctl.h>

int mc_thorough;
long mc_n_states, mc_n_trans, mc_n_execs;
sigjmp_buf mc_jb;
static sigjmp_buf *inner;           /* handler of the running mc_explore */
static FILE *out;
static int shard_i, shard_n = 1, hang_s = 60;
static int want_ex = -1, want_n, want[4096], ex_no;     /* replay of one execution */
static const char *stop_sig;        /* a replay ends when it has seen this */
static long case_no = -1, skip_through = -1, only = -1;
static char casename[512];
static int in_case;

#define TRSZ 16384
struct shm { volatile long case_no; volatile size_t len; char name[512]; char tr[TRSZ]; };
static struct shm *sh, sh_local;
static int child_fd = -1;

/* shared with forked copies */
#define MAXCH 4096
static struct shared {
    int chv[MAXCH], chn[MAXCH], chlen, chpos;
    struct { char name[96]; long n; } ctr[256];
    int nctr;
    long trans;
    int nfp;
    struct { uint64_t a, b; } fp[256];
} *S_;
#define chv S_->chv
#define chn S_->chn
#define chlen S_->chlen
#define chpos S_->chpos
#define ctr S_->ctr
#define nctr S_->nctr
static struct { char name[160]; } outc[512];
static int noutc;
static struct { char sig[256]; long n; } sigs[256];
static int nsigs, nsamples;

static void jstr(const char *s)
{
    fputc('"', out);
    for (; *s; s++) {
        if (*s == '"' || *s == '\\') fprintf(out, "\\%c", *s);
        else if ((u8)*s < 32 || (u8)*s > 126) fprintf(out, "\\u%04x", (u8)*s);
        else fputc(*s, out);
    }
    fputc('"', out);
}
void mc_internal(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "INTERNAL: case %s: ", casename);
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
    fflush(out);
    _exit(77);
}
static void on_alarm(int s)
{
    (void)s;
    static const char m[] = "MC-HANG\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(78);
}
static const char *only_name;
void mc_init(int argc, char **argv)
{
    const char *o = NULL, *tr = NULL;
    sh = &sh_local;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--thorough")) mc_thorough = 1;
        else if (!strcmp(argv[i], "--shard")) { sscanf(argv[++i], "%d/%d", &shard_i, &shard_n); }
        else if (!strcmp(argv[i], "--out")) o = argv[++i];
        else if (!strcmp(argv[i], "--trace")) tr = argv[++i];
        else if (!strcmp(argv[i], "--skip-through")) skip_through = atol(argv[++i]);
        else if (!strcmp(argv[i], "--only")) only = atol(argv[++i]);
        else if (!strcmp(argv[i], "--name")) only_name = argv[++i];
        else if (!strcmp(argv[i], "--choices")) {       /* explore:c,c,c */
            char *p = argv[++i];
            want_ex = strtol(p, &p, 10);
            while (*p == ':' || *p == ',') if (want_n < 4096) want[want_n++] = strtol(p + 1, &p, 10);
        }
        else if (!strcmp(argv[i], "--stop")) stop_sig = argv[++i];
        else if (!strcmp(argv[i], "--hang")) hang_s = atoi(argv[++i]);
    }
    out = o ? fopen(o, "w") : stdout;
    if (!out) { perror(o); exit(77); }
    if (tr) {
        int fd = open(tr, O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, sizeof *sh)) exit(77);
        sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (sh == MAP_FAILED) exit(77);
        close(fd);
    }
    sh->case_no = -1;
    S_ = mmap(NULL, sizeof *S_, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S_ == MAP_FAILED) exit(77);
    signal(SIGALRM, on_alarm);
}
static double now(void);
static double case_t0;
int mc_case_start(const char *fmt, ...)
{
    va_list ap;
    case_no++;
    if (only >= 0 ? case_no != only : case_no % shard_n != shard_i || case_no <= skip_through)
        return 0;
    va_start(ap, fmt);
    vsnprintf(casename, sizeof casename, fmt, ap);
    va_end(ap);
    if (only_name && strcmp(only_name, casename)) return 0;
    sh->case_no = case_no;
    memcpy(sh->name, casename, sizeof casename);
    mc_reset_trace();
    mc_states_reset();
    in_case = 1;
    ex_no = -1;
    inner = NULL;
    mc_count("cases", 1);
    alarm(hang_s);
    if (getenv("MC_TIMES")) case_t0 = now();
    return 1;
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
void mc_case_end(void)
{
    in_case = 0;
    alarm(0);
    if (getenv("MC_TIMES")) fprintf(stderr, "TIME %.2f %s\n", now() - case_t0, casename);
}
void mc_alive(void) { alarm(hang_s); }
void mc_reset_trace(void) { sh->len = 0; sh->tr[0] = 0; }
void mc_op(const char *fmt, ...)
{
    va_list ap;
    size_t l = sh->len;
    if (l > TRSZ - 400) return;
    va_start(ap, fmt);
    int k = vsnprintf(sh->tr + l, 380, fmt, ap);
    va_end(ap);
    if (k > 379) k = 379;
    l += k;
    sh->tr[l++] = ';';
    sh->tr[l++] = ' ';
    sh->tr[l] = 0;
    sh->len = l;
}
size_t mc_trace_mark(void) { return sh->len; }
void mc_trace_cut(size_t m) { sh->len = m; sh->tr[m] = 0; }

/* choices */
static int exploring;
struct fp { uint64_t a, b; };
static int add_state(struct fp f);
int mc_choose(int n)
{
    if (!exploring) mc_internal("mc_choose outside mc_explore");
    if (n < 1) mc_internal("mc_choose(%d)", n);
    if (chpos >= MAXCH) mc_internal("too many choices");
    if (chpos < chlen) {
        if (!chn[chpos] && chv[chpos] < n) chn[chpos] = n;
        if (chn[chpos] != n) mc_internal("replay diverged at choice %d: %d alternatives, was %d", chpos, n, chn[chpos]);
    } else {
        chv[chpos] = 0;
        chn[chpos] = n;
        chlen++;
    }
    return chv[chpos++];
}
long mc_explore(void (*f)(void *), void *arg)
{
    volatile long n = 0;
    sigjmp_buf jb;
    size_t mark = mc_trace_mark();
    if (exploring) mc_internal("nested mc_explore");
    ex_no++;
    if (want_ex >= 0 && ex_no != want_ex) return 0;
    exploring = 1;
    chlen = 0;
    if (want_ex >= 0) { memcpy(chv, want, want_n * sizeof *want); chlen = want_n; memset(chn, 0, sizeof chn); }
    inner = &jb;
    for (;;) {
        chpos = 0;
        mc_trace_cut(mark);
        alarm(hang_s);
        if (sigsetjmp(jb, 0) == 0) f(arg);
        n++;
        mc_n_execs++;
        if (want_ex >= 0) break;
        chlen = chpos; /* an aborted execution may have used fewer */
        while (chlen > 0 && chv[chlen - 1] + 1 >= chn[chlen - 1]) chlen--;
        if (!chlen) break;
        chv[chlen - 1]++;
    }
    exploring = 0;
    inner = NULL;
    return n;
}
static void child_exit(void)
{
    S_->trans = mc_n_trans;
    _exit(0);
}
static void vrecord(const char *sig, const char *fmt, va_list ap)
{
    char msg[2048];
    vsnprintf(msg, sizeof msg, fmt, ap);
    if (child_fd >= 0) {        /* the parent records it */
        if (write(child_fd, sig, strlen(sig) + 1) < 0 || write(child_fd, msg, strlen(msg) + 1) < 0) _exit(77);
        child_exit();
    }
    for (int i = 0; i < nsigs; i++)
        if (!strcmp(sigs[i].sig, sig)) { sigs[i].n++; return; }
    if (nsigs == 256) return;
    snprintf(sigs[nsigs++].sig, 256, "%s", sig);
    fprintf(out, "{\"t\":\"fail\",\"sig\":");
    jstr(sig);
    fprintf(out, ",\"msg\":");
    jstr(msg);
    fprintf(out, ",\"case_no\":%ld,\"case\":", case_no);
    jstr(casename);
    fprintf(out, ",\"trace\":");
    jstr(sh->tr);
    if (exploring) fprintf(out, ",\"explore\":%d", ex_no);
    fprintf(out, ",\"choices\":[");
    for (int i = 0; exploring && i < chpos; i++) fprintf(out, "%s%d", i ? "," : "", chv[i]);
    fprintf(out, "]}\n");
    fflush(out);
    if (stop_sig && !strcmp(stop_sig, sig)) _exit(0);
}
void mc_note_fail(const char *sig, const char *fmt, ...)
{
    va_list ap;
    char s[256];
    snprintf(s, sizeof s, "%s", sig);
    va_start(ap, fmt);
    vrecord(s, fmt, ap);
    va_end(ap);
}
void mc_fail(const char *sig, const char *fmt, ...)
{
    va_list ap;
    char s[256];
    snprintf(s, sizeof s, "%s", sig);
    va_start(ap, fmt);
    vrecord(s, fmt, ap);
    va_end(ap);
    if (inner) siglongjmp(*inner, 1);
    if (!in_case) mc_internal("failure outside a case: %s", sig);
    siglongjmp(mc_jb, 1);
}
/* runs f in a forked copy of the process; failures of the copy are this process's */
void mc_isolate(void (*f)(void *), void *arg)
{
    int fd[2], st;
    char b[4096];
    size_t n = 0;
    ssize_t r;
    alarm(hang_s);
    if (pipe(fd)) mc_internal("pipe");
    S_->trans = mc_n_trans;
    S_->nfp = 0;
    fflush(NULL);
    pid_t p = fork();
    if (p < 0) mc_internal("fork");
    if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(fd[0]);
        child_fd = fd[1];
        f(arg);
        child_exit();
    }
    close(fd[1]);
    while (n < sizeof b - 2 && (r = read(fd[0], b + n, sizeof b - 2 - n)) > 0) n += r;
    close(fd[0]);
    b[n] = b[n + 1] = 0;
    if (waitpid(p, &st, 0) != p) mc_internal("waitpid");
    mc_n_trans = S_->trans;
    for (int i = 0; i < S_->nfp; i++) add_state((struct fp){ S_->fp[i].a, S_->fp[i].b });
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(1); }
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    if (n) mc_fail(b, "%s", b + strlen(b) + 1);
}
const char *mc_fmt(const char *fmt, ...)
{
    static char b[8][512];
    static int k;
    va_list ap;
    k = (k + 1) & 7;
    va_start(ap, fmt);
    vsnprintf(b[k], sizeof b[k], fmt, ap);
    va_end(ap);
    return b[k];
}
const char *mc_hex(const void *p, size_t n)
{
    static char b[8][600];
    static int k;
    k = (k + 1) & 7;
    if (n > 290) n = 290;
    for (size_t i = 0; i < n; i++) sprintf(b[k] + 2 * i, "%02x", ((const u8 *)p)[i]);
    b[k][2 * n] = 0;
    return b[k];
}
/* state set: open addressing over 128-bit fingerprints */
static struct fp *set;
static size_t cap, used;
uint64_t mc_hash(const void *p, size_t n, uint64_t h)
{
    const u8 *s = p;
    h ^= 0x9E3779B97F4A7C15ull + n;
    while (n >= 8) {
        uint64_t w;
        memcpy(&w, s, 8);
        h = (h ^ w) * 0xff51afd7ed558ccdull;
        h ^= h >> 32;
        s += 8;
        n -= 8;
    }
    while (n--) h = (h ^ *s++) * 0x100000001b3ull;
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ull;
    return h ^ h >> 32;
}
void mc_states_reset(void)
{
    if (used) memset(set, 0, cap * sizeof *set);
    used = 0;
}
static int insert(struct fp f)
{
    size_t i = f.a & (cap - 1);
    while (set[i].a || set[i].b) {
        if (set[i].a == f.a && set[i].b == f.b) return 0;
        i = (i + 1) & (cap - 1);
    }
    set[i] = f;
    used++;
    return 1;
}
int mc_state(const void *p, size_t n)
{
    struct fp f = { mc_hash(p, n, 1), mc_hash(p, n, 0x1234567) | 1 };
    if (child_fd >= 0 && S_->nfp < 256) { S_->fp[S_->nfp].a = f.a; S_->fp[S_->nfp].b = f.b; S_->nfp++; }
    return add_state(f);
}
static int add_state(struct fp f)
{
    if (used * 2 >= cap) {
        struct fp *old = set;
        size_t oc = cap;
        cap = cap ? cap * 2 : 1024;
        set = calloc(cap, sizeof *set);
        if (!set) mc_internal("out of memory");
        used = 0;
        for (size_t i = 0; i < oc; i++) if (old[i].a || old[i].b) insert(old[i]);
        free(old);
    }
    if (!insert(f)) return 0;
    mc_n_states++;
    return 1;
}
#define MEMO 65536
static struct memo { struct memo *next; size_t klen; u8 *val; u8 key[]; } *memo[MEMO];
static size_t memo_bytes;
u8 *mc_memo(const void *key, size_t klen, size_t n, int *new)
{
    struct memo **h = &memo[mc_hash(key, klen, 5) % MEMO], *m;
    *new = 0;
    for (m = *h; m; m = m->next) if (m->klen == klen && !memcmp(m->key, key, klen)) return m->val;
    if (memo_bytes > 400u << 20) {      /* start over */
        for (int i = 0; i < MEMO; i++)
            while ((m = memo[i])) { memo[i] = m->next; free(m->val); free(m); }
        memo_bytes = 0;
    }
    m = malloc(sizeof *m + klen);
    if (!m || !(m->val = malloc(n ? n : 1))) mc_internal("out of memory");
    memo_bytes += klen + n + 64;
    m->klen = klen;
    memcpy(m->key, key, klen);
    m->next = *h;
    *h = m;
    *new = 1;
    return m->val;
}
void mc_count(const char *name, long n)
{
    int i;
    for (i = 0; i < nctr; i++) if (!strcmp(ctr[i].name, name)) break;
    if (i == nctr) {
        if (nctr == 256) return;
        snprintf(ctr[nctr++].name, 96, "%s", name);
    }
    ctr[i].n += n;
}
void mc_outcome(const char *fmt, ...)
{
    char b[160];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    for (int i = 0; i < noutc; i++) if (!strcmp(outc[i].name, b)) return;
    if (noutc < 512) strcpy(outc[noutc++].name, b);
}
void mc_sample(const char *fmt, ...)
{
    char b[1024];
    va_list ap;
    if (nsamples++ >= 3) return;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    fprintf(out, "{\"t\":\"sample\",\"case\":");
    jstr(casename);
    fprintf(out, ",\"text\":");
    jstr(b);
    fprintf(out, "}\n");
}
int mc_finish(void)
{
    fprintf(out, "{\"t\":\"stats\",\"states\":%ld,\"transitions\":%ld,\"execs\":%ld,\"counters\":{", mc_n_states, mc_n_trans, mc_n_execs);
    for (int i = 0; i < nctr; i++) { if (i) fputc(',', out); jstr(ctr[i].name); fprintf(out, ":%ld", ctr[i].n); }
    fprintf(out, "},\"outcomes\":[");
    for (int i = 0; i < noutc; i++) { if (i) fputc(',', out); jstr(outc[i].name); }
    fprintf(out, "],\"fails\":{");
    for (int i = 0; i < nsigs; i++) { if (i) fputc(',', out); jstr(sigs[i].sig); fprintf(out, ":%ld", sigs[i].n + 1); }
    fprintf(out, "},\"last_case\":%ld}\n", case_no);
    fclose(out);
    return 0;
}
