/* P20: the checksum tools judge lists and print digests correctly. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "eng.h"
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include "p20tool.h"
#ifdef VARIANT_GOST12
static const char *TOOL = "gost12sum";
#else
static const char *TOOL = "gostsum";
#endif
static char DIR_[64];
#define LONGMAX 300000
/* ---------------------------------------------------------------- running the tool */
static struct { int rc; char out[1 << 16], err[1 << 16]; size_t nout, nerr; } R;
static size_t slurp(const char *f, char *b, size_t n)
{
    int fd = open(f, O_RDONLY);
    size_t k = 0; ssize_t r;
    while (fd >= 0 && k < n - 1 && (r = read(fd, b + k, n - 1 - k)) > 0) k += r;
    if (fd >= 0) close(fd);
    b[k] = 0;
    return k;
}
static void put(const char *f, const void *b, size_t n)
{
    int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || write(fd, b, n) != (ssize_t)n) mc_internal("write %s", f);
    close(fd);
}
static const char *out_to;
static void run(char **argv, const char *in)
{
    int argc = 0, st;
    while (argv[argc]) argc++;
    mc_alive();
    fflush(NULL);
    pid_t p = fork();
    if (p < 0) mc_internal("fork");
    if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int i = open(in ? in : "/dev/null", O_RDONLY), o = open(out_to ? out_to : ".out", O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(".err", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (i < 0 || o < 0 || e < 0) _exit(96);
        dup2(i, 0); dup2(o, 1); dup2(e, 2);
        stdin = fdopen(0, "r"); stdout = fdopen(1, "w"); stderr = fdopen(2, "w");
        setvbuf(stderr, NULL, _IONBF, 0);
        optind = 1; opterr = 0;
        RD.on = 1; RD.call = 0;
        exit(tool_main(argc, argv));
    }
    if (waitpid(p, &st, 0) != p) mc_internal("waitpid");
    R.nout = slurp(".out", R.out, sizeof R.out);
    R.nerr = slurp(".err", R.err, sizeof R.err);
    if (WIFSIGNALED(st) || WEXITSTATUS(st) == 99 || strstr(R.err, "AddressSanitizer")) {
        char fn[64] = "", kind[64] = "signal", *q;
        if ((q = strstr(R.err, "ERROR: AddressSanitizer: "))) sscanf(q + 25, "%63s", kind);
        if ((q = strstr(R.err, "tool_main"))) {}
        mc_fail(mc_fmt("crash:%s", kind), "%s crashes: %.1200s", TOOL, R.err);
    }
    R.rc = WEXITSTATUS(st);
    mc_trans(1);
}
#define RUN(in, ...) run((char *[]){ (char *)TOOL, __VA_ARGS__, NULL }, in)
/* ---------------------------------------------------------------- what a digest is */
static void hexd(const void *m, size_t n, int size, int test, char *out)
{
    u8 d[64];
#ifdef VARIANT_GOST12
    ref_streebog(size * 8, m, n, d);
    for (int i = 0; i < size; i++) sprintf(out + 2 * i, "%02x", d[i]);
#else
    if (test) ref_hash94(RSB_HASH_TEST, m, n, d); else ref_h94cp(m, n, d);
    for (int i = 0; i < 32; i++) sprintf(out + 2 * i, "%02x", d[31 - i]);
#endif
}
static int fhex(const char *name, int size, int test, char *out)
{
    static char b[LONGMAX];
    struct stat s;
    if (stat(name, &s) || !S_ISREG(s.st_mode)) return 0;
    size_t n = slurp(name, b, sizeof b);
    static struct { char key[64]; char v[130]; } memo[64]; static int nm;
    uint64_t h[3] = { mc_hash(b, n, 3), mc_hash(b, n, 4) ^ n, size * 2 + test };
    int nw;
    u8 *m = mc_memo(h, sizeof h, 130, &nw);
    if (nw) hexd(b, n, size, test, (char *)m);
    strcpy(out, (char *)m);
    return 1;
}
/* ---------------------------------------------------------------- what a list means: 1 success, 0 failure, -1 not settled */
static int ishex(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static char names_bad[8][80]; static int nbad;
static int line_means(const char *l, size_t n, int test)
{
    char name[PATH_MAX + 8], want[130], low[130];
    size_t k = 0;
    int soft = 0;
    if (memchr(l, 0, n)) { int r = line_means(l, strlen(l), test); return r == 0 ? 0 : -1; }
    while (n && l[n - 1] == '\r') n--;
    if (!n) return -1;
    while (n && *l == ' ') { l++; n--; soft = 1; }
    if (!n) return -1;
    while (k < n && ishex(l[k])) k++;
#ifdef VARIANT_GOST12
    if (k != 64 && k != 128) return 0;
#else
    if (k != 64) return 0;
#endif
    if (k == n || l[k] != ' ' || k + 1 == n) return 0;
    if (n - k - 1 >= PATH_MAX) return 0;
    memcpy(name, l + k + 1, n - k - 1); name[n - k - 1] = 0;
    for (size_t i = 0; i < k; i++) low[i] = l[i] >= 'A' && l[i] <= 'F' ? l[i] + 32 : l[i];
    low[k] = 0;
    if (!fhex(name, k / 2, test, want) || strcmp(low, want)) {
        if (!soft && nbad < 8 && strlen(name) < 80) strcpy(names_bad[nbad++], name);
        return 0;
    }
    return soft ? -1 : 1;
}
static int list_means(const char *l, size_t n, int test)
{
    int r = 1, zero = memchr(l, 0, n) != NULL;
    nbad = 0;
    while (n) {
        const char *e = memchr(l, '\n', n);
        size_t k = e ? e - l : n;
        int v = line_means(l, k, test);
        if (v == 0) r = 0; else if (v < 0 && r > 0) r = -1;
        l += k; n -= k;
        if (e) { l++; n--; }
    }
    if (zero) nbad = 0;         /* which bytes make a line is not settled then, only that the list is not accepted */
    return r;
}
/* ---------------------------------------------------------------- */
static const char *vis(const char *l, size_t n)
{
    static char b[600]; size_t k = 0;
    for (size_t i = 0; i < n && k < 500; i++) {
        if (i > 8 && i < 56 && ishex(l[i])) { if (i == 9) { strcpy(b + k, ".."); k += 2; } continue; }
        if (l[i] == '\n') { strcpy(b + k, "\\n"); k += 2; } else if ((u8)l[i] < 32) k += sprintf(b + k, "\\%o", l[i]); else b[k++] = l[i];
    }
    b[k] = 0;
    return b;
}
static void judge(const char *list, size_t n, int verbose, int test, const char *what)
{
    int m = list_means(list, n, test);
    if (m == 1 && R.rc != 0) mc_fail(mc_fmt("refused:%s", what), "%s refuses (status %d) a list every line of which is right: %s [%.200s]", TOOL, R.rc, vis(list, n), R.err);
    if (m == 0 && R.rc == 0) mc_fail(mc_fmt("accepted:%s", what), "%s succeeds although a line is not right: %s", TOOL, vis(list, n));
    for (int i = 0; i < nbad; i++) if (!strstr(R.err, names_bad[i])) mc_fail(mc_fmt("unnamed:%s", what), "%s does not name the failing file %s: %s [%.200s]", TOOL, names_bad[i], vis(list, n), R.err);
    if (m == 0) mc_count("failing_lists", 1); else if (m == 1) mc_count("good_lists", 1); else mc_count("unsettled_lists", 1);
}
/* how: 0 -cFILE, 1 -c FILE, 2 -c on stdin, 3 -v -cFILE, 4 -c -v FILE ; test set for gostsum */
static void check(const char *list, size_t n, int how, int test, const char *what)
{
    put("list", list, n);
    char *t = test ? "-t" : how == 3 || how == 4 ? "-v" :
#ifdef VARIANT_GOST12
        "-l";
#else
        "-b";
#endif
    mc_op("%s %s, list %s", how == 0 ? "-cFILE" : how == 1 ? "-c FILE" : how == 2 ? "-c from stdin" : how == 3 ? "-v -cFILE" : "-c -v FILE", t, vis(list, n));
    switch (how) {
    case 0: RUN(NULL, t, "-clist"); break;
    case 1: RUN(NULL, t, "-c", "list"); break;
    case 2: RUN("list", t, "-c"); break;
    case 3: RUN(NULL, t, "-v", "-clist"); break;
    default: RUN("a", t, "-c", "-v", "list"); break;
    }
    judge(list, n, how >= 3, test, what);
}
/* ---------------------------------------------------------------- kinds of lines */
static const char *LN[] = { "good", "good upper case", "good empty file", "good name with spaces", "good name beginning with a space", "good, CR LF", "digest of another file", "missing file", "directory",
    "a character that is no digit", "one digit missing", "one digit too many", "no file name", "no space and no name", "tab for the space", "blank", "spaces only", "leading space", "very long name", "zero byte in the name", "zero byte before", "good 512",
    "cut 512", "wrong last digit", "text", "good long path", "other set", "wrong 512" };
#define NL (int)(sizeof LN / sizeof *LN)
static int mkline(int t, char *b, int test)
{
    static char big[PATH_MAX * 2 + 200];
    char h[140], h5[140]; int n;
    fhex("a", 32, test, h);
    switch (t) {
    case 0: return sprintf(b, "%s a", h);
    case 1: for (char *p = h; *p; p++) if (*p >= 'a') *p -= 32; return sprintf(b, "%s a", h);
    case 2: fhex("e", 32, test, h); return sprintf(b, "%s e", h);
    case 3: fhex("x y", 32, test, h); return sprintf(b, "%s x y", h);
    case 4: fhex(" z", 32, test, h); return sprintf(b, "%s  z", h);
    case 5: return sprintf(b, "%s a\r", h);
    case 6: return sprintf(b, "%s b", h);
    case 7: return sprintf(b, "%s missing", h);
    case 8: return sprintf(b, "%s dir", h);
    case 9: h[40] = 'g'; return sprintf(b, "%s a", h);
    case 10: h[63] = 0; return sprintf(b, "%s a", h);
    case 11: return sprintf(b, "%s0 a", h);
    case 12: return sprintf(b, "%s ", h);
    case 13: return sprintf(b, "%s", h);
    case 14: return sprintf(b, "%s\ta", h);
    case 15: return 0;
    case 16: return sprintf(b, "   ");
    case 17: return sprintf(b, " %s a", h);
    case 18: n = sprintf(b, "%s ", h); memset(b + n, 'n', PATH_MAX + 70); return n + PATH_MAX + 70;
    case 19: n = sprintf(b, "%s axb", h); b[n - 2] = 0; return n;
    case 20: n = sprintf(b, "?%s a", h); b[0] = 0; return n;
    case 21: case 22: case 27:
#ifdef VARIANT_GOST12
        fhex("a", 64, 0, h5);
        if (t == 22) h5[127] = 0;
        if (t == 27) h5[64] ^= 1;
        return sprintf(b, "%s a", h5);
#else
        return sprintf(b, "%s%s a", h, h);
#endif
    case 23: h[63] = h[63] == '0' ? '1' : '0'; return sprintf(b, "%s a", h);
    case 24: return sprintf(b, "# a comment");
    case 25: n = sprintf(b, "%s ", h); while (n < 65 + 4090) n += sprintf(b + n, "./"); return n + sprintf(b + n, "a");
    case 26: fhex("a", 32, !test, h);
#ifdef VARIANT_GOST12
        fhex("b", 64, 0, h); h[64] = 0;
#endif
        return sprintf(b, "%s a", h);
    }
    return 0;
}
/* ---------------------------------------------------------------- */
static void seqs(int first, int depth, int how, int test)
{
    static char b[5 * (PATH_MAX * 2)];
    int idx[4] = { first };
    for (;;) {
        for (int last = 0; last < 2; last++) {
            size_t n = 0;
            mc_reset_trace();
            for (int i = 0; i < depth; i++) { n += mkline(idx[i], b + n, test); if (i + 1 < depth || !last) b[n++] = '\n'; }
            char what[100]; snprintf(what, sizeof what, "%s", LN[idx[0]]);
            for (int i = 1; i < depth; i++) if (idx[i]) snprintf(what, sizeof what, "%s", LN[idx[i]]);
            check(b, n, how, test, what);
            mc_n_execs++;
        }
        int i = depth - 1;
        while (i > 0 && ++idx[i] == NL) idx[i--] = 0;
        if (i == 0) break;
    }
}
static void expect_out(const char *want, int rc, const char *what)
{
    if (R.rc != rc) mc_fail(mc_fmt("status:%s", what), "%s ends with status %d, not %d (%s) [%.200s]", TOOL, R.rc, rc, what, R.err);
    if (strcmp(R.out, want)) mc_fail(mc_fmt("output:%s", what), "%s prints \"%.150s\", not \"%.150s\" (%s)", TOOL, R.out, want, what);
}
static const char *NAMES[] = { "a", "b", "e", "x y", " z", "long", "dir", "missing", "-", "./a" };
static void generate(int i, int j, int opt)
{
    char want[1000] = "", h[140]; int fail = 0, n = 0;
    int size = 32, test = 0;
    char *o = "--";
#ifdef VARIANT_GOST12
    if (opt) size = 64, o = "-l";
#else
    if (opt) test = 1, o = "-t";
#endif
    const int a[2] = { i, j };
    for (int k = 0; k < 2; k++) {
        if (a[k] < 0) continue;
        if (fhex(NAMES[a[k]], size, test, h)) n += sprintf(want + n, "%s %s\n", h, NAMES[a[k]]); else fail = 1;
    }
    char *argv[] = { (char *)TOOL, o, i < 0 ? NULL : (char *)NAMES[i], j < 0 ? NULL : (char *)NAMES[j], NULL };
    if (i < 0 && j >= 0) return;
    mc_op("%s %s %s %s", TOOL, o, i < 0 ? "" : NAMES[i], j < 0 ? "" : NAMES[j]);
    run(argv, NULL);
    if (i < 0) return;
    expect_out(want, fail, "generate");
    /* what it prints, it accepts */
    if (*want) { memcpy(h, want, 1); put("list", want, n); mc_op("and its output checked"); if (test) RUN(NULL, "-t", "-clist"); else RUN(NULL, "-clist"); if (R.rc) mc_fail("own-output", "%s refuses its own output \"%.150s\" [%.200s]", TOOL, want, R.err); }
    mc_n_execs++;
}
static void on_stdin(const char *f, int opt)
{
    char want[200], h[140];
    char *o = opt ?
#ifdef VARIANT_GOST12
        "-l" : "--";
    fhex(f, opt ? 64 : 32, 0, h);
#else
        "-t" : "-b";
    fhex(f, 32, opt, h);
#endif
    sprintf(want, "%s -\n", h);
    mc_op("%s %s < %s", TOOL, o, f);
    RUN(f, o);
    expect_out(want, 0, "stdin");
}
int main(int argc, char **argv)
{
    mc_init(argc, argv);
    int r = ref_selftest();
    if (r) mc_internal("reference model self test %d failed", r);
    snprintf(DIR_, sizeof DIR_, "/tmp/p20-%d", (int)getpid());
    if (mkdir(DIR_, 0700) || chdir(DIR_)) mc_internal("scratch directory");
    static u8 big[LONGMAX]; fill(big, sizeof big, 5);
    put("a", "message a", 9); put("b", "message b", 9); put("e", "", 0); put("x y", "spaces", 6); put(" z", "leading", 7); put("long", big, 262144 + 77);
    if (mkdir("dir", 0700)) mc_internal("mkdir");
    char h[140];
    int T = strcmp(TOOL, "gostsum") == 0;
    /* 1: sequences of lines */
    for (int f = 0; f < NL; f++) for (int test = 0; test <= T; test++)
        for (int d = 1; d <= 3; d++)
            for (int how = 0; how < 5; how++) {
                if (d == 3 && (mc_thorough ? how > 2 : how || test)) continue;
                if (d == 3 && !mc_thorough && f && f != 6 && f != 9 && f != 15 && f != 24) continue;
                if (d == 2 && !mc_thorough && test && how) continue;
                MC_CASE("lists of %d lines beginning with %s, way %d%s", d, LN[f], how, test ? ", test set" : "") seqs(f, d, how, test);
            }
    /* 2: one character of a good list changed, dropped, doubled, and every cut */
    static const u8 AL[] = "\n\r \0\t0aAfFgG9:/@`.-#\xff\x80" "b";
    char good[400]; int n = 0;
    fhex("a", 32, 0, h); n += sprintf(good + n, "%s a\n", h);
    fhex("b", T ? 32 : 64, 0, h); n += sprintf(good + n, "%s b\n", h);
    fhex("x y", 32, 0, h); n += sprintf(good + n, "%s x y\n", h);
    for (int p = 0; p < n; p++) MC_CASE("byte %d of a list", p) {
        char b[402];
        int nv = mc_thorough ? 256 : sizeof AL - 1;
        for (int v = 0; v < nv; v++) { memcpy(b, good, n); b[p] = mc_thorough ? v : AL[v]; mc_reset_trace(); mc_op("byte %d set to %02x", p, (u8)b[p]); check(b, n, v & 1 ? 2 : 0, 0, "changed byte"); mc_n_execs++; }
        memcpy(b, good, p); memcpy(b + p, good + p + 1, n - p - 1); mc_reset_trace(); mc_op("byte %d dropped", p); check(b, n - 1, 0, 0, "dropped byte");
        memcpy(b, good, p + 1); memcpy(b + p + 1, good + p, n - p); mc_reset_trace(); mc_op("byte %d doubled", p); check(b, n + 1, 0, 0, "doubled byte");
        mc_reset_trace(); mc_op("cut at %d", p); check(good, p, 0, 0, "cut");
        mc_reset_trace(); mc_op("begun at %d", p); check(good + p, n - p, 0, 0, "beginning lost");
        mc_n_execs += 4;
    }
    /* long lines: every length around the limits */
    for (int k = 0; k < 5; k++) MC_CASE("long lines %d", k) {
        static char b[3 * PATH_MAX];
        static const int AT[] = { 0, 900, PATH_MAX - 80, PATH_MAX - 8, PATH_MAX + 60 };
        for (int l = AT[k]; l < AT[k] + (k == 0 ? 20 : 90); l++) for (int slash = 0; slash < 2; slash++) {
            fhex("a", 32, 0, h);
            int m = sprintf(b, "%s ", h);
            for (int i = 0; i < l; i++) b[m++] = slash ? (l - i) % 2 ? '/' : '.' : 'q';
            if (slash && l % 2) { b[65] = '.'; b[66] = '/'; if (l > 2) b[67] = '/'; for (int i = 67; i < m; i++) b[i] = '/'; }
            b[m++] = 'a'; b[m++] = '\n';
            fhex("b", 32, 0, h); m += sprintf(b + m, "%s b\n", h);
            mc_reset_trace(); mc_op("name of %d characters", l + 1); check(b, m, 0, 0, slash ? "long path" : "long name");
            /* what follows a line that is too long is not a line of its own */
            mc_n_execs++;
        }
    }
    /* 3: lists that cannot be read */
    MC_CASE("unreadable lists") {
        mc_op("missing list"); RUN(NULL, "-cnolist"); if (!R.rc) mc_fail("no-list", "success without a list");
        mc_op("missing list"); RUN(NULL, "-c", "nolist"); if (!R.rc) mc_fail("no-list", "success without a list");
        mc_op("list is a directory"); RUN(NULL, "-cdir"); if (!R.rc) mc_fail("dir-list", "success although the list is a directory");
        mc_op("list is a directory"); RUN(NULL, "-c", "dir"); if (!R.rc) mc_fail("dir-list", "success although the list is a directory");
        mc_op("list is a directory"); RUN("dir", "-c"); if (!R.rc) mc_fail("dir-list", "success although the list is a directory");
        mc_op("digest of a directory from stdin"); RUN("dir", "--"); if (!R.rc) mc_fail("dir-stdin", "success although the input cannot be read");
        mc_op("unknown option"); RUN(NULL, "-Z", "a"); if (!R.rc) mc_fail("option", "unknown option accepted");
    }
    /* 4: generating */
    for (int i = -1; i < 10; i++) MC_CASE("generate %s", i < 0 ? "nothing" : NAMES[i]) for (int j = -1; j < 10; j++) for (int o = 0; o < 2; o++) { mc_reset_trace(); generate(i, j, o); }
    MC_CASE("from stdin") for (int i = 0; i < 6; i++) for (int o = 0; o < 2; o++) { mc_reset_trace(); on_stdin(NAMES[i], o); }
    MC_CASE("full device") {
        out_to = "/dev/full";
        mc_op("output to a full device");
        RUN(NULL, "--", "a"); if (!R.rc) { out_to = NULL; mc_fail("full", "success although nothing could be printed"); }
        RUN("a", "--"); if (!R.rc) { out_to = NULL; mc_fail("full", "success although nothing could be printed"); }
        out_to = NULL;
    }
    /* lengths, and how the system hands the bytes over */
    for (int s = 0; s < 16; s++) MC_CASE("lengths %d mod 16", s) {
        for (int l = s; l <= (mc_thorough ? 600 : 200); l += 16) {
            put("f", big, l);
            mc_reset_trace(); mc_op("file of %d bytes", l);
            for (int o = 0; o < 2; o++) on_stdin("f", o);
            mc_n_execs++;
        }
        for (int l = 262144 - 8 + s; l <= 262144 + 40; l += 16) { put("f", big, l); mc_reset_trace(); mc_op("file of %d bytes", l); on_stdin("f", 0); }
    }
    for (int c1 = 1; c1 <= 70; c1++) MC_CASE("pieces of %d", c1) {
        put("f", big, 130);
        for (int c2 = 1; c2 <= 70; c2 += mc_thorough ? 1 : 3) {
            memset(&RD, 0, sizeof RD);
            RD.chunk[0] = c1; RD.chunk[1] = c2; RD.chunk[2] = 64; RD.n = 3;
            mc_reset_trace(); mc_op("reads of %d, %d, 64.. bytes", c1, c2); on_stdin("f", c2 & 1); mc_n_execs++;
        }
        memset(&RD, 0, sizeof RD);
    }
    MC_CASE("failing reads") {
        put("f", big, 130); fhex("f", 32, 0, h);
        char l[200]; int m = sprintf(l, "%s f\n", h); put("list", l, m);
        for (int k = 1; k < 6; k++) for (int e = 0; e < 2; e++) {
            memset(&RD, 0, sizeof RD);
            RD.chunk[0] = 50; RD.n = 1; RD.fail_at = k; RD.fail_errno = e ? EIO : EISDIR;
            mc_reset_trace(); mc_op("read %d fails", k);
            RUN(NULL, "-clist"); if ((R.rc == 0) != (k > 4)) mc_fail("read-fails:check", "status %d although read %d of 4 failed", R.rc, k);
            RUN("f", "--"); if ((R.rc == 0) != (k > 4)) mc_fail("read-fails:stdin", "status %d although read %d of 4 failed", R.rc, k);
            RUN(NULL, "--", "f"); if ((R.rc == 0) != (k > 4)) mc_fail("read-fails:generate", "status %d although read %d of 4 failed", R.rc, k);
            if (R.rc && R.nout) mc_fail("read-fails:output", "a digest is printed although the file could not be read");
        }
        memset(&RD, 0, sizeof RD);
    }
    /* how many fail does not matter */
    static const int MANY[] = { 1, 2, 15, 16, 17, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 767, 768, 1023, 1024, 1025, 4096, 65535, 65536, 65537, 131072 };
    for (unsigned k = 0; k < sizeof MANY / sizeof *MANY; k++) for (int kind = 0; kind < 3; kind++) MC_CASE("%d failing lines of kind %d", MANY[k], kind) {
        int nn = MANY[k];
        if (nn > 1100 && !mc_thorough && (kind != 1 || nn != 65536)) continue;
        char l[200]; int m; fhex("e", 32, 0, h); int gm;
        char gl[200]; gm = sprintf(gl, "%s e\n", h);
        if (kind == 0) { h[3] = h[3] == '0' ? '1' : '0'; m = sprintf(l, "%s e\n", h); } else if (kind == 1) m = sprintf(l, "%s missing\n", h); else m = sprintf(l, "%s\n", h);
        char *b = malloc((size_t)(nn + 2) * 100);
        for (int good = 0; good < 3; good++) {
            size_t z = 0;
            if (good == 1) { memcpy(b, gl, gm); z = gm; }
            for (int i = 0; i < nn; i++) { memcpy(b + z, l, m); z += m; }
            if (good == 2) { memcpy(b + z, gl, gm); z += gm; }
            put("list", b, z);
            mc_reset_trace(); mc_op("%d lines like %s, good line %s", nn, vis(l, m), good == 0 ? "nowhere" : good == 1 ? "first" : "last");
            RUN(NULL, "-clist"); if (!R.rc) mc_fail("accepted:many", "success although %d lines fail", nn);
            RUN("list", "-v", "-c"); if (!R.rc) mc_fail("accepted:many", "success although %d lines fail", nn);
            mc_n_execs++;
        }
        for (int i = 0; i < nn; i++) memcpy(b + (size_t)i * gm, gl, gm);
        put("list", b, (size_t)nn * gm);
        mc_reset_trace(); mc_op("%d good lines", nn);
        RUN(NULL, "-clist"); if (R.rc) mc_fail("refused:many", "failure although %d lines are good", nn);
        if (nn <= 1100 && kind == 1) {
            static char *av[1200]; int na = 0; av[na++] = (char *)TOOL;
            for (int i = 0; i < nn; i++) av[na++] = "missing";
            av[na] = NULL;
            mc_reset_trace(); mc_op("%d operands that do not exist", nn);
            run(av, NULL); if (!R.rc) mc_fail("generate:many", "success although %d files are missing", nn);
#ifdef VARIANT_GOST12
            size_t z = 0; for (int i = 0; i < nn; i++) z += sprintf(b + z, "missing\n");
            put("names", b, z); mc_op("the same with -x");
            RUN("names", "-x"); if (!R.rc) mc_fail("generate:many", "success although %d files are missing", nn);
#endif
        }
        free(b);
    }
    /* a changed file is noticed */
    for (int s = 0; s < 9; s++) MC_CASE("changed file, byte %d", s) {
        fhex("a", 32, 0, h);
        char l[200], c[10]; int m = sprintf(l, "%s f\n", h); put("list", l, m);
        for (int bit = 0; bit < 8; bit++) {
            memcpy(c, "message a", 9); c[s] ^= 1 << bit; put("f", c, 9);
            mc_reset_trace(); mc_op("byte %d bit %d of the file changed", s, bit);
            RUN(NULL, "-clist"); if (!R.rc) mc_fail("changed-file", "a changed file passes");
        }
        put("f", "message a", s); RUN(NULL, "-clist"); if (!R.rc) mc_fail("changed-file", "a shortened file passes");
        put("f", "message a", 9); RUN(NULL, "-clist"); if (R.rc) mc_fail("same-file", "an unchanged file fails");
    }
#ifdef VARIANT_GOST12
    /* 5: names from stdin */
    static const char *XN[] = { "a", "b", "x y", " z", "missing", "dir", "", "a\r", "\r" };
    for (int i = 0; i < 9; i++) MC_CASE("-x beginning with %s", XN[i]) for (int j = -1; j < 9; j++) for (int k = -1; k < 9; k++) for (int last = 0; last < 2; last++) for (int lo = 0; lo < 2; lo++) {
        char in[100], want[600] = ""; int m = 0, w = 0, fail = 0;
        const int a[3] = { i, j, k };
        if (j < 0 && k >= 0) continue;
        for (int q = 0; q < 3; q++) {
            if (a[q] < 0) continue;
            if (m) in[m++] = '\n';
            m += sprintf(in + m, "%s", XN[a[q]]);
            char nm[20]; strcpy(nm, XN[a[q]]); if (strchr(nm, '\r')) *strchr(nm, '\r') = 0;
            if (!*nm) continue;
            if (fhex(nm, lo ? 64 : 32, 0, h)) w += sprintf(want + w, "%s %s\n", h, nm); else fail = 1;
        }
        if (!last) in[m++] = '\n';
        put("names", in, m);
        mc_reset_trace(); mc_op("-x with names %s", vis(in, m));
        if (lo) RUN("names", "-l", "-x"); else RUN("names", "-x");
        /* an empty line names nothing; whether that is an error is not settled */
        int blank = i == 6 || i == 8 || j == 6 || j == 8 || k == 6 || k == 8;
        if (R.rc == 0 && fail) mc_fail("x:accepted", "-x succeeds although a file cannot be read");
        if (R.rc != 0 && !fail && !blank) mc_fail("x:refused", "-x fails on readable files");
        if (strcmp(R.out, want)) mc_fail("x:output", "-x prints \"%.200s\", not \"%.200s\"", R.out, want);
        mc_n_execs++;
    }
#endif
    r = mc_finish();
    char cmd[100];
    if (chdir("/")) {}
    snprintf(cmd, sizeof cmd, "rm -rf /tmp/p20-%d", (int)getpid());
    if (strlen(DIR_) > 9) system(cmd);
    return r;
}
