/* C22: working directory, paths, errno, locale and signals.
 * seq:  a program of transactions runs next to plain *at() calls on a twin
 *       directory tree; results, errno, working directory, locale objects and
 *       signal routing compared during executions, at restarts, after commit
 *       and after abort.
 * conc: threads change and query the working directory and locale; every
 *       observation has to be the one of the latest committed change. */
#include "vf_tx.h"
#include <locale.h>
#include <langinfo.h>
#include <signal.h>
#include <limits.h>
#include <sys/wait.h>
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-libc.h"
#include "picotm/errno.h"
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/locale.h"
#include "picotm/locale-tm.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include "picotm/sys/stat.h"
#include "picotm/sys/stat-tm.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include "picotm/time.h"

static struct rng R;
static char root[PATH_MAX / 4], tbase[PATH_MAX / 3], rbase[PATH_MAX / 3];
static char trace[2400]; static size_t tlen;
static uint64_t H;
static void tr(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    if (tlen < sizeof(trace) - 200) tlen += vsnprintf(trace + tlen, sizeof(trace) - tlen, fmt, ap);
    if (tlen >= sizeof(trace)) tlen = sizeof(trace) - 1;
    va_end(ap);
}

/* ---- twin trees ---- */
static int rcwd = -1, rcwd0 = -1;            /* directory of the reference */
static void must(int r, const char *w) { if (r < 0) { perror(w); exit(2); } }
static void rmtree(int dfd, const char *name, int lvl);
#include <dirent.h>
static void rmtree(int dfd, const char *name, int lvl)
{
    int fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
    if (fd >= 0) {
        fchmod(fd, 0700);
        DIR *d = fdopendir(fd); struct dirent *e;
        while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) rmtree(dirfd(d), e->d_name, lvl + 1);
        closedir(d);
        unlinkat(dfd, name, AT_REMOVEDIR);
    } else unlinkat(dfd, name, 0);
}
static void mktree(const char *base)
{
    static const char *const dirs[] = { "a", "a/b", "a/b/c", "d" };
    int fd = open(base, O_RDONLY | O_DIRECTORY); must(fd, base);
    for (int i = 0; i < 4; ++i) must(mkdirat(fd, dirs[i], 0755), dirs[i]);
    static const char *const files[] = { "f", "a/f", "a/b/g", "d/h" };
    for (int i = 0; i < 4; ++i) {
        int f = openat(fd, files[i], O_CREAT | O_RDWR, 0644); must(f, files[i]);
        if (write(f, "0123456789", i + 3) < 0) exit(2);
        close(f);
    }
    static const char *const links[][2] = { {"a", "l"}, {"f", "lf"}, {"nope", "ld"}, {"../d", "a/ld"}, {"b/g", "a/lg"}, {"a/b/c", "lc"}, {"loop", "loop"} };
    for (int i = 0; i < 7; ++i) must(symlinkat(links[i][0], fd, links[i][1]), "symlink");
    close(fd);
}
static void relpath(char *o, const char *abs, const char *base)
{
    size_t n = strlen(base);
    if (strncmp(abs, base, n) || (abs[n] && abs[n] != '/')) snprintf(o, PATH_MAX, "!%s", abs);
    else snprintf(o, PATH_MAX, "%s", abs[n] ? abs + n + 1 : ".");
}
static char rtop[PATH_MAX / 3], ttop[PATH_MAX / 3];
static void rcwd_path(char *o) { char l[40], b[PATH_MAX]; snprintf(l, 40, "/proc/self/fd/%d", rcwd); ssize_t n = readlink(l, b, sizeof(b) - 1); if (n < 0) n = 0; b[n] = 0; relpath(o, b, rtop); }
static void tcwd_path(char *o) { char b[PATH_MAX]; if (!getcwd(b, sizeof(b))) { snprintf(o, PATH_MAX, "!errno %d", errno); return; } relpath(o, b, ttop); }
static void cmp_cwd(const char *sig)
{
    char a[PATH_MAX], b[PATH_MAX]; int e = errno; tcwd_path(a); rcwd_path(b); errno = e;
    if (strcmp(a, b)) vf_viol(sig, "working directory is '%s', expected '%s'; ops:%s", a, b, trace);
    vf_count("cwd-checks", 1);
}
static void set_rcwd(int fd) { if (rcwd >= 0) close(rcwd); rcwd = fd; }

/* ---- locale ---- */
#define NCAT 7
static const int cats[NCAT] = { LC_CTYPE, LC_NUMERIC, LC_TIME, LC_COLLATE, LC_MONETARY, LC_MESSAGES, LC_ALL };
static const char *lnames[6] = { "C", "C.UTF-8", "POSIX", "", "en_US.UTF-8", "no_SUCH.locale" };
static char lcur[NCAT][400], lcur0[NCAT][400];    /* expected names */
static bool have_en;
static void lread(char l[NCAT][400]) { for (int i = 0; i < NCAT; ++i) snprintf(l[i], 400, "%s", setlocale(cats[i], NULL)); }
static void cmp_locale(const char *sig, char l[NCAT][400])
{
    char now[NCAT][400]; int e = errno; lread(now); errno = e;
    for (int i = 0; i < NCAT; ++i) if (strcmp(now[i], l[i])) { vf_viol(sig, "locale category %d is '%s', expected '%s'; ops:%s", i, now[i], l[i], trace); return; }
    vf_count("locale-checks", 1);
}
#define NL 6
static struct lobj { locale_t l; char cs[40], cur[20]; bool used, freed, mine; } L[NL], L0[NL];
static locale_t ucur, ucur0;
static void ldesc(locale_t l, char *cs, char *cur)
{
    snprintf(cs, 40, "%s", nl_langinfo_l(CODESET, l));
    snprintf(cur, 20, "%s", nl_langinfo_l(CRNCYSTR, l));
}
static void cmp_objs(const char *sig, struct lobj *o)
{
    int e = errno;
    for (int i = 0; i < NL; ++i) if (o[i].used && !o[i].freed) {
        char cs[40], cur[20]; ldesc(o[i].l, cs, cur);
        if (strcmp(cs, o[i].cs) || strcmp(cur, o[i].cur)) { vf_viol(sig, "locale object %d has codeset '%s' and currency '%s', expected '%s' and '%s'; ops:%s", i, cs, cur, o[i].cs, o[i].cur, trace); return; }
        vf_count("locale-object-checks", 1);
    }
    errno = e;
}

/* ---- signals ---- */
static const int sigs[3] = { SIGUSR1, SIGUSR2, SIGFPE };
static volatile sig_atomic_t hits[3], origs[3];
static int sstate[3];      /* 0 not acquired, 1 acquired, 2 recoverable, 3 non-recoverable */
static void nontx(int s, siginfo_t *i, void *c) { for (int k = 0; k < 3; ++k) if (sigs[k] == s) ++hits[k]; }
static void orig(int s) { for (int k = 0; k < 3; ++k) if (sigs[k] == s) ++origs[k]; }

/* ---- TM data ---- */
static long tmv[4], tmv_m[4], tmv0[4];

/* ---- state of the running transaction ---- */
static volatile int want_conf, want_giveup, want_irrev, execs;
static volatile bool any_errno;          /* the C library does not set errno each time newlocale() fails */
static volatile int expect_err;          /* errno; -2 general error, -5 give-up, -100-k signal */
static volatile bool rec_irrev, recovered, errno_known;
static int errno0;
static bool fdopened; static int myfd = -1, myfd_ref = -1; static bool myfd_dir;
static struct gbuf { char *p; size_t n; bool tx; char sav[600]; } G[16]; static int ng;
static char *owned[16]; static int nowned;     /* results to be freed after commit */
static int nops;

static void gfree(void) { for (int i = 0; i < ng; ++i) free(G[i].p); ng = 0; }
static char *gnew(size_t n, bool tx)
{
    struct gbuf *g = &G[ng++]; g->p = malloc(n ? n : 1); g->n = n; g->tx = tx;
    for (size_t i = 0; i < n; ++i) g->p[i] = rnd(&R);
    memcpy(g->sav, g->p, n < 600 ? n : 600);
    return g->p;
}
static void cmp_bufs(const char *sig)
{
    for (int i = 0; i < ng; ++i) if (G[i].tx && memcmp(G[i].p, G[i].sav, G[i].n < 600 ? G[i].n : 600)) vf_viol(sig, "an output buffer of %zu bytes was not restored; ops:%s", G[i].n, trace);
}
static void rel(char *o, bool *abs)
{
    static const char *const names[] = { "a", "b", "c", "d", "f", "g", "h", "l", "lf", "ld", "lg", "lc", "loop", ".", "n1", "n2" };
    char cw[PATH_MAX]; rcwd_path(cw);
    int up = 0; if (!rndp(&R, 70)) for (char *p = cw; *p; ++p) up += *p == '/';   /* base is 3 below the top */
    *o = 0; *abs = rndp(&R, 25);
    if (rndp(&R, 3)) { *abs = false; return; }
    if (*abs) strcpy(o, "1/2/3/");
    int n = 1 + rndn(&R, 3);
    for (int i = 0; i < n; ++i) {
        if (!*abs && up > 1 && rndp(&R, 60)) { strcat(o, ".."); --up; }
        else strcat(o, names[rndn(&R, 16)]);
        if (i + 1 < n || rndp(&R, 8)) strcat(o, rndp(&R, 5) ? "//" : "/");
    }
}
/* the path for both worlds: the transactional one in *t, the reference one in *r */
static char pt[PATH_MAX], pr[PATH_MAX], pt2[PATH_MAX], pr2[PATH_MAX];
static void mkpath(char *t, char *r)
{
    char o[200]; bool abs; rel(o, &abs);
    if (abs) { snprintf(t, PATH_MAX, "%s/%s", ttop, o); snprintf(r, PATH_MAX, "%s/%s", rtop, o); }
    else { strcpy(t, o); strcpy(r, o); }
}
static void cmp_stat(const char *f, const struct stat *a, const struct stat *b)
{
    if (a->st_mode != b->st_mode || a->st_nlink != b->st_nlink || (!S_ISDIR(a->st_mode) && a->st_size != b->st_size))
        vf_viol("stat-result", "%s: mode %o links %lu size %ld, expected %o %lu %ld; ops:%s", f, a->st_mode, (long)a->st_nlink, (long)a->st_size, b->st_mode, (long)b->st_nlink, (long)b->st_size, trace);
}
static bool expect_(long r)
{
    expect_err = r < 0 ? errno : 0; if (expect_err) tr("=E%d", expect_err);
    if (expect_err && rndp(&R, 95)) { tr("-skipped"); expect_err = 0; return false; }   /* most failing operations are left out */
    return true;
}
#define expect(r) if (!expect_(r)) break
static void got(const char *f) { if (expect_err) { vf_viol("missed-error", "%s returned, but the plain call fails with errno %d; ops:%s", f, expect_err, trace); expect_err = 0; } }
/* from the first transactional call on, errno has to be restored by an abort */
static void pre(void) { if (!errno_known) { errno = errno0; errno_known = true; } }
#define TXM(f, ...) (pre(), tm ? f##_tm(__VA_ARGS__) : f##_tx(__VA_ARGS__))
static void path_op(int k)
{
    bool tm = rndp(&R, 40);
    mode_t mode = rndp(&R, 50) ? 0700 : 0711;
    mkpath(pt, pr);
    struct stat rs, *ts; long r, t;
    switch (k) {
    case 0: case 1: case 2: case 3: {        /* chdir */
        tr(" chdir%s(%s)", tm ? "_tm" : "", pr);
        int fd = openat(rcwd, pr, O_PATH | O_DIRECTORY);
        expect(fd); if (fd >= 0) { int d = openat(fd, ".", O_RDONLY | O_DIRECTORY); close(fd); set_rcwd(d); }
        t = TXM(chdir, pt); got("chdir");
        if (t) vf_viol("ret:chdir", "chdir returned %ld; ops:%s", t, trace);
        cmp_cwd("cwd-in-transaction"); vf_count("chdir", 1); break; }
    case 4: case 5: {
        tr(" stat%s(%s)", tm ? "_tm" : "", pr);
        expect(fstatat(rcwd, pr, &rs, 0)); if (ng > 10) break;
        ts = (void*)gnew(sizeof(*ts), !tm); TXM(stat, pt, ts); got("stat");
        struct stat s; if (tm) s = *ts; else load_tx(ts, &s, sizeof(s));
        cmp_stat("stat", &s, &rs); vf_count("stat", 1); break; }
    case 6: case 7: {
        tr(" lstat%s(%s)", tm ? "_tm" : "", pr);
        expect(fstatat(rcwd, pr, &rs, AT_SYMLINK_NOFOLLOW)); if (ng > 10) break;
        ts = (void*)gnew(sizeof(*ts), !tm); TXM(lstat, pt, ts); got("lstat");
        struct stat s; if (tm) s = *ts; else load_tx(ts, &s, sizeof(s));
        cmp_stat("lstat", &s, &rs); vf_count("lstat", 1); break; }
    case 8: tr(" mkdir%s(%s)", tm ? "_tm" : "", pr); expect(mkdirat(rcwd, pr, mode)); t = TXM(mkdir, pt, mode); got("mkdir"); vf_count("mkdir", 1); break;
    case 9: tr(" mkfifo%s(%s)", tm ? "_tm" : "", pr); expect(mkfifoat(rcwd, pr, mode)); t = TXM(mkfifo, pt, mode); got("mkfifo"); vf_count("mkfifo", 1); break;
    case 10: tr(" mknod%s(%s)", tm ? "_tm" : "", pr); expect(mknodat(rcwd, pr, S_IFREG | mode, 0)); t = TXM(mknod, pt, S_IFREG | mode, 0); got("mknod"); vf_count("mknod", 1); break;
    case 11: tr(" unlink%s(%s)", tm ? "_tm" : "", pr); expect(unlinkat(rcwd, pr, 0)); t = TXM(unlink, pt); got("unlink"); vf_count("unlink", 1); break;
    case 12:
        mkpath(pt2, pr2);
        tr(" link%s(%s,%s)", tm ? "_tm" : "", pr, pr2);
        /* whether link() follows a symbolic link is left open by POSIX */
        if (!fstatat(rcwd, pr, &rs, AT_SYMLINK_NOFOLLOW) && S_ISLNK(rs.st_mode)) { tr("-skipped"); break; }
        { char o[PATH_MAX]; strcpy(o, pr); char *e = o + strlen(o); if (e > o && e[-1] == '/') { tr("-skipped"); break; } }
        expect(linkat(rcwd, pr, rcwd, pr2, 0)); t = TXM(link, pt, pt2); got("link"); vf_count("link", 1); break;
    case 13: tr(" chmod%s(%s)", tm ? "_tm" : "", pr); expect(fchmodat(rcwd, pr, mode, 0)); t = TXM(chmod, pt, mode); got("chmod"); vf_count("chmod", 1); break;
    case 14: {                              /* open a file, look at it, close it */
        if (fdopened) break;
        tr(" open%s(%s)", tm ? "_tm" : "", pr);
        if (!fstatat(rcwd, pr, &rs, 0) && S_ISFIFO(rs.st_mode)) { tr("-fifo"); break; }
        int fd = openat(rcwd, pr, O_RDONLY); expect(fd);
        if (fd >= 0) { fstat(fd, &rs); close(fd); }
        fdopened = true;
        pre(); int f = tm ? open_tm(pt, O_RDONLY) : open_tx(pt, O_RDONLY); got("open");
        struct stat s; fstat_tm(f, &s); cmp_stat("fstat after open", &s, &rs); vf_count("open", 1);
        close_tx(f); break; }
    case 15: {
        tr(" mkstemp%s(%s)", tm ? "_tm" : "", pr);
        /* names differ between the worlds, so the file is removed at once */
        if (fdopened) break;
        strcat(pt, "sXXXXXX"); strcat(pr, "sXXXXXX");
        char *b = NULL; { char *e = strrchr(pr, '/'); (void)e; }
        int dfd = -1; { char d[PATH_MAX]; strcpy(d, pr); char *e = strrchr(d, '/'); if (e) e[1] = 0; else strcpy(d, "."); dfd = openat(rcwd, d, O_RDONLY | O_DIRECTORY); }
        expect(dfd); if (dfd >= 0) close(dfd);
        if (strlen(pt) > 590 || ng > 10) { expect_err = 0; break; }
        b = gnew(strlen(pt) + 1, !tm); strcpy(b, pt); strcpy(G[ng - 1].sav, pt);
        fdopened = true;
        int f = TXM(mkstemp, b); got("mkstemp");
        char nm[PATH_MAX]; if (tm) strcpy(nm, b); else load_tx(b, nm, strlen(pt) + 1);
        if (strncmp(nm, pt, strlen(pt) - 6) || !strcmp(nm + strlen(nm) - 6, "XXXXXX")) vf_viol("mkstemp-name", "mkstemp filled in '%s' for '%s'; ops:%s", nm, pt, trace);
        struct stat s, s2; fstat_tm(f, &s);
        if (stat(nm, &s2) || s.st_ino != s2.st_ino || (s.st_mode & 0777) != 0600) vf_viol("mkstemp-file", "mkstemp created something other than '%s'; ops:%s", nm, trace);
        unlink_tm(nm); close_tx(f); vf_count("mkstemp", 1); break; }
    case 16: {
        strcat(pt, "tXXXXXX"); strcat(pr, "tXXXXXX");
        tr(" mkdtemp%s(%s)", tm ? "_tm" : "", pr);
        char d[PATH_MAX]; strcpy(d, pr); char *e = strrchr(d, '/'); if (e) e[1] = 0; else strcpy(d, ".");
        int dfd = openat(rcwd, d, O_RDONLY | O_DIRECTORY); expect(dfd); if (dfd >= 0) close(dfd);
        if (strlen(pt) > 590 || ng > 10) { expect_err = 0; break; }
        char *b = gnew(strlen(pt) + 1, !tm); strcpy(b, pt); strcpy(G[ng - 1].sav, pt);
        char *x = TXM(mkdtemp, b); got("mkdtemp");
        if (x != b) vf_viol("mkdtemp-name", "mkdtemp returned another pointer; ops:%s", trace);
        char nm[PATH_MAX]; if (tm) strcpy(nm, b); else load_tx(b, nm, strlen(pt) + 1);
        struct stat s;
        if (strncmp(nm, pt, strlen(pt) - 6) || stat(nm, &s) || !S_ISDIR(s.st_mode) || (s.st_mode & 0777) != 0700) vf_viol("mkdtemp-name", "mkdtemp made '%s' of '%s'; ops:%s", nm, pt, trace);
        else rmdir(nm);
        vf_count("mkdtemp", 1); break; }
    }
    (void)r; (void)t;
}
static void cwd_op(void)
{
    bool tm = rndp(&R, 40);
    char a[PATH_MAX], c[PATH_MAX], full[PATH_MAX];
    rcwd_path(a); snprintf(full, sizeof(full), "%s%s%s", ttop, strcmp(a, ".") ? "/" : "", strcmp(a, ".") ? a : "");
    int k = rndn(&R, 10); size_t need = strlen(full) + 1;
    if (k < 2) {                                  /* library allocates */
        if (nowned >= 16) return;
        size_t n = rndp(&R, 50) ? 0 : need + rndn(&R, 20);
        tr(" getcwd%s(NULL,%zu)", tm ? "_tm" : "", n);
        char *p = TXM(getcwd, NULL, n);
        if (!p || strcmp(p, full)) vf_viol("getcwd-result", "getcwd(NULL) returned '%s', expected '%s'; ops:%s", p ? p : "NULL", full, trace);
        if (p) owned[nowned++] = p;
        vf_count("getcwd-allocated", 1);
    } else if (ng < 12) {
        size_t n = k < 4 ? need : k < 5 && need > 2 && rndp(&R, 30) ? 1 + rndn(&R, need - 1) : need + rndn(&R, 100);
        tr(" getcwd%s(buf,need%+ld)", tm ? "_tm" : "", (long)n - (long)need);
        char *b = gnew(n, !tm);
        expect_err = n < need ? ERANGE : 0;
        char *p = TXM(getcwd, b, n); got("getcwd");
        if (tm) snprintf(c, sizeof(c), "%s", b); else load_tx(b, c, need);
        if (p != b || strcmp(c, full)) vf_viol("getcwd-result", "getcwd returned '%s', expected '%s'; ops:%s", c, full, trace);
        vf_count("getcwd", 1);
    }
}
static void fchdir_op(void)
{
    if (fdopened || myfd < 0 || (!myfd_dir && rndp(&R, 80))) return;
    tr(" fchdir(%s)", myfd_dir ? "dir" : "file");
    fdopened = true;
    expect_err = myfd_dir ? 0 : ENOTDIR;
    if (myfd_dir) set_rcwd(dup(myfd_ref));
    int t = (pre(), fchdir_tx(myfd)); got("fchdir");
    if (t) vf_viol("ret:fchdir", "fchdir returned %d; ops:%s", t, trace);
    cmp_cwd("cwd-in-transaction"); vf_count("fchdir", 1);
}
static void errno_op(void)
{
    int v = 1 + rndn(&R, 130);
    tr(" errno=%d", v);
    errno_tx = v;
    if (errno_tx != v || errno != v) vf_viol("errno-value", "errno_tx is %d after writing %d; ops:%s", errno_tx, v, trace);
    errno_known = true;
    vf_count("errno", 1);
}
static void locale_op(void)
{
    bool tm = rndp(&R, 40);
    int c = rndn(&R, NCAT), n;
    do n = rndn(&R, 6); while (n == 3 || (n == 4 && !have_en));
    switch (rndn(&R, 8)) {
    case 0: case 1: case 2: {
        tr(" setlocale%s(%d,%s)", tm ? "_tm" : "", c, lnames[n]);
        expect_err = n == 5 ? -2 : 0; if (expect_err && rndp(&R, 85)) { expect_err = 0; break; }
        static char nm[40]; strcpy(nm, lnames[n]);
        char *r = TXM(setlocale, cats[c], nm); got("setlocale");
        char now[NCAT][400]; lread(now);
        bool all = cats[c] == LC_ALL;
        const char *want = !strcmp(lnames[n], "POSIX") ? "C" : lnames[n];
        for (int i = 0; i < NCAT - 1; ++i) if (strcmp(now[i], all || i == c ? want : lcur[i])) { vf_viol("setlocale", "category %d is '%s' after setlocale(%d,%s), previously '%s'; ops:%s", i, now[i], c, lnames[n], lcur[i], trace); break; }
        if (r && strcmp(r, now[c])) vf_viol("ret:setlocale", "setlocale returned '%s' for '%s'; ops:%s", r, lnames[n], trace);
        if (!r) vf_viol("ret:setlocale", "setlocale returned NULL; ops:%s", trace);
        memcpy(lcur, now, sizeof(lcur)); vf_count("setlocale", 1); break; }
    case 3: {
        tr(" setlocale%s(%d,NULL)", tm ? "_tm" : "", c);
        char *r = TXM(setlocale, cats[c], NULL);
        if (!r || strcmp(r, lcur[c])) vf_viol("ret:setlocale", "setlocale(NULL) returned '%s', expected '%s'; ops:%s", r ? r : "NULL", lcur[c], trace);
        vf_count("setlocale-query", 1); break; }
    case 4: {
        tr(" localeconv");
        struct lconv *l = localeconv_tx(), *m = localeconv();
        if (!l || strcmp(l->decimal_point, m->decimal_point) || strcmp(l->currency_symbol, m->currency_symbol)) vf_viol("localeconv", "localeconv_tx differs; ops:%s", trace);
        vf_count("localeconv", 1); break; }
    default: {
        int i = rndn(&R, NL), j = rndn(&R, NL), k = rndn(&R, 10);
        static char nm[40];
        if (L[j].used || L[j].freed) j = -1;
        if (k < 3 && L[i].used && !L[i].freed && j >= 0) {
            tr(" duplocale(%d)->%d", i, j);
            locale_t r = (pre(), duplocale_tx(L[i].l)); L[j] = L[i]; L[j].l = r; L[j].mine = true;
            char cs[40], cur[20]; ldesc(r, cs, cur); if (strcmp(cs, L[i].cs) || strcmp(cur, L[i].cur)) vf_viol("duplocale", "copy differs; ops:%s", trace);
            vf_count("duplocale", 1);
        } else if (k < 6) {
            static const int masks[4] = { LC_ALL_MASK, LC_CTYPE_MASK, LC_MONETARY_MASK, LC_CTYPE_MASK | LC_TIME_MASK };
            int m = masks[rndn(&R, 4)];
            if (n == 5 && rndp(&R, 90)) n = 0;
            strcpy(nm, lnames[n]);
            bool base = L[i].used && !L[i].freed && L[i].l != ucur && rndp(&R, 60);
            if (base && m == LC_ALL_MASK && (n == 0 || n == 2)) m = LC_CTYPE_MASK;   /* the C library loses the base object here */
            if (!base && j < 0) break;
            tr(" newlocale%s(%x,%s,%d)->%d", tm ? "_tm" : "", m, nm, base ? i : -1, base ? i : j);
            locale_t rb = base ? duplocale(L[i].l) : (locale_t)0, rr = newlocale(m, nm, rb);
            expect_err = rr ? 0 : errno; any_errno = !rr; if (!rr && !expect_err) expect_err = ENOENT;
            char wcs[40] = "", wcur[20] = ""; if (rr) { ldesc(rr, wcs, wcur); freelocale(rr); } else if (rb) freelocale(rb);
            locale_t r = TXM(newlocale, m, nm, base ? L[i].l : (locale_t)0); got("newlocale"); any_errno = false;
            int o = base ? i : j;
            L[o] = (struct lobj){ r, "", "", true, false, true }; strcpy(L[o].cs, wcs); strcpy(L[o].cur, wcur);
            if (base) vf_count("newlocale-base", 1);
            vf_count("newlocale", 1);
        } else if (k < 8 && L[i].used && !L[i].freed && L[i].l != ucur) {
            tr(" freelocale(%d)", i);
            freelocale_tx(L[i].l); L[i].freed = true; vf_count("freelocale", 1);
        } else {
            locale_t nl = rndp(&R, 20) ? LC_GLOBAL_LOCALE : rndp(&R, 20) ? (locale_t)0 : L[i].used && !L[i].freed ? L[i].l : (locale_t)0;
            tr(" uselocale(%d)", nl ? nl == LC_GLOBAL_LOCALE ? -1 : i : -2);
            locale_t o = (pre(), uselocale_tx(nl));
            if (o != ucur) vf_viol("ret:uselocale", "uselocale returned another object; ops:%s", trace);
            if (nl) ucur = nl;
            if (uselocale((locale_t)0) != ucur) vf_viol("uselocale", "the thread's locale is not the one requested; ops:%s", trace);
            vf_count("uselocale", 1);
        }
        cmp_objs("locale-object-in-transaction", L);
        break; }
    }
}
static void signal_op(void)
{
    int k = rndn(&R, 3); int h = hits[k], o = origs[k];
    if (sstate[k] == 3 || (sstate[k] == 2 && rndp(&R, 80))) return;          /* ends without a rollback */
    tr(" raise(%d:%d)", k, sstate[k]);
    expect_err = sstate[k] >= 2 ? -100 - k : 0;
    pthread_kill(pthread_self(), sigs[k]);
    got("the signal handler");
    if (sstate[k] == 1 && hits[k] != h + 1) vf_viol("signal-handler", "signal %d was not delivered to the program's handler; ops:%s", sigs[k], trace);
    if (sstate[k] == 0 && origs[k] != o + 1) vf_viol("signal-handler", "signal %d was not delivered to the original handler; ops:%s", sigs[k], trace);
    vf_count("signal-outside-recovery", 1);
}
/* operations which leave another errno behind although they report no error */
static void onalrm(int s) { }
static void time_op(void)
{
    static char z1[] = "TZ=Foo/Bar", z2[] = "TZ=Foo/Baz", ov[] = "99999999999999999999999999";
    static bool flip;
    static struct tm tmv1;      /* an abort writes to it: not on the stack */
    static char fmt[] = "%Z %a %d.%m.%Y %H";
    tmv1 = (struct tm){ .tm_year = 100 + rndn(&R, 50), .tm_mon = rndn(&R, 12), .tm_mday = 1 + rndn(&R, 28), .tm_hour = rndn(&R, 24), .tm_wday = rndn(&R, 7) };
    struct tm tmv2 = tmv1; char ref[80] = "", *o; size_t n = rndp(&R, 80) ? 70 : 5, r;
    int k = rndn(&R, 21);
    putenv((flip = !flip) ? z1 : z2);          /* no such time zones: the C library looks for a file */
    if (k < 14) {
        bool l = k & 1; locale_t loc = l ? uselocale((locale_t)0) : 0;
        if (loc == LC_GLOBAL_LOCALE) l = false;
        tr(" strftime%s(%zu)", l ? "_l" : "", n);
        o = gnew(n, true); pre();
        r = l ? strftime_l_tx(o, n, fmt, &tmv1, loc) : strftime_tx(o, n, fmt, &tmv1);
        int e = errno;
        size_t w = l ? strftime_l(ref, n, fmt, &tmv2, loc) : strftime(ref, n, fmt, &tmv2);
        errno = e;
        if (r != w || (w && strcmp(o, ref))) vf_viol("ret:strftime", "strftime returned %zu '%.*s', expected %zu '%s'; ops:%s", r, (int)n, o, w, ref, trace);
    } else if (k < 20) {
        tr(" strptime"); pre();
        char *f = k & 1 ? "%s" : "%d.%m.%Y", *b = k & 1 ? ov : "12.3.2001x", *q = strptime_tx(b, f, &tmv1);
        int e = errno;
        char *w = strptime(b, f, &tmv2);
        errno = e;
        if (q != w || (w && (tmv1.tm_mday != tmv2.tm_mday || tmv1.tm_mon != tmv2.tm_mon || tmv1.tm_year != tmv2.tm_year))) vf_viol("ret:strptime", "strptime's result differs; ops:%s", trace);
    } else {
        struct sigaction sa = { .sa_handler = onalrm }, old;
        tr(" sleep"); pre();
        int e = errno; sigaction(SIGALRM, &sa, &old); ualarm(2000, 0); errno = e;
        unsigned u = sleep_tx(1);
        e = errno; ualarm(0, 0); sigaction(SIGALRM, &old, NULL); errno = e;
        if (u) vf_viol("ret:sleep", "sleep returned %u; ops:%s", u, trace);
    }
    if (errno != errno0) vf_count("errno-changed-silently", 1);
    vf_count("time", 1);
}
static void op(void)
{
    int k = rndn(&R, 100); ++nops; H = vf_hash(H, &k, sizeof(k));
    if (k < 55) path_op(rndn(&R, 17));
    else if (k < 66) cwd_op();
    else if (k < 69) fchdir_op();
    else if (k < 74) errno_op();
    else if (k < 90) locale_op();
    else if (k < 92) time_op();
    else if (k < 95) signal_op();
    else { int i = rndn(&R, 4); long v = rnd(&R); if (rndp(&R, 50)) { store_long_tx(&tmv[i], v); tmv_m[i] = v; } else if (load_long_tx(&tmv[i]) != tmv_m[i]) vf_viol("tm-value", "TM word %d has another value; ops:%s", i, trace); tr(" tm"); }
}
/* the state the transaction started from is in place, as after an abort */
static void cmp_before(const char *when)
{
    int e = errno;
    char sig[64];
    if (errno_known && e != errno0) { snprintf(sig, 64, "errno:%s", when); vf_viol(sig, "errno is %d, before the transaction it was %d; ops:%s", e, errno0, trace); }
    set_rcwd(fcntl(rcwd0, F_DUPFD_CLOEXEC, 0));
    snprintf(sig, 64, "cwd:%s", when); cmp_cwd(sig);
    snprintf(sig, 64, "locale:%s", when); cmp_locale(sig, lcur0); memcpy(lcur, lcur0, sizeof(lcur));
    snprintf(sig, 64, "uselocale:%s", when); ucur = ucur0; if (uselocale((locale_t)0) != ucur0) vf_viol(sig, "the thread's locale was not restored; ops:%s", trace);
    snprintf(sig, 64, "locale-object:%s", when); cmp_objs(sig, L0); memcpy(L, L0, sizeof(L));
    snprintf(sig, 64, "buffer:%s", when); cmp_bufs(sig); gfree();
    snprintf(sig, 64, "tm:%s", when); if (memcmp(tmv, tmv0, sizeof(tmv))) vf_viol(sig, "TM data was not restored; ops:%s", trace);
    memcpy(tmv_m, tmv0, sizeof(tmv));
    nowned = 0;
    vf_count("restored-checks", 1);
    errno = e;
}
static void body(void)
{
    int e = errno;
    ++execs;
    if (execs > 1) { errno = e; cmp_before("restart"); }
    tlen = 0; trace[0] = 0; expect_err = 0; any_errno = false; H = 7; fdopened = false; errno_known = false;
    errno = errno0;
    int n = 1 + rndn(&R, 12), at = rndn(&R, n + 1);
    rec_irrev = picotm_is_irrevocable();
    if (rndp(&R, 70)) { picotm_libc_save_errno(); errno_known = true; }
    for (int i = 0; i <= n; ++i) {
        if (i == at) {
            if (want_conf > 0 && !picotm_is_irrevocable()) { --want_conf; expect_err = 0; tr(" CONFLICT"); vf_conflict(); }
            if (want_giveup) { want_giveup = 0; if (!picotm_is_irrevocable()) { expect_err = -5; tr(" GIVEUP"); picotm_recover_from_errno(EXDEV); } }
            if (want_irrev) { want_irrev = 0; expect_err = 0; tr(" IRREV"); picotm_irrevocable(); rec_irrev = true; }
        }
        if (i == n) break;
        expect_err = 0;
        op();
        if (rndp(&R, 20)) errno = 1 + rndn(&R, 130) * errno_known;   /* the program's own changes */
        if (!errno_known) errno = errno0;
    }
    vf_count("operations", n);
}
static void run_tx(void)
{
    recovered = false; execs = 0;
    errno = errno0;
    picotm_begin
        body();
    picotm_commit
        { int e = errno;
        recovered = true;
        int want = expect_err;
        if (want <= -100) {
            int k = -100 - want;
            if (picotm_error_status() != PICOTM_SIGINFO_T) vf_viol("signal-recovery", "error status %d, expected signal %d; ops:%s", picotm_error_status(), sigs[k], trace);
            else if (picotm_error_as_siginfo_t()->si_signo != sigs[k]) vf_viol("signal-recovery", "recovery from signal %d, expected %d", picotm_error_as_siginfo_t()->si_signo, sigs[k]);
            else if (picotm_error_is_non_recoverable()) vf_viol("signal-recovery", "signal %d in state %d gave recoverability %d", sigs[k], sstate[k], picotm_error_is_non_recoverable());
            vf_count("signal-recovery", 1);
        } else if (picotm_error_is_non_recoverable()) vf_viol("non-recoverable", "non-recoverable error, status %d, errno %d; ops:%s", picotm_error_status(), (int)picotm_error_as_errno(), trace);
        else if (want == -2) { if (picotm_error_status() != PICOTM_ERROR_CODE || picotm_error_as_error_code() != PICOTM_GENERAL_ERROR) vf_viol("error-kind", "error status %d, expected a general error; ops:%s", picotm_error_status(), trace); }
        else if (picotm_error_status() != PICOTM_ERRNO) vf_viol("error-kind", "error status %d, expected errno %d; ops:%s", picotm_error_status(), want, trace);
        else {
            int er = (int)picotm_error_as_errno(); if (want == -5) want = EXDEV;
            if (er != want && !any_errno) vf_viol("error-value", "recovery with errno %d, expected %d; ops:%s", er, want, trace);
        }
        errno = e; }
    picotm_end
}
static void setup_signals(void)
{
    for (int k = 0; k < 3; ++k) {
        struct sigaction sa = { .sa_handler = orig }; sigemptyset(&sa.sa_mask); sigaction(sigs[k], &sa, NULL);
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        sstate[k] = rndn(&R, 4);
        if (sstate[k] >= 1) picotm_libc_acquire_proc_signal(sigs[k], nontx, &err);
        if (sstate[k] >= 2) picotm_libc_add_signal(sigs[k], sstate[k] == 2, &err);
        if (picotm_error_is_set(&err)) { vf_viol("signal-setup", "cannot set up signal %d", sigs[k]); return; }
    }
}
static void drop_signals(void)
{
    /* a non-recoverable error leaves the transaction as it is, so this is the end of a process */
    for (int k = 0; k < 3; ++k) if (sstate[k] == 3 && rndp(&R, 30)) {
        pid_t p = fork();
        if (!p) {
            volatile int rec = 0;
            picotm_begin
                pthread_kill(pthread_self(), sigs[k]);
            picotm_commit
                rec = picotm_error_status() == PICOTM_SIGINFO_T && picotm_error_as_siginfo_t()->si_signo == sigs[k] ? picotm_error_is_non_recoverable() ? 1 : 2 : 3;
            picotm_end
            _exit(rec);
        }
        int st = 0; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) vf_viol("signal-recovery", "non-recoverable signal %d: outcome %x", sigs[k], st);
        vf_count("non-recoverable-signals", 1);
    }
    if (rndp(&R, 50)) picotm_libc_clear_signals(); else for (int k = 0; k < 3; ++k) picotm_libc_remove_signal(sigs[k]);
    /* removed: goes to the program's handler, also in transactions */
    for (int k = 0; k < 3; ++k) {
        int h = hits[k], o = origs[k]; volatile bool rec = false;
        if (rndp(&R, 30)) { picotm_begin pthread_kill(pthread_self(), sigs[k]); picotm_commit rec = true; picotm_end }
        else pthread_kill(pthread_self(), sigs[k]);
        if (rec || (sstate[k] ? hits[k] != h + 1 : origs[k] != o + 1)) vf_viol("signal-removed", "signal %d in state %d is not handled by the program after its removal", sigs[k], sstate[k]);
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        picotm_libc_release_proc_signal(sigs[k], &err);
        o = origs[k]; h = hits[k];
        pthread_kill(pthread_self(), sigs[k]);
        if (origs[k] != o + 1 || hits[k] != h) vf_viol("signal-released", "signal %d does not go to the original handler after its release", sigs[k]);
        vf_count("signals-released", 1);
    }
}
static int count_fds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static void one_case(uint64_t c)
{
    R = vf_rng(vf_seed, c, 22);
    must(chdir(root), root);
    snprintf(ttop, sizeof(ttop), "%s/t", root); snprintf(rtop, sizeof(rtop), "%s/r", root);
    snprintf(tbase, sizeof(tbase), "%s/1/2/3", ttop); snprintf(rbase, sizeof(rbase), "%s/1/2/3", rtop);
    for (int w = 0; w < 2; ++w) { char b[PATH_MAX]; static const char *const s[] = { "", "/1", "/1/2", "/1/2/3" }; for (int i = 0; i < 4; ++i) { snprintf(b, sizeof(b), "%s%s", w ? ttop : rtop, s[i]); must(mkdir(b, 0755), b); } }
    mktree(tbase); mktree(rbase);
    must(chdir(tbase), tbase);
    rcwd = open(rbase, O_RDONLY | O_DIRECTORY); must(rcwd, rbase);
    setlocale(LC_ALL, "C"); uselocale(LC_GLOBAL_LOCALE); ucur = ucur0 = LC_GLOBAL_LOCALE;
    memset(L, 0, sizeof(L));
    for (int i = 0; i < 3; ++i) { L[i].l = newlocale(LC_ALL_MASK, i == 0 ? "C" : i == 1 ? "C.UTF-8" : have_en ? "en_US.UTF-8" : "C", (locale_t)0); L[i].used = true; ldesc(L[i].l, L[i].cs, L[i].cur); }
    for (int i = 0; i < 4; ++i) tmv[i] = tmv_m[i] = rnd(&R);
    setup_signals();
    uint64_t HH = 1; nops = 0; tlen = 0;
    static const char *const dn[] = { "a", "a/b", "d", "f" };
    int q = rndn(&R, 4); char b[PATH_MAX];
    snprintf(b, sizeof(b), "%s/%s", tbase, dn[q]); myfd = open(b, O_RDONLY);
    snprintf(b, sizeof(b), "%s/%s", rbase, dn[q]); myfd_ref = open(b, O_RDONLY); myfd_dir = q != 3;
    int ntx = 1 + rndn(&R, 5);
    for (int t = 0; t < ntx && vf_more(); ++t) {
        want_conf = rndp(&R, 40) ? 1 + rndn(&R, 3) : 0; want_giveup = rndp(&R, 25); want_irrev = rndp(&R, 15);
        rcwd0 = fcntl(rcwd, F_DUPFD_CLOEXEC, 0); memcpy(L0, L, sizeof(L)); lread(lcur); memcpy(lcur0, lcur, sizeof(lcur)); ucur0 = ucur; memcpy(tmv0, tmv, sizeof(tmv));
        errno0 = rndn(&R, 131);
        unsigned long v = atomic_load(&vf_nviol);
        int fds = count_fds();
        run_tx();
        HH = vf_hash(HH, &H, sizeof(H));
        if (execs > 1) vf_count("restarted", 1);
        if (recovered) {
            vf_count("aborted", 1);
            if (rec_irrev) vf_count("aborted-irrevocably", 1);
            cmp_before("after abort");
        } else {
            vf_count("committed", 1);
            for (int i = 0; i < nowned; ++i) free(owned[i]);
            nowned = 0; gfree();
            cmp_locale("locale:after commit", lcur);
            if (uselocale((locale_t)0) != ucur) vf_viol("uselocale:after commit", "the thread's locale is another one; ops:%s", trace);
            for (int i = 0; i < NL; ++i) if (L[i].freed) memset(&L[i], 0, sizeof(L[i]));
            cmp_objs("locale-object:after commit", L);
            if (memcmp(tmv, tmv_m, sizeof(tmv))) vf_viol("tm:after commit", "TM data differs; ops:%s", trace);
        }
        cmp_cwd(recovered ? "cwd:after abort" : "cwd:after commit");
        for (int i = 0; i < NL; ++i) L[i].mine = false;
        if (count_fds() != fds) vf_viol("descriptor-leak", "%d descriptors instead of %d after the transaction; ops:%s", count_fds(), fds, trace);
        close(rcwd0);
        if (atomic_load(&vf_nviol) != v) break;
        if (rndp(&R, 15)) { int d = openat(rcwd, "..", O_RDONLY | O_DIRECTORY); char s[PATH_MAX]; int o = rcwd; rcwd = d; rcwd_path(s); if (*s == '!' || chdir("..")) { rcwd = o; close(d); } else close(o); cmp_cwd("cwd"); }
        int k = rndn(&R, 12); if (k < 3 && sstate[k]) { int h = hits[k]; pthread_kill(pthread_self(), sigs[k]); if (hits[k] != h + 1) vf_viol("signal-outside", "signal %d outside of a transaction did not reach the program's handler", sigs[k]); }
    }
    drop_signals();
    uselocale(LC_GLOBAL_LOCALE); setlocale(LC_ALL, "C");
    for (int i = 0; i < NL; ++i) if (L[i].used) freelocale(L[i].l);
    close(rcwd); rcwd = -1; close(myfd); close(myfd_ref);
    must(chdir(root), root);
    rmtree(AT_FDCWD, ttop, 0); rmtree(AT_FDCWD, rtop, 0);
    gfree();
    if (nops > 3) vf_distinct(HH);
}

/* ---- concurrent ---- */
#define MAXTH 8
#define NDIR 5
#define SPOILED 4                         /* only visited by transactions that give up */
enum { O_CWD, O_LOC, O_POOL };
struct ev { uint64_t ticket; bool wr; int8_t kind, val; };
struct th { pthread_t t; int id; struct rng r; struct vf_txmon mon; struct ev *ev; volatile int nev; int n; };
static struct th T[MAXTH];
static int nth, delaypct;
static char cdir[NDIR][PATH_MAX / 2]; static ino_t cino[NDIR];
static pthread_barrier_t bar;
#define POOL 3
static locale_t pool[POOL]; static long poolcs[POOL];
static const char *const cln[2] = { "C", "C.UTF-8" };
static int dirno(const char *p) { for (int i = 0; i < NDIR; ++i) if (!strcmp(p, cdir[i])) return i; return -1; }
static int locname(const char *s, int cat)    /* of a category in the result of setlocale(), which lists them if they differ */
{
    static const char *const cn[6] = { "LC_CTYPE=", "LC_NUMERIC=", "LC_TIME=", "LC_COLLATE=", "LC_MONETARY=", "LC_MESSAGES=" };
    const char *p = strstr(s, cn[cat]); if (p) s = p + strlen(cn[cat]);
    int n = strcspn(s, ";");
    for (int i = 0; i < 2; ++i) if (n == (int)strlen(cln[i]) && !strncmp(s, cln[i], n)) return i;
    vf_viol("locale-name", "setlocale() returned '%s'", s); return 0;
}
static void *worker(void *arg)
{
    struct th *t = arg; struct rng *r = &t->r;
    vf_txmon_register(&t->mon);
    vf_storm_here();
    pthread_barrier_wait(&bar);
    static __thread char b1[PATH_MAX], b2[PATH_MAX], tmpl[64];
    for (int n = 0; n < t->n; ++n) {
        struct ev e[4]; volatile int ne = 0, tries = 0; volatile bool gave = false;
        int wantconf = rndp(r, 20) ? 1 + rndn(r, 2) : 0; bool giveup = rndp(r, 15); int kind = rndn(r, 10);
        bool wr = rndp(r, 40); volatile int d = rndn(r, giveup ? NDIR : NDIR - 1), q = rndn(r, POOL);
        picotm_begin
            ++tries; ne = 0;
            if (kind < 6) {
                if (picotm_is_irrevocable() && d == SPOILED) d = 0;
                int cur;
                if (wr) { if (rndp(r, 50)) chdir_tm(cdir[d]); else chdir_tx(cdir[d]); cur = d; vf_delay(r, delaypct); }
                struct stat s; int k = rndn(r, 6), in = -1; bool first = k < 5 && rndp(r, 50);
                for (int step = 0; step < 2; ++step) if (step == first) {
                if (rndp(r, 70) || !wr) {
                    getcwd_tm(b1, sizeof(b1)); int o = dirno(b1);
                    if (wr ? o != d : (o < 0 || o == SPOILED)) vf_viol("cwd-observed", "a transaction that %s finds itself in '%s'", wr ? "changed directory" : "never saw an uncommitted change", b1);
                    cur = o;
                    vf_delay(r, delaypct);
                    getcwd_tm(b2, sizeof(b2)); if (strcmp(b1, b2)) vf_viol("cwd-unstable", "two queries of one transaction gave '%s' and '%s'", b1, b2);
                }
                } else {
                
                if (k == 0) { stat_tm(".", &s); for (int i = 0; i < NDIR; ++i) if (s.st_ino == cino[i]) in = i; }
                else if (k == 1) { stat_tm("id", &s); in = s.st_size; }
                else if (k == 2) { lstat_tm("id", &s); in = s.st_size; }
                else if (k == 3) {
                    strcpy(tmpl, "dXXXXXX"); mkdtemp_tm(tmpl);
                    for (int i = 0; i < NDIR; ++i) { snprintf(b2, sizeof(b2), "%s/%s", cdir[i], tmpl); if (!rmdir(b2)) in = i; }
                } else if (k == 4) {
                    strcpy(tmpl, "fXXXXXX"); int f = mkstemp_tm(tmpl);
                    for (int i = 0; i < NDIR; ++i) { snprintf(b2, sizeof(b2), "%s/%s", cdir[i], tmpl); if (!unlink(b2)) in = i; }
                    close_tx(f);
                } else in = cur;
                }
                if (k <= 4) vf_count("relative-paths", 1);
                if (in != cur) vf_viol("path-resolution", "a relative path (operation %d) was resolved in directory %d, the transaction is in %d", k, in, cur);
                e[0] = (struct ev){ 0, wr, O_CWD, (int8_t)cur }; ne = 1;
                if (wr) vf_count("chdir", 1); else vf_count("getcwd", 1);
            } else if (kind < 8) {
                int v = d & 1;
                if (wr) {
                    int f = rndn(r, 6), up = rndp(r, 50) ? 1 : 5;
                    if (rndp(r, 40)) setlocale_tm(LC_ALL, cln[v]);
                    else for (int i = 0; i < 6; ++i, f = (f + up) % 6) { setlocale_tm(cats[f], cln[v]); if (rndp(r, 30)) vf_delay(r, delaypct); }
                    vf_delay(r, delaypct);
                }
                int c1 = rndn(r, 7), c2 = rndn(r, 6);
                int a = locname(setlocale_tm(cats[c1], NULL), c1 < 6 ? c1 : (int)rndn(r, 6));
                vf_delay(r, delaypct);
                int c = locname(setlocale_tm(cats[c2], NULL), c2);
                if (a != c || (wr && a != v)) vf_viol("locale-observed", "category %d is '%s', category %d is '%s', all are written together", c1, cln[a], c2, cln[c]);
                e[0] = (struct ev){ 0, wr, O_LOC, (int8_t)a }; ne = 1;
                if (wr) vf_count("setlocale", 1); else vf_count("setlocale-query", 1);
            } else {
                /* replace a shared locale object by a copy or another one */
                locale_t l = (locale_t)load_ptr_tx((void*const*)&pool[q]); long cs = load_long_tx(&poolcs[q]);
                vf_delay(r, delaypct);
                locale_t nl; int how = rndn(r, 3); long ncs = cs;
                if (how == 0) nl = duplocale_tx(l);
                else { ncs = rndn(r, 2); nl = newlocale_tm(how == 1 ? LC_CTYPE_MASK : LC_ALL_MASK, cln[ncs], how == 1 ? l : (locale_t)0); }
                if (strcmp(nl_langinfo_l(CODESET, nl), ncs ? "UTF-8" : "ANSI_X3.4-1968")) vf_viol("locale-object", "a new locale object has codeset %s (operation %d)", nl_langinfo_l(CODESET, nl), how);
                if (rndp(r, 30)) { uselocale_tx(nl); vf_delay(r, delaypct); if (uselocale((locale_t)0) != nl) vf_viol("uselocale", "the thread's locale is another one"); uselocale_tx(LC_GLOBAL_LOCALE); }
                if (how != 1) freelocale_tx(l);
                store_ptr_tx((void**)&pool[q], nl); store_long_tx(&poolcs[q], ncs);
                vf_count("locale-objects-replaced", 1);
            }
            vf_tick();
            if (!picotm_is_irrevocable()) {
                if (tries <= wantconf) vf_conflict();
                if (giveup) { gave = true; picotm_recover_from_errno(EXDEV); }
            }
        picotm_commit
            if (!gave) vf_viol("error", "thread %d: unexpected recovery, status %d errno %d", t->id, picotm_error_status(), (int)picotm_error_as_errno());
            if (picotm_error_is_non_recoverable()) vf_viol("non-recoverable", "thread %d: non-recoverable error, status %d errno %d", t->id, picotm_error_status(), (int)picotm_error_as_errno());
        picotm_end
        if (uselocale((locale_t)0) != LC_GLOBAL_LOCALE) vf_viol("uselocale:after", "the thread's locale was not restored");
        if (tries > 1) vf_count("restarts", tries - 1);
        if (gave) vf_count("gave-up", 1); else { vf_count("committed", 1); for (int i = 0; i < ne; ++i) { e[i].ticket = t->mon.ticket; t->ev[t->nev++] = e[i]; } }
        vf_tick();
    }
    picotm_release();
    return NULL;
}
static int cmp_ev(const void *a, const void *b) { const struct ev *x = a, *y = b; return x->ticket < y->ticket ? -1 : x->ticket > y->ticket; }
static void conc_case(uint64_t c)
{
    R = vf_rng(vf_seed, c, 222);
    nth = 2 + rndn(&R, vf_threads - 1); if (nth > MAXTH) nth = MAXTH; delaypct = rndn(&R, 60);
    must(chdir(root), root);
    for (int i = 0; i < NDIR; ++i) {
        snprintf(cdir[i], sizeof(cdir[i]), "%s/c%d", root, i); must(mkdir(cdir[i], 0755), cdir[i]);
        struct stat s; stat(cdir[i], &s); cino[i] = s.st_ino;
        char b[PATH_MAX]; snprintf(b, sizeof(b), "%s/id", cdir[i]); int f = open(b, O_CREAT | O_RDWR, 0644); must(f, b); if (ftruncate(f, i)) exit(2); close(f);
    }
    must(chdir(cdir[0]), cdir[0]);
    setlocale(LC_ALL, "C");
    for (int i = 0; i < POOL; ++i) { poolcs[i] = i & 1; pool[i] = newlocale(LC_ALL_MASK, cln[i & 1], (locale_t)0); }
    atomic_store(&vf_ticket_ctr, 0);
    pthread_barrier_init(&bar, NULL, nth);
    int per = 30 + rndn(&R, 60);
    for (int i = 0; i < nth; ++i) { T[i] = (struct th){ .id = i, .n = per, .r = vf_rng(vf_seed, c * 64 + i, 223) }; T[i].ev = calloc(per + 1, sizeof(struct ev)); }
    vf_storm_begin(rndp(&R, 40) ? 1 + rndn(&R, 500) : 0, rnd(&R));
    for (int i = 0; i < nth; ++i) pthread_create(&T[i].t, NULL, worker, &T[i]);
    for (int i = 0; i < nth; ++i) pthread_join(T[i].t, NULL);
    vf_storm_end();
    pthread_barrier_destroy(&bar);
    struct ev *all = malloc(sizeof(*all) * (nth * per + 1)); int n = 0;
    for (int i = 0; i < nth; ++i) { memcpy(all + n, T[i].ev, sizeof(*all) * T[i].nev); n += T[i].nev; free(T[i].ev); }
    qsort(all, n, sizeof(*all), cmp_ev);
    int st[2] = { 0, 0 }; uint64_t h = 5;
    for (int i = 0; i < n; ++i) {
        if (all[i].wr) st[all[i].kind] = all[i].val;
        else if (st[all[i].kind] != all[i].val) { vf_viol(all[i].kind == O_CWD ? "cwd-history" : "locale-history", "a query committed as number %lu saw value %d, the latest committed one is %d", (long)all[i].ticket, all[i].val, st[all[i].kind]); break; }
        else vf_count("history-checks", 1);
        h = vf_hash(h, &all[i].val, 1); h = vf_hash(h, &all[i].wr, 1);
    }
    char b[PATH_MAX]; if (!getcwd(b, sizeof(b)) || dirno(b) != st[O_CWD]) vf_viol("cwd-final", "the working directory is '%s' in the end, expected '%s'", b, cdir[st[O_CWD]]);
    for (int k = 0; k < 6; ++k) if (strcmp(setlocale(cats[k], NULL), cln[st[O_LOC]])) vf_viol("locale-final", "category %d of the locale is '%s' in the end, expected '%s'", k, setlocale(cats[k], NULL), cln[st[O_LOC]]);
    for (int i = 0; i < POOL; ++i) { if (strcmp(nl_langinfo_l(CODESET, pool[i]), poolcs[i] ? "UTF-8" : "ANSI_X3.4-1968")) vf_viol("locale-object-final", "locale object has codeset %s", nl_langinfo_l(CODESET, pool[i])); freelocale(pool[i]); }
    free(all);
    must(chdir(root), root); setlocale(LC_ALL, "C");
    for (int i = 0; i < NDIR; ++i) rmtree(AT_FDCWD, cdir[i], 0);
    vf_distinct(h);
}
/* ---- signals sent to threads that change picotm's signal state: each one reaches the program's handler once ---- */
enum { SGT = 6 };
static pthread_t sgtid[SGT]; static _Atomic int sgcnt[SGT][2], sgbad; static _Atomic int sgstop; static __thread int sgme = -1; static _Atomic int sgacq_own;
static void sgwrong(int s) { (void)s; atomic_fetch_add(&sgbad, 1); }
static void sghit(int s, siginfo_t *i, void *c)
{
    (void)c;
    int k = s == SIGUSR1 ? 0 : s == SIGUSR2 ? 1 : -1;
    if (k < 0 || !i || i->si_signo != s || sgme < 0) { atomic_fetch_add(&sgbad, 1); return; }
    atomic_fetch_add(&sgcnt[sgme][k], 1);
}
static void sgacquire(int k) { struct picotm_error e = PICOTM_ERROR_INITIALIZER; picotm_libc_acquire_proc_signal(k ? SIGUSR2 : SIGUSR1, sghit, &e); if (picotm_error_is_set(&e)) vf_viol("signal-setup", "cannot acquire signal"); }
static void *sgworker(void *arg)
{
    struct th *t = arg; struct rng *r = &t->r;
    sgme = t->id;
    static __thread long word;
    if (sgacq_own) { sgacquire(0); sgacquire(1); }
    pthread_barrier_wait(&bar);
    while (!atomic_load(&sgstop)) {
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        switch (rndn(r, 8)) {
        case 0: case 1: case 2: for (int i = 0; i < 20; ++i) sgacquire(rndn(r, 2)); break;
        case 3: picotm_libc_add_signal(SIGURG, rndp(r, 50), &e); break;
        case 4: picotm_libc_remove_signal(rndp(r, 50) ? SIGURG : SIGUSR1); break;
        case 5: picotm_libc_clear_signals(); break;
        case 6: { long v = rnd(r); volatile int n = 0; volatile long got = 0;
            picotm_begin
                if (n++ == 0 && (v & 3) == 0) picotm_resolve_conflict(NULL);
                store_long_tx(&word, v); got = load_long_tx(&word);
            picotm_commit
                vf_viol("signal-recovery", "a signal that is not enabled for recovery led to recovery");
            picotm_end
            if (got != v || word != v) vf_viol("signal-transaction", "a transaction interrupted by signals stored a wrong value");
            vf_count("signal-transactions", 1); break; }
        default: if (rndp(r, 20)) picotm_release();
        }
    }
    picotm_release();
    return NULL;
}
static void sig_case(uint64_t c)
{
    R = vf_rng(vf_seed, c, 2222);
    int n = 1 + rndn(&R, vf_threads < SGT ? vf_threads : SGT); struct th *t = calloc(n, sizeof(*t));
    for (int k = 0; k < 2; ++k) { struct sigaction sa = { .sa_handler = sgwrong }; sigemptyset(&sa.sa_mask); sigaction(k ? SIGUSR2 : SIGUSR1, &sa, NULL); }
    memset((void *)sgcnt, 0, sizeof(sgcnt)); sgbad = 0; sgstop = 0; sgacq_own = rndp(&R, 50);
    if (!sgacq_own) { sgacquire(0); sgacquire(1); }
    pthread_barrier_init(&bar, NULL, n + 1);
    for (int i = 0; i < n; ++i) { t[i].id = i; t[i].r = vf_rng(vf_seed, c, 3000 + i); if (pthread_create(&sgtid[i], NULL, sgworker, t + i)) exit(2); }
    pthread_barrier_wait(&bar);
    int sent[SGT][2]; memset(sent, 0, sizeof(sent)); uint64_t h = n;
    for (int m = 0; m < 300 && vf_more(); ++m) {
        int i = rndn(&R, n), k = rndn(&R, 2);
        if (pthread_kill(sgtid[i], k ? SIGUSR2 : SIGUSR1)) exit(2);
        ++sent[i][k];
        /* a second one of the same kind would not be queued; the other kind may arrive within the handler */
        if (rndp(&R, 40)) { if (pthread_kill(sgtid[i], k ? SIGUSR1 : SIGUSR2)) exit(2); ++sent[i][!k]; }
        while (atomic_load(&sgcnt[i][0]) < sent[i][0] || atomic_load(&sgcnt[i][1]) < sent[i][1]) {
            if (atomic_load(&sgbad)) { vf_viol("signal-handler", "a signal did not reach the handler of the program, or not in the thread it was sent to"); goto out; }
            sched_yield();    /* a lost one is reported as a hang */
        }
        vf_tick();
        h = vf_hash(h, &i, sizeof(i)); h = vf_hash(h, &k, sizeof(k));
        vf_count("signals-sent", 1);
    }
out:
    atomic_store(&sgstop, 1);
    for (int i = 0; i < n; ++i) pthread_join(sgtid[i], NULL);
    for (int i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) if (sgcnt[i][k] != sent[i][k]) vf_viol("signal-handler", "thread %d handled %d signals, %d were sent", i, sgcnt[i][k], sent[i][k]);
    for (int k = 0; k < 2; ++k) {
        struct picotm_error e = PICOTM_ERROR_INITIALIZER; picotm_libc_release_proc_signal(k ? SIGUSR2 : SIGUSR1, &e);
        struct sigaction sa; sigaction(k ? SIGUSR2 : SIGUSR1, NULL, &sa);
        if ((sa.sa_flags & SA_SIGINFO) || sa.sa_handler != sgwrong) vf_viol("signal-released", "the signal's former handler is not restored by its release");
    }
    pthread_barrier_destroy(&bar);
    free(t);
    vf_distinct(h);
}
int main(int argc, char **argv)
{
    vf_init(argc, argv);
    umask(022);
    char p[PATH_MAX]; if (!realpath(vf_dir, p)) { perror(vf_dir); return 2; }
    snprintf(root, sizeof(root), "%s/c22-%d", p, (int)getpid());
    rmtree(AT_FDCWD, root, 0); must(mkdir(root, 0755), root);
    have_en = setlocale(LC_ALL, "en_US.UTF-8") != NULL; setlocale(LC_ALL, "C");
    for (uint64_t i = vf_from; i < vf_from + vf_cases && vf_more(); ++i) { vf_case(i); if (!strcmp(vf_mode, "conc")) conc_case(i); else if (!strcmp(vf_mode, "signals")) sig_case(i); else one_case(i); }
    must(chdir(p), p); rmtree(AT_FDCWD, root, 0);
    vf_finish(atomic_load(&vf_nviol) ? 1 : 0);
}
