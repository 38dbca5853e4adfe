/* C18 (mode io): regular files in transactions, next to plain POSIX calls on
 * twin files.  C21 (mode fd): life of descriptors and created files.
 * Each execution starts with the twins put back to the committed state; every
 * call is made on the twin first, its result is what the transactional call has
 * to deliver; a call that fails on the twin has to enter recovery with that
 * errno.  After the transaction the real files and descriptors are compared with
 * the twins (commit) or with the state before (abort). */
#include "vf_tx.h"
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-libc.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include "picotm/sys/stat.h"
#include "picotm/sys/stat-tm.h"
#include "picotm/sys/socket.h"
#include "picotm/sys/socket-tm.h"
#include <dirent.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/socket.h>

#define NF 6
#define ND 40
struct snap { bool exists; size_t n; mode_t mode; unsigned char *p; };
struct file { char a[200], b[200]; struct snap s; char absrel[200]; };
struct desc { int a, b; int file; bool open, mine, closed; int flags; off_t off; bool used; int kind; int share; };
enum { K_REG, K_PIPE, K_SOCK, K_TEMP };
static struct file F[NF];
static struct desc D[ND], D0[ND];
static int nd, nd0, nf;
static char root[160];
static struct rng R;
static uint64_t H;
static char trace[3000]; static size_t tlen;
static bool io;
static int expect_err; static bool touched[NF];    /* accessed by this execution */
static bool created[NF];
static volatile int rec_irrev;
static int pend[2] = { -1, -1 };    /* twins of a call that has not returned yet */
static long nops_done;
__attribute__((format(printf, 1, 2)))
static void tr(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    if (tlen < sizeof(trace) - 100) tlen += vsnprintf(trace + tlen, sizeof(trace) - tlen, fmt, ap);
    va_end(ap);
}
static void die(const char *w) { perror(w); fprintf(stderr, "ops:%s\n", trace); _exit(2); }

/* ---- buffers of a transaction ---- */
static void *bufs[200]; static int nbufs;
static void *buf_new(size_t n)
{
    void *p = malloc(n ? n : 1);
    if (nbufs == 200) abort();
    bufs[nbufs++] = p;
    return p;
}
static void bufs_free(void) { while (nbufs) free(bufs[--nbufs]); }

/* ---- state of files ---- */
static void snap_free(struct snap *s) { free(s->p); s->p = NULL; s->exists = false; s->n = 0; }
static void snap_take(struct snap *s, const char *path)
{
    snap_free(s);
    struct stat st;
    if (stat(path, &st)) return;
    s->exists = true; s->n = st.st_size; s->mode = st.st_mode & 07777;
    s->p = malloc(s->n + 1);
    int fd = open(path, O_RDONLY);
    if (fd < 0) die(path);
    size_t o = 0;
    while (o < s->n) { ssize_t r = pread(fd, s->p + o, s->n - o, o); if (r <= 0) break; o += r; }
    if (o != s->n) vf_viol("size", "stat size %zu but only %zu bytes", s->n, o);
    close(fd);
}
static bool snap_put(const struct snap *s, const char *path)
{
    if (!s->exists) { unlink(path); return true; }
    int fd = open(path, O_RDWR | O_CREAT, 0600);
    if (fd < 0) die(path);
    struct stat st; fstat(fd, &st);
    if (ftruncate(fd, 0) || ftruncate(fd, s->n)) die("ftruncate");
    if (s->n && pwrite(fd, s->p, s->n, 0) != (ssize_t)s->n) die("pwrite");
    if ((st.st_mode & 07777) != s->mode) fchmod(fd, s->mode);
    close(fd);
    return true;
}
static void cmp_file(const char *path, const struct snap *s, const char *when)
{
    struct stat st;
    bool ex = !stat(path, &st);
    const char *nm = strrchr(path, '/') + 1;
    if (ex != s->exists) { vf_viol(ex ? "file-left" : "file-missing", "%s: file %s %s; ops:%s", when, nm, ex ? "exists, but should not" : "is gone", trace); return; }
    if (!ex) return;
    if ((size_t)st.st_size != s->n) { vf_viol("size", "%s: %s has %lld bytes, expected %zu; ops:%s", when, nm, (long long)st.st_size, s->n, trace); return; }
    if ((st.st_mode & 07777) != s->mode) vf_viol("mode", "%s: %s has mode %o, expected %o; ops:%s", when, nm, st.st_mode & 07777, s->mode, trace);
    struct snap t = { 0 };
    snap_take(&t, path);
    if (t.n == s->n && memcmp(t.p, s->p, s->n)) {
        size_t i = 0; while (t.p[i] == s->p[i]) ++i;
        vf_viol("content", "%s: byte %zu of %s is %02x, expected %02x; ops:%s", when, i, nm, t.p[i], s->p[i], trace);
    }
    snap_free(&t);
    vf_count("files-compared", 1);
}
/* ---- sizes and offsets ---- */
static size_t rlen(void)
{
    unsigned k = rndn(&R, 100);
    if (k < 4) return 0;
    if (k < 40) return 1 + rndn(&R, 40);
    if (k < 60) return 32 * (1 + rndn(&R, 6)) + rndn(&R, 3) - 1;
    if (k < 93) return rndn(&R, 400);
    if (k < 99) return rndn(&R, 5000);
    return rndn(&R, 40000);
}
static off_t roff(size_t size)
{
    unsigned k = rndn(&R, 100);
    if (k < 10) return 0;
    if (k < 45) return rndn(&R, size + 1);
    if (k < 60) return size;
    if (k < 75) return size + rndn(&R, 100);
    if (k < 90) return 32 * rndn(&R, 20) + rndn(&R, 3);
    if (k < 98) return rndn(&R, 3000);
    return rndn(&R, 200000);
}
static size_t fsize(int fd) { struct stat st; return fstat(fd, &st) ? 0 : st.st_size; }

static void no_error(const char *op, int e)
{
    vf_viol("no-error", "%s returned although POSIX fails with errno %d; ops:%s", op, e, trace);
}
#define POSIX_FAILED(op, cond) do { if (cond) expect_err = errno; else expect_err = 0; } while (0)

static struct desc *pick(void)
{
    if (!nd) return NULL;
    for (int i = 0; i < 12; ++i) {
        struct desc *d = &D[rndn(&R, nd)];
        if (!d->open || d->closed || d->kind == K_PIPE || d->kind == K_SOCK) continue;
        /* Restriction of picotm: in a transaction, a file is used through one of its
         * pre-existing descriptors only, and through that one first. */
        if (!d->mine && !d->used) {
            bool bad = false;
            for (int k = 0; k < nd; ++k)
                if (&D[k] != d && D[k].open && D[k].file == d->file && (D[k].used || D[k].mine)) bad = true;
            if (bad) continue;
        }
        return d;
    }
    return NULL;
}
static void fill(unsigned char *p, size_t n) { for (size_t i = 0; i < n; ++i) p[i] = 1 + rndn(&R, 255); }
static bool cmp_stat(const char *op, struct stat *a, struct stat *b)
{
    if (a->st_size != b->st_size) vf_viol("fstat", "%s: size %lld instead of %lld; ops:%s", op, (long long)a->st_size, (long long)b->st_size, trace);
    if (a->st_mode != b->st_mode) vf_viol("fstat", "%s: mode %o instead of %o; ops:%s", op, a->st_mode, b->st_mode, trace);
    return true;
}
static void op_io(struct desc *d)
{
    if (d->file >= 0) touched[d->file] = true;
    int fi = d - D;
    unsigned char *p, *q; size_t n; off_t o, ra; ssize_t r, s; bool tm = rndp(&R, 40);
    d->used = true;
    nops_done++;
    int k = rndn(&R, 22);
    /* pwrite() on O_APPEND: POSIX and Linux disagree */
    if (k >= 13 && k <= 15 && (fcntl(d->b, F_GETFL) & O_APPEND)) k = 5;
    H = vf_hash(H, &k, sizeof(k)); H = vf_hash(H, &fi, sizeof(fi));
    switch (k) {
    case 0: case 1: case 2: case 3: case 4:
        n = rlen(); p = buf_new(n); q = buf_new(n);
        memset(q, 0xee, n); memset(p, 0xee, n);
        tr(" read%s(%d,%zu)", tm ? "_tm" : "", fi, n);
        s = read(d->b, q, n); POSIX_FAILED(read, s < 0);
        r = tm ? read_tm(d->a, p, n) : read_tx(d->a, p, n);
        if (expect_err) no_error("read", expect_err);
        else if (r != s) vf_viol("read-result", "read(%zu) returned %zd, expected %zd; ops:%s", n, r, s, trace);
        else if (memcmp(p, q, r)) { ssize_t i = 0; while (p[i] == q[i]) ++i; vf_viol("read-data", "read(%zu)=%zd: byte %zd is %02x, expected %02x; ops:%s", n, r, i, p[i], q[i], trace); }
        vf_count("op-read", 1); if (s < (ssize_t)n) vf_count("reads-at-end", 1);
        H = vf_hash(H, &n, sizeof(n)); break;
    case 5: case 6: case 7: case 8: case 9:
        n = rlen(); p = buf_new(n); fill(p, n);
        tr(" write%s(%d,%zu)", tm ? "_tm" : "", fi, n);
        s = write(d->b, p, n); POSIX_FAILED(write, s < 0);
        r = tm ? write_tm(d->a, p, n) : write_tx(d->a, p, n);
        if (expect_err) no_error("write", expect_err);
        else if (r != s) vf_viol("write-result", "write(%zu) returned %zd, expected %zd; ops:%s", n, r, s, trace);
        vf_count("op-write", 1); 
        /* the buffer belongs to the caller again */
        if (tm || rndp(&R, 50)) { if (tm) memset(p, 0x5a, n); else { char z = 0x5a; for (size_t i = 0; i < n && i < 64; ++i) store_tx(p + i, &z, 1); } }
        H = vf_hash(H, &n, sizeof(n)); break;
    case 10: case 11: case 12:
        n = rlen(); p = buf_new(n); q = buf_new(n); o = roff(fsize(d->b));
        if (rndp(&R, 2)) o = -1 - (off_t)rndn(&R, 100);
        memset(q, 0xee, n); memset(p, 0xee, n);
        tr(" pread%s(%d,%zu@%lld)", tm ? "_tm" : "", fi, n, (long long)o);
        s = pread(d->b, q, n, o); POSIX_FAILED(pread, s < 0);
        r = tm ? pread_tm(d->a, p, n, o) : pread_tx(d->a, p, n, o);
        if (expect_err) no_error("pread", expect_err);
        else if (r != s) vf_viol("read-result", "pread(%zu@%lld) returned %zd, expected %zd; ops:%s", n, (long long)o, r, s, trace);
        else if (memcmp(p, q, r)) { ssize_t i = 0; while (p[i] == q[i]) ++i; vf_viol("read-data", "pread(%zu@%lld)=%zd: byte %zd is %02x, expected %02x; ops:%s", n, (long long)o, r, i, p[i], q[i], trace); }
        vf_count("op-pread", 1);
        H = vf_hash(H, &n, sizeof(n)); break;
    case 13: case 14: case 15:
        n = rlen(); p = buf_new(n); fill(p, n); o = roff(fsize(d->b));
        if (rndp(&R, 2)) o = -1 - (off_t)rndn(&R, 100);
        tr(" pwrite%s(%d,%zu@%lld)", tm ? "_tm" : "", fi, n, (long long)o);
        s = pwrite(d->b, p, n, o); POSIX_FAILED(pwrite, s < 0);
        r = tm ? pwrite_tm(d->a, p, n, o) : pwrite_tx(d->a, p, n, o);
        if (expect_err) no_error("pwrite", expect_err);
        else if (r != s) vf_viol("write-result", "pwrite(%zu@%lld) returned %zd, expected %zd; ops:%s", n, (long long)o, r, s, trace);
        vf_count("op-pwrite", 1); 
        if (tm) memset(p, 0x5a, n);
        H = vf_hash(H, &n, sizeof(n)); break;
    case 16: case 17: case 18: {
        static const int wh[] = { SEEK_SET, SEEK_CUR, SEEK_END };
        int w = rndn(&R, 3); off_t sz = fsize(d->b), cur = lseek(d->b, 0, SEEK_CUR), to = roff(sz);
        o = wh[w] == SEEK_SET ? to : wh[w] == SEEK_CUR ? to - cur : to - sz;
        if (rndp(&R, 4)) o = rndp(&R, 50) ? -1 - (off_t)rndn(&R, 1000000) : (off_t)rndn(&R, 1ull << 20);
        if (wh[w] == SEEK_CUR && rndp(&R, 25)) o = 0;
        int W = rndp(&R, 2) ? 77 : wh[w];
        tr(" lseek(%d,%lld,%d)", fi, (long long)o, W);
        ra = lseek(d->b, o, W); POSIX_FAILED(lseek, ra < 0);
        off_t rb = lseek_tx(d->a, o, W);
        if (expect_err) no_error("lseek", expect_err);
        else if (ra != rb) vf_viol("lseek-result", "lseek(%lld,%d) returned %lld, expected %lld; ops:%s", (long long)o, W, (long long)rb, (long long)ra, trace);
        vf_count("op-lseek", 1); H = vf_hash(H, &w, sizeof(w));
        break; }
    case 19: {
        struct stat a, b; memset(&a, 0, sizeof(a));
        struct stat *pa = tm ? &a : buf_new(sizeof(a));
        tr(" fstat(%d)", fi);
        POSIX_FAILED(fstat, fstat(d->b, &b));
        if (tm) fstat_tm(d->a, pa); else fstat_tx(d->a, pa);
        cmp_stat("fstat", pa, &b);
        vf_count("op-fstat", 1); break; }
    case 20: {
        mode_t m = 0400 | rndn(&R, 0200) | (rndn(&R, 2) * 0200) | (rndn(&R, 3) ? 0 : 01000);
        tr(" fchmod(%d,%o)", fi, m);
        POSIX_FAILED(fchmod, fchmod(d->b, m));
        if (fchmod_tx(d->a, m)) vf_viol("fchmod", "fchmod did not return 0");
        vf_count("op-fchmod", 1); break; }
    case 21:
        tr(" fsync(%d)", fi);
        if (fsync_tx(d->a)) vf_viol("fsync", "fsync did not return 0");
        vf_count("op-fsync", 1); break;
    }
}
/* ---- descriptors ---- */
static struct desc *new_desc(int a, int b, int file, int kind)
{
    if (b == pend[0]) pend[0] = -1; else if (b == pend[1]) pend[1] = -1;
    for (int i = 0; i < nd; ++i)
        if (D[i].open && D[i].a == a) vf_viol("fd-reused", "descriptor %d was handed out while it is open; ops:%s", a, trace);
    if (nd == ND) abort();
    struct desc *d = &D[nd++];
    *d = (struct desc){ .a = a, .b = b, .file = file, .open = true, .mine = true, .used = true, .kind = kind };
    return d;
}
static int flagset(void)
{
    static const int acc[] = { O_RDWR, O_RDWR, O_RDWR, O_RDONLY, O_WRONLY };
    int f = acc[rndn(&R, 5)];
    if (rndp(&R, 15) && !vf_skipped("append")) f |= O_APPEND;
    return f;
}
static int fdflags(int fd) { return fcntl(fd, F_GETFD); }
static void op_fd(void)
{
    bool tm = rndp(&R, 40);
    int k = rndn(&R, 16), a, b; struct desc *d;
    H = vf_hash(H, &k, sizeof(k));
    if (nd > ND - 4) k = 15;
    nops_done++;
    switch (k) {
    case 0: case 1: case 2: {
        int fi = rndn(&R, nf), f = flagset();
        if (rndp(&R, 50)) f |= O_CREAT;
        if ((f & O_CREAT) && rndp(&R, 40)) f |= O_EXCL;
        if (rndp(&R, 6) && !touched[fi]) f |= O_TRUNC;    /* truncations do not wait for pending operations */
        if (rndp(&R, 20)) f |= O_CLOEXEC;
        mode_t m = 0400 + rndn(&R, 0400);
        tr(" %d=open%s(f%d,%x)", nd, tm ? "_tm" : "", fi, f);
        if ((f & O_CREAT) && !(f & O_EXCL) && access(F[fi].b, F_OK)) created[fi] = true;
        b = open(F[fi].b, f, m); pend[0] = b; POSIX_FAILED(open, b < 0);
        char *path = buf_new(strlen(F[fi].a) + 1); strcpy(path, F[fi].a);
        a = tm ? open_tm(path, f, m) : open_tx(path, f, m);
        if (expect_err) { no_error("open", expect_err); return; }
        if (a < 0 || fdflags(a) != fdflags(b)) vf_viol("open", "open(%x) returned descriptor %d with flags %d; ops:%s", f, a, fdflags(a), trace);
        else if (fcntl(a, F_GETFL) != fcntl(b, F_GETFL)) vf_viol("open", "open(%x): descriptor has flags %x instead of %x; ops:%s", f, fcntl(a, F_GETFL), fcntl(b, F_GETFL), trace);
        d = new_desc(a, b, fi, K_REG); d->flags = f;
        vf_count("op-open", 1); break; }
    case 3: {
        int fi = rndn(&R, nf); mode_t m = 0600;
        if (rndp(&R, 60) || touched[fi]) break;    /* irrevocable: keep it rare */
        tr(" %d=creat(f%d)", nd, fi);
        if (access(F[fi].b, F_OK)) created[fi] = true;
        b = creat(F[fi].b, m); pend[0] = b; POSIX_FAILED(creat, b < 0);
        a = tm ? creat_tm(F[fi].a, m) : creat_tx(F[fi].a, m);
        new_desc(a, b, fi, K_REG);
        vf_count("op-creat", 1); break; }
    case 4: case 5: {
        if (!(d = pick())) break;
        tr(" %d=dup%s(%ld)", nd, tm ? "_tm" : "", (long)(d - D));
        d->used = true;
        b = dup(d->b); pend[0] = b; POSIX_FAILED(dup, b < 0);
        if (rndp(&R, 40)) a = tm ? fcntl_tm(d->a, F_DUPFD, 0) : fcntl_tx(d->a, F_DUPFD, 0);
        else a = dup_tx(d->a);
        if (a < 0 || fdflags(a) != fdflags(b)) vf_viol("dup", "dup returned descriptor %d; ops:%s", a, trace);
        new_desc(a, b, d->file, d->kind);
        vf_count("op-dup", 1); break; }
    case 6: case 7: case 8: {
        if (!nd) break;
        for (int i = 0; i < 8; ++i) { d = &D[rndn(&R, nd)]; if (d->open && !d->closed) break; d = NULL; }
        if (!d) break;
        if (d->kind == K_REG || d->kind == K_TEMP) { if (!d->mine && !d->used) { d = pick(); if (!d) break; } }
        tr(" close%s(%ld)", tm ? "_tm" : "", (long)(d - D));
        d->used = true;
        int r = close_tx(d->a);
        if (r) vf_viol("close", "close returned %d; ops:%s", r, trace);
        if (fdflags(d->a) < 0 && !picotm_is_irrevocable()) vf_viol("early-close", "descriptor was closed before the commit; ops:%s", trace);
        d->closed = true;
        vf_count("op-close", 1); break; }
    case 9: {
        int pa[2] = { -1, -1 }, pb[2]; int *pp = tm ? pa : buf_new(sizeof(pa));
        tr(" %d,%d=pipe%s", nd, nd + 1, tm ? "_tm" : "");
        if (pipe(pb)) die("pipe");
        memcpy(pend, pb, sizeof(pend));
        int r = tm ? pipe_tm(pp) : pipe_tx(pp);
        if (r) vf_viol("pipe", "pipe returned %d", r);
        new_desc(pp[0], pb[0], -1, K_PIPE); new_desc(pp[1], pb[1], -1, K_PIPE);
        vf_count("op-pipe", 1); break; }
    case 10: {
        int ty = rndp(&R, 50) ? SOCK_STREAM : SOCK_DGRAM;
        tr(" %d=socket%s", nd, tm ? "_tm" : "");
        pend[0] = b = socket(AF_UNIX, ty, 0);
        a = socket_tx(AF_UNIX, ty, 0);
        if (a < 0) vf_viol("socket", "socket returned %d", a);
        new_desc(a, b, -1, K_SOCK);
        vf_count("op-socket", 1); break; }
    case 11: {
        char tmpl[220]; char *t = buf_new(220); snprintf(t, 220, "%s/a/t-XXXXXX", root);
        if (rndp(&R, 30)) strcpy(t, "a/t-XXXXXX");
        tr(" %d=mkstemp%s", nd, tm ? "_tm" : "");
        snprintf(tmpl, sizeof(tmpl), "%s/b/t-XXXXXX", root);
        pend[0] = b = mkstemp(tmpl);
        a = tm ? mkstemp_tm(t) : mkstemp_tx(t);
        struct stat st;
        if (a < 0 || fstat(a, &st) || (st.st_mode & 0777) != 0600 || !S_ISREG(st.st_mode)) vf_viol("mkstemp", "mkstemp returned descriptor %d; ops:%s", a, trace);
        else { struct stat s2; if (stat(t, &s2) || s2.st_ino != st.st_ino) vf_viol("mkstemp", "mkstemp: name '%s' is not the file; ops:%s", t, trace); }
        new_desc(a, b, -1 - nd, K_TEMP);
        vf_count("op-mkstemp", 1); break; }
    case 12: {
        /* invalid descriptors */
        if (rndp(&R, 80)) break;
        int f = 0; char c = 0; expect_err = EBADF;
        struct desc *cl = NULL;
        for (int i = 0; i < nd; ++i) if (D[i].closed) cl = &D[i];
        switch (rndn(&R, 5)) {
        case 0: f = 900 + rndn(&R, 100); break;
        case 1: f = -1 - (int)rndn(&R, 3); break;
        case 2: f = 1024 + rndn(&R, 3000); break;
        case 3: f = INT_MAX - rndn(&R, 2); break;
        case 4: if (!cl || vf_skipped("use-after-close")) { expect_err = -1; return; } f = cl->a; break;
        }
        int w = rndn(&R, 9);
        tr(" bad(%d,%d)", f, w);
        switch (w) {
        case 0: read_tm(f, &c, 1); break;
        case 1: write_tm(f, &c, 1); break;
        case 2: lseek_tx(f, 0, SEEK_SET); break;
        case 3: close_tx(f); break;
        case 4: dup_tx(f); break;
        case 5: { struct stat st; fstat_tm(f, &st); break; }
        case 6: fsync_tx(f); break;
        case 7: pread_tm(f, &c, 1, 0); break;
        case 8: fcntl_tx(f, F_GETFD); break;
        }
        rec_irrev = picotm_is_irrevocable(); no_error("call on an invalid descriptor", EBADF);
        break; }
    case 13: {
        if (!(d = pick())) break;
        d->used = true;
        int cmd = rndp(&R, 50) ? F_GETFD : F_GETFL;
        tr(" fcntl(%ld,%s)", (long)(d - D), cmd == F_GETFD ? "GETFD" : "GETFL");
        b = fcntl(d->b, cmd);
        a = tm ? fcntl_tm(d->a, cmd) : fcntl_tx(d->a, cmd);
        if (a != b) vf_viol("fcntl", "fcntl(%s) returned %x instead of %x; ops:%s", cmd == F_GETFD ? "GETFD" : "GETFL", a, b, trace);
        vf_count("op-fcntl-get", 1); break; }
    case 14: {
        if (!(d = pick()) || rndp(&R, 85)) break;
        d->used = true;
        int v = rndn(&R, 2) ? FD_CLOEXEC : 0;
        tr(" fcntl(%ld,SETFD,%d)", (long)(d - D), v);
        if (fcntl(d->b, F_SETFD, v)) die("setfd");
        a = tm ? fcntl_tm(d->a, F_SETFD, v) : fcntl_tx(d->a, F_SETFD, v);
        if (a) vf_viol("fcntl", "fcntl(SETFD) returned %d", a);
        vf_count("op-fcntl-set", 1); break; }
    default:
        if ((d = pick())) op_io(d);
        break;
    }
}
/* ---- one execution ---- */
static void pend_close(void) { for (int i = 0; i < 2; ++i) if (pend[i] >= 0) { close(pend[i]); pend[i] = -1; } }
static void twin_reset(void)
{
    pend_close();
    for (int i = nd0; i < nd; ++i) if (D[i].open) close(D[i].b);
    memcpy(D, D0, sizeof(D)); nd = nd0;
    for (int i = 0; i < nf; ++i) snap_put(&F[i].s, F[i].b);
    for (int i = 0; i < nd; ++i)
        if (D[i].open && D[i].kind == K_REG) { lseek(D[i].b, D[i].off, SEEK_SET); fcntl(D[i].b, F_SETFD, D[i].flags & O_CLOEXEC ? FD_CLOEXEC : 0); }
    DIR *dp; char path[200]; snprintf(path, sizeof(path), "%s/b", root);
    (void)dp; (void)path;
}
static unsigned char census0[1024], census1[1024];
static void census(unsigned char *c) { memset(c, 0, 1024); for (int i = 3; i < 1024; ++i) { int f = fcntl(i, F_GETFD); if (f >= 0) c[i] = 1 + f; } }
static int count_dir(const char *sub)
{
    char path[200]; snprintf(path, sizeof(path), "%s/%s", root, sub);
    DIR *dp = opendir(path); int n = 0; struct dirent *e;
    if (!dp) die(path);
    while ((e = readdir(dp))) if (e->d_name[0] != '.') ++n;
    closedir(dp);
    return n;
}
static void check_offsets(bool committed, const char *when)
{
    for (int i = 0; i < nd; ++i) {
        struct desc *d = &D[i];
        if (!d->open || (d->kind != K_REG && d->kind != K_TEMP) || (committed && d->closed)) continue;
        if (!committed && d->mine) continue;
        off_t a = lseek(d->a, 0, SEEK_CUR), b = committed ? lseek(d->b, 0, SEEK_CUR) : D0[i].off;
        if (a != b) vf_viol("offset", "%s: descriptor %d has offset %lld, expected %lld; ops:%s", when, i, (long long)a, (long long)b, trace);
        int fa = fcntl(d->a, F_GETFD), fb = committed ? fcntl(d->b, F_GETFD) : (D0[i].flags & O_CLOEXEC ? FD_CLOEXEC : 0);
        if (fa != fb) vf_viol("fdflags", "%s: descriptor %d has flags %d, expected %d; ops:%s", when, i, fa, fb, trace);
        vf_count("offsets-compared", 1);
    }
}
static int want_conf, want_giveup, want_irrev;
static int execs;
/* A file that a plain O_CREAT created stays: the transaction cannot know that it did not exist before. */
static int dir0;
static void adopt_created(void)
{
    for (int i = 0; i < nf; ++i) {
        if (!created[i] || F[i].s.exists) continue;
        struct stat st;
        if (stat(F[i].a, &st)) continue;
        if (st.st_size) vf_viol("created-size", "created file %d has %lld bytes after the abort; ops:%s", i, (long long)st.st_size, trace);
        snap_take(&F[i].s, F[i].a);
        created[i] = false; ++dir0;
        vf_count("created-files-kept", 1);
    }
}
/* descriptors that no transaction touches, with gaps between them */
#define NBY 14
static struct { int fd; ino_t ino; } by[NBY];
static bool by_here(int i)
{
    struct stat st;
    return !by[i].ino || (!fstat(by[i].fd, &st) && st.st_ino == by[i].ino);
}
static void by_check(const char *when)
{
    for (int i = 0; i < NBY; ++i) if (!by_here(i)) vf_viol("bystander", "%s: descriptor %d, which was not used in transactions, is gone or refers to something else; ops:%s", when, by[i].fd, trace);
    vf_count("bystander-checks", 1);
}
static void by_close(int i)
{
    if (by[i].ino && by_here(i)) close(by[i].fd);
    by[i].ino = 0;
}
static void by_shuffle(void)
{
    for (int i = 0; i < NBY; ++i) {
        if (by[i].ino || rndp(&R, 40)) continue;
        struct stat st;
        by[i].fd = memfd_create("bystander", 0);
        if (by[i].fd < 0 || fstat(by[i].fd, &st)) die("memfd_create");
        by[i].ino = st.st_ino;
    }
    for (int i = 0; i < NBY; ++i) if (rndp(&R, 40)) by_close(i);
}
static void check_before(const char *when)
{
    by_check(when);
    adopt_created();
    for (int i = 0; i < nf; ++i) cmp_file(F[i].a, &F[i].s, when);
    memcpy(D, D0, sizeof(D)); 
    check_offsets(false, when);
    census(census1);
}
static void body(void)
{
    ++execs; tlen = 0; trace[0] = 0; expect_err = 0; memset(touched, 0, sizeof(touched));
    if (execs > 1 && picotm_is_irrevocable()) adopt_created();
    if (execs > 1 && !picotm_is_irrevocable()) {
        int nsave = nd; struct desc save[ND]; memcpy(save, D, sizeof(D));
        nd = nd0; check_before("restart"); nd = nsave; memcpy(D, save, sizeof(D));
    }
    twin_reset(); bufs_free();
    memset(created, 0, sizeof(created));
    H = 7;
    int n = io ? 1 + rndn(&R, 14) : 1 + rndn(&R, 10);
    int at = rndn(&R, n + 1);
    rec_irrev = picotm_is_irrevocable();
    for (int i = 0; i < n; ++i) {
        if (i == at) {
            if (want_conf > 0 && !picotm_is_irrevocable()) { --want_conf; expect_err = 0; tr(" CONFLICT"); vf_conflict(); }
            if (want_giveup) { want_giveup = 0; if (!picotm_is_irrevocable()) { expect_err = -5; tr(" GIVEUP"); picotm_recover_from_errno(EXDEV); } }
            if (want_irrev) { want_irrev = 0; tr(" IRREV"); picotm_irrevocable(); }
        }
        expect_err = 0;
        if (io) { struct desc *d = pick(); if (d) op_io(d); }
        else op_fd();
        rec_irrev = picotm_is_irrevocable();
        if (expect_err == -1) expect_err = 0;
    }
    vf_count("operations", n);
    if (want_conf > 0 && at == n && !picotm_is_irrevocable()) { --want_conf; tr(" CONFLICT"); vf_conflict(); }
}
static volatile bool committed, recovered;
static int run_tx(void)
{
    committed = false; recovered = false; execs = 0;
    picotm_begin
        body();
    picotm_commit
        recovered = true;
        if (picotm_error_is_non_recoverable()) {
            vf_viol("non-recoverable", "non-recoverable error, status %d, errno %d; ops:%s", picotm_error_status(), (int)picotm_error_as_errno(), trace);
        } else if (picotm_error_status() != PICOTM_ERRNO) {
            vf_viol("error-kind", "error status %d, expected errno %d; ops:%s", picotm_error_status(), expect_err, trace);
        } else {
            int e = (int)picotm_error_as_errno(), want = expect_err == -5 ? EXDEV : expect_err;
            if (e != want) vf_viol("error-value", "recovery with errno %d, expected %d; ops:%s", e, want, trace);
        }
    picotm_end
    committed = !recovered;
    return 0;
}
static void unlink_temps(const char *sub)
{
    char path[200]; snprintf(path, sizeof(path), "%s/%s", root, sub);
    DIR *dp = opendir(path); struct dirent *e;
    if (!dp) return;
    while ((e = readdir(dp))) if (!strncmp(e->d_name, "t-", 2)) { char q[500]; snprintf(q, sizeof(q), "%s/%s", path, e->d_name); unlink(q); }
    closedir(dp);
}
static void one_case(uint64_t c)
{
    R = vf_rng(vf_seed, c, io ? 18 : 21);
    nf = 1 + rndn(&R, NF); if (io && nf > 3) nf = 3;
    nd = nd0 = 0; memset(D, 0, sizeof(D)); memset(D0, 0, sizeof(D0));
    for (int i = 0; i < nf; ++i) {
        snprintf(F[i].a, sizeof(F[i].a), "%s/a/f%d", root, i);
        snprintf(F[i].b, sizeof(F[i].b), "%s/b/f%d", root, i);
        unlink(F[i].a); unlink(F[i].b);
        snap_free(&F[i].s);
        if (!io && rndp(&R, 30)) continue;    /* does not exist */
        F[i].s.exists = true; F[i].s.n = rndp(&R, 20) ? 0 : rlen(); F[i].s.mode = 0600 + rndn(&R, 0100) + (rndn(&R, 3) ? 0 : 01000);
        F[i].s.p = malloc(F[i].s.n + 1); fill(F[i].s.p, F[i].s.n);
        snap_put(&F[i].s, F[i].a); snap_put(&F[i].s, F[i].b);
        if (io || rndp(&R, 60)) {
            int f = rndp(&R, 60) ? O_RDWR : flagset();
            struct desc *d = &D0[nd0++];
            *d = (struct desc){ .a = open(F[i].a, f), .b = open(F[i].b, f), .file = i, .open = true, .flags = f, .kind = K_REG };
            if (d->a < 0 || d->b < 0) die("open");
            if (rndp(&R, 50)) { off_t o = roff(F[i].s.n); lseek(d->a, o, SEEK_SET); d->off = o; }
        }
    }
    int ntx = 1 + rndn(&R, 4);
    uint64_t HH = 1;
    memcpy(D, D0, sizeof(D)); nd = nd0;
    for (int t = 0; t < ntx && vf_more(); ++t) {
        want_conf = rndp(&R, 35) ? 1 + rndn(&R, 3) : 0;
        want_giveup = rndp(&R, 20); want_irrev = rndp(&R, 8);
        picotm_libc_set_error_recovery(rndp(&R, 80) ? PICOTM_LIBC_ERROR_RECOVERY_AUTO : PICOTM_LIBC_ERROR_RECOVERY_FULL);
        dir0 = count_dir("a");
        memcpy(D, D0, sizeof(D)); nd = nd0;
        /* the twins are opened and closed all the time: take the census without them */
        if (!io) by_shuffle();
        census(census0);
        run_tx();
        by_check(committed ? "after commit" : "after abort");
        bufs_free(); pend_close();
        HH = vf_hash(HH, &H, sizeof(H));
        census(census1);
        for (int i = 0; i < nd; ++i) if (i >= nd0) { census1[D[i].b] = 0; }
        if (committed) {
            for (int i = 0; i < nf; ++i) { snap_take(&F[i].s, F[i].b); cmp_file(F[i].a, &F[i].s, "after commit"); }
            check_offsets(true, "after commit");
            for (int i = 0; i < nd; ++i) {
                struct desc *d = &D[i];
                int fl = fdflags(d->a);
                if (d->closed && fl >= 0) vf_viol("not-closed", "after commit: descriptor %d is still open; ops:%s", i, trace);
                if (!d->closed && fl < 0) vf_viol("closed", "after commit: descriptor %d is not open; ops:%s", i, trace);
                if (i >= nd0 || d->closed) census1[d->a] = 0;
                if (i < nd0 && d->closed) census0[d->a] = 0;
            }
            vf_count("committed", 1);
        } else {
            memcpy(&D[nd0], &D[nd0], 0);
            for (int i = nd0; i < nd; ++i) close(D[i].b);
            memcpy(D, D0, sizeof(D)); nd = nd0;
            if (!rec_irrev) {
                adopt_created();
                for (int i = 0; i < nf; ++i) cmp_file(F[i].a, &F[i].s, "after abort");
                check_offsets(false, "after abort");
                int d1 = count_dir("a");
                if (d1 != dir0) vf_viol("file-left", "after abort: directory has %d entries instead of %d; ops:%s", d1, dir0, trace);
            }
            vf_count("aborted", 1);
        }
        for (int i = 3; i < 1024; ++i)
            if ((census0[i] != 0) != (census1[i] != 0)) { vf_viol(census1[i] ? "fd-left" : "fd-lost", "%s: descriptor number %d %s; ops:%s", committed ? "after commit" : "after abort", i, census1[i] ? "remained open" : "is gone", trace); break; }
        vf_count("censuses", 1);
        if (execs > 1) vf_count("restarted", 1);
        if (committed) {
            /* carry on with what is open now */
            int k = 0;
            for (int i = 0; i < nd; ++i) {
                struct desc d = D[i];
                if (d.closed) { close(d.b); continue; }
                bool keep = d.kind == K_REG && k < 8;
                for (int j = 0; j < k; ++j) if (D0[j].file == d.file) keep = false;
                if (!keep) { close(d.a); close(d.b); continue; }
                d.mine = d.used = false; d.off = lseek(d.b, 0, SEEK_CUR);
                d.flags = (d.flags & ~O_CLOEXEC) | (fcntl(d.b, F_GETFD) & FD_CLOEXEC ? O_CLOEXEC : 0);
                D0[k++] = d;
            }
            nd0 = k;
        } else if (rec_irrev) break;
        unlink_temps("a"); unlink_temps("b");
    }
    for (int i = 0; i < nd0; ++i) { close(D0[i].a); close(D0[i].b); }
    for (int i = 0; i < NBY; ++i) by_close(i);
    if (nops_done > 2) vf_distinct(HH);
}
int main(int argc, char **argv)
{
    vf_init(argc, argv);
    io = !strcmp(vf_mode, "io");
    snprintf(root, sizeof(root), "%s/vf%ld-%d", vf_dir, (long)vf_arg, (int)getpid());
    char p[200];
    if (mkdir(root, 0700)) die(root);
    snprintf(p, sizeof(p), "%s/a", root); if (mkdir(p, 0700)) die(p);
    snprintf(p, sizeof(p), "%s/b", root); if (mkdir(p, 0700)) die(p);
    if (chdir(root)) die(root);
    umask(022);
    for (uint64_t i = vf_from; i < vf_from + vf_cases && vf_more(); ++i) { vf_case(i); nops_done = 0; one_case(i); }
    if (chdir("/")) die("/");
    for (int i = 0; i < NF; ++i) { unlink(F[i].a); unlink(F[i].b); }
    unlink_temps("a"); unlink_temps("b");
    snprintf(p, sizeof(p), "%s/a", root); rmdir(p);
    snprintf(p, sizeof(p), "%s/b", root); rmdir(p);
    rmdir(root);
    picotm_release();
    vf_finish(atomic_load(&vf_nviol) ? 1 : 0);
}
