/* C31: operations on descriptors of every kind.  Each object exists twice: as
 * the one the transaction works on and as a twin, on which the same operations
 * are done with the plain system calls at the same time.  The twin gives the
 * expected results and errors.  The sides are compared after the commit; after
 * an abort the twin is built anew, so that it shows the initial state. */
#include "vf_tx.h"
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/ioctl.h>
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include "picotm/sys/stat.h"
#include "picotm/sys/stat-tm.h"
#include "picotm/sys/socket.h"
#include "picotm/sys/socket-tm.h"
#include "picotm/picotm-libc.h"
#include "picotm/picotm-tm.h"

enum { REG, DIRK, PIPE, FIFO, DEVNULL, DEVZERO, DEVFULL, STREAM, DGRAM, UNCONN, LISTEN, BAD, NKIND };
static const char *kname[NKIND] = { "regular file", "directory", "pipe", "fifo", "/dev/null", "/dev/zero", "/dev/full",
                                    "stream socket", "datagram socket", "unconnected socket", "listening socket", "no descriptor" };
enum { READ, WRITE, PREAD, PWRITE, LSEEK, FSTAT, FCHMOD, FSYNC, RECV, SEND, ACCEPT, BIND, CONNECT, LISTENOP, SHUTDOWN,
       GETFL, GETFD, GETOWN, SETFL, SETFD, SETOWN, GETLK, SETLK, BADCMD, NOP };
static const char *oname[NOP] = { "read", "write", "pread", "pwrite", "lseek", "fstat", "fchmod", "fsync", "recv", "send", "accept",
       "bind", "connect", "listen", "shutdown", "GETFL", "GETFD", "GETOWN", "SETFL", "SETFD", "SETOWN", "GETLK", "SETLK", "bad-fcntl" };
#define NO 4
struct obj {
    int kind, nend, oflags;
    bool nonblock, peerclosed;
    unsigned npre, ncl, mode, off;
    uint64_t data;
    int fd[2][2];        /* [side][end]; side 0 is the transaction's */
    int cl[2][3];        /* clients of a listening socket */
};
static struct obj O[NO];
static int no;
static char root[160];
static struct rng R;
static char trace[700]; static size_t tracelen;
static uint64_t H;
static volatile int execs, want_conf, want_giveup, want_irrev, expect_err, tx_len;
static volatile bool was_irrev; static bool calm;
static int acc[2][8], nacc, pend = -1;
static struct sockaddr_un addrs[2][NO + 2];   /* listeners, then a free name and one that does not exist */
static const socklen_t addrlen = offsetof(struct sockaddr_un, sun_path) + 5;
static unsigned char rbuf[4096] __attribute__((aligned(64))), tbuf[4096], wbuf[512] __attribute__((aligned(64))), wraw[512];
static struct stat st0 __attribute__((aligned(64))); static struct stat st0raw, st1;
static struct flock lk0 __attribute__((aligned(64)));
static struct sockaddr_un sa0 __attribute__((aligned(64))); static socklen_t sl0 __attribute__((aligned(64)));
static uint64_t seen[NKIND][NOP][2];

static void die(const char *what) { perror(what); exit(2); }
static void tr(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    if (tracelen < sizeof(trace) - 60) tracelen += vsnprintf(trace + tracelen, sizeof(trace) - tracelen, fmt, ap);
    if (tracelen >= sizeof(trace)) tracelen = sizeof(trace) - 1;
    va_end(ap);
}
static void gen(unsigned char *p, size_t n, uint64_t s) { for (size_t i = 0; i < n; ++i) p[i] = vf_mix(s + i) >> 13; }
static void name(char *b, int side, char k, int i) { sprintf(b, "%c/%c%d", side ? 'b' : 'a', k, i); }

/* ---- objects ---- */
static void obj_close(struct obj *o, int side)
{
    for (int e = 0; e < 2; ++e) { if (o->fd[side][e] >= 0 && o->kind != BAD) close(o->fd[side][e]); o->fd[side][e] = -1; }
    for (int i = 0; i < 3; ++i) { if (o->cl[side][i] >= 0) close(o->cl[side][i]); o->cl[side][i] = -1; }
}
static void obj_setup(int i, int side)
{
    struct obj *o = &O[i];
    char p[40]; unsigned char d[600];
    int nb = o->nonblock ? O_NONBLOCK : 0, *fd = o->fd[side];
    fd[0] = fd[1] = -1;
    gen(d, sizeof(d), o->data);
    switch (o->kind) {
    case REG:
        name(p, side, 'f', i); unlink(p);
        { int f = open(p, O_RDWR | O_CREAT, 0600);
          if (f < 0 || write(f, d, o->npre) != (ssize_t)o->npre || fchmod(f, o->mode)) die(p);
          close(f); }
        fd[0] = open(p, o->oflags); if (fd[0] < 0) die(p);
        lseek(fd[0], o->off, SEEK_SET);
        break;
    case DIRK:
        name(p, side, 'd', i); rmdir(p);
        if (mkdir(p, 0700) || chmod(p, o->mode)) die(p);
        fd[0] = open(p, O_RDONLY | O_DIRECTORY);
        break;
    case PIPE:
        if (pipe2(fd, nb)) die("pipe");
        if (nb) fcntl(fd[1], F_SETPIPE_SZ, 4096);
        if (write(fd[1], d, o->npre) != (ssize_t)o->npre) die("write");
        if (o->peerclosed) { int e = o->data & 1; close(fd[e]); fd[e] = -1; }
        break;
    case FIFO:
        name(p, side, 'p', i); unlink(p);
        if (mkfifo(p, 0600)) die(p);
        fd[0] = open(p, O_RDWR | nb);
        if (write(fd[0], d, o->npre) != (ssize_t)o->npre) die("write");
        break;
    case DEVNULL: fd[0] = open("/dev/null", o->oflags | nb); break;
    case DEVZERO: fd[0] = open("/dev/zero", o->oflags | nb); break;
    case DEVFULL: fd[0] = open("/dev/full", o->oflags | nb); break;
    case STREAM: case DGRAM:
        if (socketpair(AF_UNIX, (o->kind == STREAM ? SOCK_STREAM : SOCK_DGRAM) | (nb ? SOCK_NONBLOCK : 0), 0, fd)) die("socketpair");
        for (unsigned k = 0; k < 2; ++k) {
            unsigned n = o->npre % 200;
            if (n && send(fd[k], d + k * 200, n, 0) != (ssize_t)n) die("send");
        }
        if (o->peerclosed) { close(fd[1]); fd[1] = -1; }
        break;
    case UNCONN: fd[0] = socket(AF_UNIX, (o->data & 1 ? SOCK_STREAM : SOCK_DGRAM) | (nb ? SOCK_NONBLOCK : 0), 0); break;
    case LISTEN:
        unlink(addrs[side][i].sun_path);
        fd[0] = socket(AF_UNIX, SOCK_STREAM | (nb ? SOCK_NONBLOCK : 0), 0);
        if (fd[0] < 0 || bind(fd[0], (void*)&addrs[side][i], addrlen) || listen(fd[0], 8)) die("listen");
        for (unsigned k = 0; k < o->ncl; ++k) {
            o->cl[side][k] = socket(AF_UNIX, SOCK_STREAM, 0);
            if (connect(o->cl[side][k], (void*)&addrs[side][i], addrlen)) die("connect");
            if (send(o->cl[side][k], d, 10 + k, 0) < 0) die("send");
        }
        break;
    case BAD: { static const int bad[5][2] = { { 900, 901 }, { 1023, 1023 }, { -1, -1 }, { 1024, 1024 }, { 70000, 70000 } };
        fd[0] = bad[o->data % 5][side]; return; }
    }
    for (int e = 0; e < o->nend; ++e) if (fd[e] < 0 && !(o->peerclosed)) die("setup");
}
static void setup_side(int side)
{
    for (int i = 0; i < no; ++i) obj_close(&O[i], side);
    for (int i = 0; i < NO + 2; ++i) unlink(addrs[side][i].sun_path);
    for (int i = 0; i < no; ++i) obj_setup(i, side);
}
static void close_acc(void) { for (int i = 0; i < nacc; ++i) { close(acc[0][i]); close(acc[1][i]); } nacc = 0; }

/* ---- comparison ---- */
static size_t drain(int fd, unsigned char *b, size_t n, bool msgs)
{
    size_t k = 0;
    int fl = fcntl(fd, F_GETFL);
    if (fl < 0) return 0;
    fcntl(fd, F_SETFL, fl | O_NONBLOCK);
    while (k + 1200 < n) {
        if (msgs) { struct pollfd p = { .fd = fd, .events = POLLIN }; if (poll(&p, 1, 0) <= 0 || !(p.revents & POLLIN)) break; }
        ssize_t r = read(fd, b + k, 1024);
        if (msgs) { int32_t v = r < 0 ? -errno : r; memcpy(b + k + (r > 0 ? r : 0), &v, 4); k += (r > 0 ? r : 0) + 4; if (r <= 0 && v != 0) break; continue; }
        if (r <= 0) break;
        k += r;
    }
    return k;
}
static void bad(const char *sig, int i, const char *when, const char *what, long a, long b)
{
    vf_viol(sig, "%s: %s %d (%s%s): %s is %ld instead of %ld; ops:%s", when, kname[O[i].kind], i, O[i].nonblock ? "non-blocking " : "", O[i].peerclosed ? "peer closed" : "", what, a, b, trace);
}
static void compare(const char *when)
{
    static unsigned char da[20000], db[20000];
    for (int i = 0; i < no && vf_more(); ++i) {
        struct obj *o = &O[i];
        if (o->kind == BAD) continue;
        for (int e = 0; e < o->nend; ++e) {
            int a = o->fd[0][e], b = o->fd[1][e];
            if (a < 0) continue;
            int fa = fcntl(a, F_GETFL), fb = fcntl(b, F_GETFL);
            if (fa < 0) { vf_viol("lost-fd", "%s: descriptor of %s %d is not open; ops:%s", when, kname[o->kind], i, trace); return; }
            if (fa != fb) bad("flags", i, when, "F_GETFL", fa, fb);
            if ((fa = fcntl(a, F_GETFD)) != (fb = fcntl(b, F_GETFD))) bad("fdflags", i, when, "F_GETFD", fa, fb);
            if ((fa = fcntl(a, F_GETOWN)) != (fb = fcntl(b, F_GETOWN))) bad("owner", i, when, "F_GETOWN", fa, fb);
            struct stat sa, sb; fstat(a, &sa); fstat(b, &sb);
            if (sa.st_mode != sb.st_mode) bad("mode", i, when, "st_mode", sa.st_mode, sb.st_mode);
            if (o->kind <= DIRK && sa.st_nlink != sb.st_nlink) bad("nlink", i, when, "st_nlink", sa.st_nlink, sb.st_nlink);
            if (o->kind == REG) {
                off_t pa = lseek(a, 0, SEEK_CUR), pb = lseek(b, 0, SEEK_CUR);
                if (pa != pb) bad("offset", i, when, "the file offset", pa, pb);
                if (sa.st_size != sb.st_size) bad("size", i, when, "st_size", sa.st_size, sb.st_size);
                char p[40], q[40]; name(p, 0, 'f', i); name(q, 1, 'f', i);
                int ra = open(p, O_RDWR), rb = open(q, O_RDWR);
                struct flock la = { .l_type = F_WRLCK, .l_whence = SEEK_SET }, lb = la;
                if (fcntl(ra, F_OFD_GETLK, &la) || fcntl(rb, F_OFD_GETLK, &lb)) die("OFD_GETLK");
                if (la.l_type != lb.l_type || (la.l_type != F_UNLCK && (la.l_start != lb.l_start || la.l_len != lb.l_len)))
                    vf_viol("lock", "%s: record lock of %d is type %d at %ld+%ld instead of type %d at %ld+%ld; ops:%s", when, i, la.l_type, (long)la.l_start, (long)la.l_len, lb.l_type, (long)lb.l_start, (long)lb.l_len, trace);
                if (la.l_type != F_UNLCK) vf_count("record-locks-held", 1);
                ssize_t na = pread(ra, da, sizeof(da), 0), nb = pread(rb, db, sizeof(db), 0);
                for (ssize_t k = 0; k < na && k < nb; ++k) if (da[k] != db[k]) { bad("content", i, when, "a byte of the file", da[k], db[k]); break; }
                close(ra); close(rb);
            }
            if (o->kind >= STREAM && o->kind <= LISTEN) {
                int va = 0, vb = 0; socklen_t l = sizeof(int);
                getsockopt(a, SOL_SOCKET, SO_ACCEPTCONN, &va, &l); l = sizeof(int);
                getsockopt(b, SOL_SOCKET, SO_ACCEPTCONN, &vb, &l);
                if (va != vb) bad("listening", i, when, "SO_ACCEPTCONN", va, vb);
                struct sockaddr_un ua = { 0 }, ub = { 0 }; socklen_t na = sizeof(ua), nb = sizeof(ub);
                getsockname(a, (void*)&ua, &na); getsockname(b, (void*)&ub, &nb);
                if (na != nb || (na > 3 && strcmp(ua.sun_path + 1, ub.sun_path + 1))) vf_viol("address", "%s: socket %d is bound to '%s' instead of '%s'; ops:%s", when, i, ua.sun_path, ub.sun_path, trace);
                na = sizeof(ua), nb = sizeof(ub);
                int ea = getpeername(a, (void*)&ua, &na), eb = getpeername(b, (void*)&ub, &nb);
                if (ea != eb) bad("peer", i, when, "the result of getpeername", ea, eb);
                struct pollfd pa = { .fd = a, .events = POLLIN | POLLOUT }, pb = { .fd = b, .events = POLLIN | POLLOUT };
                poll(&pa, 1, 0); poll(&pb, 1, 0);
                if (pa.revents != pb.revents) bad("readiness", i, when, "the poll state", pa.revents, pb.revents);
            }
        }
    }
    /* draining changes things, so it comes last */
    for (int i = 0; i < no && vf_more(); ++i) {
        struct obj *o = &O[i];
        if (o->kind == LISTEN) {
            int k[2];
            for (int s = 0; s < 2; ++s) {
                fcntl(o->fd[s][0], F_SETFL, O_NONBLOCK);
                for (k[s] = 0; k[s] < 20; ++k[s]) { int f = accept(o->fd[s][0], NULL, NULL); if (f < 0) break; close(f); }
            }
            if (k[0] != k[1]) bad("pending", i, when, "the number of pending connections", k[0], k[1]);
            for (int c = 0; c < 3; ++c) if (o->cl[0][c] >= 0) {
                size_t na = drain(o->cl[0][c], da, sizeof(da), false), nb = drain(o->cl[1][c], db, sizeof(db), false);
                if (na != nb || memcmp(da, db, na)) bad("client-data", i, when, "data sent to the client", na, nb);
            }
        }
        if (o->kind == PIPE || o->kind == FIFO || o->kind == STREAM || o->kind == DGRAM)
            for (int e = 0; e < o->nend; ++e) {
                if (o->fd[0][e] < 0) continue;
                size_t na = drain(o->fd[0][e], da, sizeof(da), o->kind == DGRAM), nb = drain(o->fd[1][e], db, sizeof(db), o->kind == DGRAM);
                if (na != nb) bad("stream-length", i, when, "the number of queued bytes", na, nb);
                else for (size_t k = 0; k < na; ++k) if (da[k] != db[k]) { bad("stream-content", i, when, "a queued byte", da[k], db[k]); break; }
                vf_count("queued-bytes-compared", na);
            }
    }
    vf_count("comparisons", 1);
}

/* ---- operations ---- */
static long want; static int want_e;
/* errno before the transaction, and as the last transactional operation left it */
static int errno0; static volatile int cur_e;
#define TWIN(expr_) do { errno = 0; want = (expr_); want_e = want < 0 ? errno : 0; expect_err = want_e; errno = cur_e; } while (0)
/* most operations that fail are left out, because they end the transaction; the
 * errors of sockets are reported once, so that the twin had cleared them */
#define TRY() do { if (want_e && want_e != EAGAIN && rndp(&R, 75) && !(k >= STREAM && k <= LISTEN && op != PREAD && op != PWRITE && op != LSEEK)) { expect_err = 0; tr("-"); return; } errno = cur_e; } while (0)
#define REFUSE(e_) do { want = -1; want_e = (e_); expect_err = want_e; errno = cur_e; } while (0)
static int cur_op, cur_obj;
static bool got(long r)
{
    int e = errno; cur_e = e;
    expect_err = 0;
    if (want_e) {
        if (r == -1 && want_e == EAGAIN && (e == EAGAIN)) { vf_count("would-block", 1); return false; }
        vf_viol("no-error", "%s on %s returned %ld (errno %d) instead of failing with errno %d; ops:%s", oname[cur_op], kname[O[cur_obj].kind], r, e, want_e, trace);
        return false;
    }
    if (r != want) { vf_viol("result", "%s on %s returned %ld (errno %d) instead of %ld; ops:%s", oname[cur_op], kname[O[cur_obj].kind], r, r < 0 ? e : 0, want, trace); return false; }
    H = vf_hash(H, &r, sizeof(r));
    return true;
}
static bool ready(int fd, short ev)
{
    struct pollfd p = { .fd = fd, .events = ev };
    return poll(&p, 1, 0) > 0;
}
static bool listening(int fd) { int v = 0; socklen_t l = sizeof(v); return !getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &l) && v; }
static bool accmode(int fl, bool wr) { int m = fl & O_ACCMODE; return m == O_RDWR || m == (wr ? O_WRONLY : O_RDONLY); }
static int pick_op(int kind)
{
    static const uint8_t sens[NKIND][12] = {
        [REG] = { READ, WRITE, PREAD, PWRITE, LSEEK, FSTAT, FCHMOD, FSYNC, WRITE, READ, SETLK, GETLK },
        [DIRK] = { FSTAT, FCHMOD, FSYNC, GETFL, FCHMOD, FSTAT, GETFD, GETOWN, SETFD, SETFL, GETLK, FCHMOD },
        [PIPE] = { READ, WRITE, WRITE, FSTAT, READ, WRITE, GETFL, SETFL, WRITE, READ, SETFD, WRITE },
        [FIFO] = { READ, WRITE, WRITE, FSTAT, READ, WRITE, GETFL, SETFL, WRITE, READ, SETFD, WRITE },
        [DEVNULL] = { READ, WRITE, FSTAT, GETFL, READ, WRITE, WRITE, SETFL, SETFD, GETOWN, WRITE, FSTAT },
        [DEVZERO] = { READ, WRITE, FSTAT, GETFL, READ, WRITE, WRITE, SETFL, SETFD, GETOWN, WRITE, FSTAT },
        [DEVFULL] = { READ, READ, FSTAT, GETFL, READ, WRITE, GETFD, SETFL, SETFD, GETOWN, GETLK, FSTAT },
        [STREAM] = { READ, WRITE, SEND, RECV, FSTAT, WRITE, SEND, SETFL, SHUTDOWN, GETFL, WRITE, SEND },
        [DGRAM] = { READ, WRITE, SEND, RECV, FSTAT, WRITE, SEND, SETFL, SHUTDOWN, GETFL, WRITE, SEND },
        [UNCONN] = { BIND, CONNECT, BIND, CONNECT, LISTENOP, FSTAT, GETFL, SETFL, WRITE, LISTENOP, SETFD, BIND },
        [LISTEN] = { ACCEPT, ACCEPT, ACCEPT, LISTENOP, FSTAT, GETFL, ACCEPT, SETFL, SHUTDOWN, ACCEPT, GETFD, GETOWN },
        [BAD] = { READ, WRITE, PREAD, PWRITE, LSEEK, FSTAT, FCHMOD, FSYNC, RECV, SEND, ACCEPT, GETFL },
    };
    return rndp(&R, 90) ? sens[kind][rndn(&R, 12)] : (int)rndn(&R, NOP);
}
static void one_op(void)
{
    int i = rndn(&R, no); struct obj *o = &O[i];
    int e = o->nend > 1 ? (int)rndn(&R, 2) : 0;
    int a = o->fd[0][e], b = o->fd[1][e], k = o->kind;
    if (o->kind != BAD && a < 0) return;
    int op = pick_op(k);
    bool tx = rndp(&R, 50), irr = picotm_is_irrevocable(), sock = k >= STREAM && k <= LISTEN;
    int fl = fcntl(b, F_GETFL); bool nb = fl >= 0 && fl & O_NONBLOCK;
    unsigned n = 1 + rndn(&R, rndp(&R, 70) ? 24 : 300);
    if (tx && n > 120) n = 120;
    long off = k != REG || rndp(&R, 90) ? (long)rndn(&R, o->npre + 40) : -(long)rndn(&R, 20);
    int fwh = rndn(&R, 20) || k > DIRK ? (int)rndn(&R, 3) : 99;
    cur_op = op; cur_obj = i;
    bool strm = k >= PIPE && k != BAD;
    if (calm && !irr && ((op == READ && strm) || op == RECV || (op >= ACCEPT && op <= SHUTDOWN && sock) || (op >= SETFL && op <= SETOWN) || op == SETLK || (op == WRITE && strm && nb) || (op == SEND && sock))) return;
    /* nothing that blocks, and no deferred output that cannot succeed */
    if (op == READ || op == RECV) if (k != BAD && accmode(fl, false) && !nb && !ready(b, POLLIN)) return;
    if (op == WRITE || op == SEND) if (k != BAD && k != REG && k != DIRK && accmode(fl, true)) {
        bool fails = k == DEVFULL || k == UNCONN || k == LISTEN || o->peerclosed;
        if (op == SEND && !sock) fails = false;
        if (!nb && !irr && fails) return;
        if (!nb && !fails && !ready(b, POLLOUT)) return;
    }
    if (op == ACCEPT) { if (sock && !nb && listening(b) && !ready(b, POLLIN)) return; if (nacc == 8) return; }
    if (op == FCHMOD && k >= DEVNULL && k <= DEVFULL) tx = true;
    if (op == CONNECT && !nb && k == UNCONN && nacc > 5) return;
    tr(" %s%s(%d.%d", oname[op], tx ? "_tx" : "_tm", i, e);
    switch (op) {
    case READ: case RECV: {
        static const int flv[] = { 0, 0, 0, MSG_PEEK, MSG_DONTWAIT, MSG_TRUNC };
        int f = op == RECV ? flv[rndn(&R, 6)] : 0;
        tr(",%u,%x)", n, f);
        memset(tbuf, 0x5a, n); if (!tx) memset(rbuf + 2048, 0x5a, n);
        if (k == DIRK && op == READ) REFUSE(EISDIR);
        else TWIN(op == READ ? read(b, tbuf, n) : recv(b, tbuf, n, f));
        TRY();
        long r = op == READ ? (tx ? read_tx(a, rbuf, n) : read_tm(a, rbuf + 2048, n)) : (tx ? recv_tx(a, rbuf, n, f) : recv_tm(a, rbuf + 2048, n, f));
        if (got(r) && memcmp(tx ? rbuf : rbuf + 2048, tbuf, r > (long)n ? n : r)) vf_viol("data", "%s on %s gave wrong data; ops:%s", oname[op], kname[k], trace);
        break; }
    case PREAD: {
        tr(",%u,%ld)", n, off);
        if (k >= DEVNULL && k <= DEVFULL) REFUSE(ESPIPE);
        else if (k == DIRK) REFUSE(EISDIR);
        else TWIN(pread(b, tbuf, n, off));
        TRY();
        long r = tx ? pread_tx(a, rbuf, n, off) : pread_tm(a, rbuf + 2048, n, off);
        if (got(r) && memcmp(tx ? rbuf : rbuf + 2048, tbuf, r)) vf_viol("data", "pread on %s gave wrong data; ops:%s", kname[k], trace);
        break; }
    case WRITE: case SEND: case PWRITE: {
        static const int flv[] = { 0, 0, 0, MSG_NOSIGNAL, MSG_DONTWAIT, MSG_NOSIGNAL | MSG_DONTWAIT };
        int f = op == SEND ? flv[rndn(&R, 6)] : 0;
        if (op == SEND && f & MSG_DONTWAIT) f |= MSG_NOSIGNAL;
        tr(",%u,%x,%ld)", n, f, off);
        gen(wraw, n, rnd(&R)); if (tx) store_tx(wbuf, wraw, n);
        if (k == DIRK && op != SEND) REFUSE(EISDIR);
        else if (op == PWRITE && k >= DEVNULL && k <= DEVFULL) REFUSE(ESPIPE);
        else TWIN(op == WRITE ? write(b, wraw, n) : op == SEND ? send(b, wraw, n, f) : pwrite(b, wraw, n, off));
        TRY();
        long r = op == WRITE ? (tx ? write_tx(a, wbuf, n) : write_tm(a, wraw, n))
               : op == SEND ? (tx ? send_tx(a, wbuf, n, f) : send_tm(a, wraw, n, f)) : (tx ? pwrite_tx(a, wbuf, n, off) : pwrite_tm(a, wraw, n, off));
        got(r);
        break; }
    case LSEEK:
        tr(",%ld,%d)", off, fwh);
        if (k == DIRK) REFUSE(EINVAL);
        else if (k >= DEVNULL && k <= DEVFULL) REFUSE(ESPIPE);
        else TWIN(lseek(b, off, fwh));
        TRY();
        got(lseek_tx(a, off, fwh));
        break;
    case FSTAT: {
        tr(")");
        TWIN(fstat(b, &st1));
        struct stat *s = tx ? &st0 : &st0raw;
        TRY();
        if (!got(tx ? fstat_tx(a, s) : fstat_tm(a, s))) break;
        if (s->st_mode != st1.st_mode || s->st_uid != st1.st_uid || (k == REG && s->st_size != st1.st_size) || (k >= DEVNULL && k <= DEVFULL && s->st_rdev != st1.st_rdev) || s->st_nlink != st1.st_nlink)
            vf_viol("fstat", "fstat on %s gave mode %o, size %ld instead of mode %o, size %ld; ops:%s", kname[k], s->st_mode, (long)s->st_size, st1.st_mode, (long)st1.st_size, trace);
        break; }
    case FCHMOD: {
        unsigned m = k >= DEVNULL && k <= DEVFULL ? 0666 : rndn(&R, 010000);    /* has to leave real devices as they are */
        tr(",%o)", m);
        if (k == BAD) REFUSE(EBADF);
        else if (k != REG && k != DIRK) REFUSE(EINVAL);
        else TWIN(fchmod(b, m));
        TRY();
        got(fchmod_tx(a, m));
        break; }
    case FSYNC:
        tr(")");
        TWIN(fsync(b));
        TRY();
        got(fsync_tx(a));
        break;
    case ACCEPT: {
        bool noaddr = rndp(&R, 30);
        struct sockaddr_un sb = { 0 }; socklen_t lb = sizeof(sb);
        tr(")");
        sl0 = sizeof(sa0);
        int f1 = -1;
        TWIN(f1 = accept(b, noaddr ? NULL : (void*)&sb, noaddr ? NULL : &lb));
        pend = f1;
        if (f1 < 0) TRY();
        int f0 = noaddr ? (tx ? accept_tx(a, NULL, NULL) : accept_tm(a, NULL, NULL))
                        : (tx ? accept_tx(a, (void*)&sa0, &sl0) : accept_tm(a, (void*)&sa0, &sl0));
        if (f0 >= 0 && want >= 0) want = f0;
        pend = -1;
        if (!got(f0)) { if (f1 >= 0) close(f1); break; }
        acc[0][nacc] = f0; acc[1][nacc] = f1; ++nacc;
        if (!noaddr && sl0 != lb) vf_viol("accept-address", "accept returned address length %d instead of %d; ops:%s", (int)sl0, (int)lb, trace);
        /* use the connection */
        gen(wraw, 20, rnd(&R));
        cur_op = WRITE; TWIN(write(f1, wraw, 20)); if (!got(write_tm(f0, wraw, 20))) break;
        cur_op = FSTAT; TWIN(fstat(f1, &st1)); if (!got(fstat_tm(f0, &st0raw))) break;
        if (ready(f1, POLLIN)) {
            cur_op = READ; TWIN(read(f1, tbuf, 100));
            TRY();
            long r = read_tm(f0, rbuf + 2048, 100);
            if (got(r) && memcmp(rbuf + 2048, tbuf, r)) vf_viol("data", "read from an accepted connection gave wrong data; ops:%s", trace);
        }
        vf_count("connections-accepted", 1);
        break; }
    case BIND: case CONNECT: {
        int t = rndn(&R, NO + 2);
        tr(",%d)", t);
        TWIN(op == BIND ? bind(b, (void*)&addrs[1][t], addrlen) : connect(b, (void*)&addrs[1][t], addrlen));
        if (op == CONNECT && !want) ++nacc, acc[0][nacc - 1] = acc[1][nacc - 1] = -1;
        TRY();
        long r = op == BIND ? (tx ? bind_tx(a, (void*)&addrs[0][t], addrlen) : bind_tm(a, (void*)&addrs[0][t], addrlen))
                            : (tx ? connect_tx(a, (void*)&addrs[0][t], addrlen) : connect_tm(a, (void*)&addrs[0][t], addrlen));
        if (got(r)) vf_count("connected-or-bound", 1);
        break; }
    case LISTENOP: {
        int q = 6 + rndn(&R, 4);
        tr(",%d)", q);
        TWIN(listen(b, q));
        TRY();
        got(listen_tx(a, q));
        break; }
    case SHUTDOWN: {
        int h = rndn(&R, 12) ? (int)rndn(&R, 3) : 9;
        tr(",%d)", h);
        TWIN(shutdown(b, h));
        TRY();
        got(shutdown_tx(a, h));
        break; }
    case GETFL: case GETFD: case GETOWN: case BADCMD: {
        int c = op == GETFL ? F_GETFL : op == GETFD ? F_GETFD : op == GETOWN ? F_GETOWN : 999;
        tr(")");
        TWIN(fcntl(b, c));
        TRY();
        got(tx ? fcntl_tx(a, c) : fcntl_tm(a, c));
        break; }
    case SETFL: case SETFD: case SETOWN: {
        int c = op == SETFL ? F_SETFL : op == SETFD ? F_SETFD : F_SETOWN;
        int v = op == SETFL ? (rndp(&R, 50) ? O_NONBLOCK : 0) : op == SETFD ? (int)rndn(&R, 2) : rndp(&R, 50) ? (int)getpid() : 0;
        tr(",%x)", v);
        TWIN(fcntl(b, c, v));
        TRY();
        got(tx ? fcntl_tx(a, c, v) : fcntl_tm(a, c, v));
        break; }
    case GETLK: case SETLK: {    /* devices are shared with the other processes, so that they must not be locked */
        struct flock l = { .l_type = (short[]){ F_RDLCK, F_WRLCK, F_UNLCK }[op == SETLK && k >= DEVNULL && k <= DEVFULL ? 2 : rndn(&R, op == SETLK ? 3 : 2)], .l_whence = SEEK_SET, .l_start = rndn(&R, 100), .l_len = rndn(&R, 50) };
        if (k == REG && op == GETLK) l.l_whence = SEEK_SET;
        tr(",%d,%ld,%ld)", l.l_type, (long)l.l_start, (long)l.l_len);
        struct flock l1 = l, l0 = l;
        int c = op == GETLK ? F_GETLK : F_SETLK;
        if (tx) store_tx(&lk0, &l, sizeof(l));
        TWIN(fcntl(b, c, &l1));
        TRY();
        long r = tx ? fcntl_tx(a, c, &lk0) : fcntl_tm(a, c, &l0);
        if (!got(r)) break;
        if (op == GETLK) {
            if (tx) load_tx(&lk0, &l0, sizeof(l0));
            if (l0.l_type != l1.l_type || l0.l_whence != l1.l_whence || l0.l_start != l1.l_start || l0.l_len != l1.l_len)
                vf_viol("getlk", "F_GETLK on %s returned type %d at %ld+%ld instead of type %d at %ld+%ld; ops:%s", kname[k], l0.l_type, (long)l0.l_start, (long)l0.l_len, l1.l_type, (long)l1.l_start, (long)l1.l_len, trace);
        }
        break; }
    }
    seen[k][op][1]++;
    vf_count("operations", 1);
    H = vf_hash(H, &op, sizeof(op)); H = vf_hash(H, &k, sizeof(k));
}
static void check_errno(int e, const char *when)
{
    char sig[40]; snprintf(sig, sizeof(sig), "errno:%s", when);
    if (e != errno0) vf_viol(sig, "errno is %d, before the transaction it was %d; ops:%s", e, errno0, trace);
    if (cur_e != errno0 || expect_err) vf_count("errno-restored", 1);
}
static void body(void)
{
    if (execs) check_errno(errno, "restart");
    cur_e = errno0;
    if (pend >= 0) { close(pend); pend = -1; }    /* accepted by the twin only */
    if (execs++) { setup_side(1); for (int i = 0; i < nacc; ++i) if (acc[0][i] >= 0) { vf_viol("late-restart", "execution restarted after accept(); ops:%s", trace); } nacc = 0; }
    if (execs > 200) { vf_viol("unbounded", "200 executions; ops:%s", trace); exit(1); }
    tracelen = 0; trace[0] = 0;
    expect_err = 0; H = 7;
    int at = rndn(&R, tx_len + 1);
    was_irrev = picotm_is_irrevocable();
    for (int i = 0; i < tx_len && vf_more(); ++i) {
        if (i == at) {
            if (want_conf > 0 && !picotm_is_irrevocable()) { --want_conf; tr(" CONFLICT"); errno = cur_e; vf_conflict(); }
            if (want_irrev) { want_irrev = 0; tr(" IRREVOCABLE"); errno = cur_e; picotm_irrevocable(); }
        }
        one_op();
        was_irrev = picotm_is_irrevocable();
    }
    if (want_giveup && !picotm_is_irrevocable()) { expect_err = EXDEV; tr(" GIVEUP"); errno = cur_e; picotm_recover_from_errno(EXDEV); }
    vf_tick();
}
static void one_case(uint64_t c)
{
    R = vf_rng(vf_seed, c, 31);
    no = 1 + rndn(&R, NO); nacc = 0;
    int focus = rndp(&R, 60) ? (int)rndn(&R, NKIND) : -1;
    for (int i = 0; i < no; ++i) {
        struct obj *o = &O[i];
        memset(o, 0, sizeof(*o)); memset(o->fd, -1, sizeof(o->fd)); memset(o->cl, -1, sizeof(o->cl));
        o->kind = i == 0 && focus >= 0 ? focus : rndp(&R, 92) ? (int)rndn(&R, BAD) : BAD;
        if (O[0].kind == UNCONN && i == 1 && rndp(&R, 70)) o->kind = LISTEN;
        /* two descriptors of one device are not supported */
        for (int j = 0; j < i; ++j) if (o->kind >= DEVNULL && o->kind <= DEVFULL && O[j].kind == o->kind) o->kind = PIPE;
        o->nend = o->kind == PIPE || o->kind == STREAM || o->kind == DGRAM ? 2 : 1;
        o->oflags = (int[]){ O_RDWR, O_RDWR, O_RDONLY, O_WRONLY }[rndn(&R, 4)];
        o->nonblock = o->kind != REG && o->kind != DIRK && rndp(&R, 35);
        o->peerclosed = o->nend == 2 && rndp(&R, 15);
        o->npre = rndp(&R, 20) ? 0 : rndn(&R, rndp(&R, 60) ? 40 : 600);
        o->ncl = rndn(&R, 4);
        o->mode = rndn(&R, 01000); o->off = rndn(&R, o->npre + 10);
        o->data = rnd(&R);
        if (o->kind == PIPE && o->peerclosed && o->data & 1 && 0) o->npre = 0;
    }
    for (int s = 0; s < 2; ++s) setup_side(s);
    tx_len = 1 + rndn(&R, 9);
    execs = 0; want_conf = rndp(&R, 30) ? 1 + rndn(&R, 2) : 0; want_giveup = rndp(&R, 25); want_irrev = rndp(&R, 12);
    calm = rndp(&R, 50); if (calm) tx_len = tx_len * 3 / 2;
    volatile bool recovered = false;
    errno0 = cur_e = 1 + rndn(&R, 130); errno = errno0;
    picotm_begin
        body();
    picotm_commit
        recovered = true;
        if (picotm_error_is_non_recoverable()) vf_viol("non-recoverable", "non-recoverable error, status %d, errno %d; ops:%s", picotm_error_status(), picotm_error_as_errno(), trace);
        else if (picotm_error_status() != PICOTM_ERRNO) vf_viol("error-kind", "error status %d, expected errno %d; ops:%s", picotm_error_status(), expect_err, trace);
        else {
            int e = picotm_error_as_errno();
            if (e != expect_err) vf_viol("error-value", "%s on %s: recovery with errno %d, expected %d; ops:%s", oname[cur_op], kname[O[cur_obj].kind], e, expect_err, trace);
            vf_count("errors-compared", 1);
            seen[O[cur_obj].kind][cur_op][0]++;
        }
    picotm_end
    if (recovered && !was_irrev) check_errno(errno, "after abort");
    if (!recovered) { compare("after commit"); vf_count("committed", 1); if (was_irrev) vf_count("irrevocable", 1); }
    else if (!was_irrev) { setup_side(1); compare("after abort"); vf_count("aborted", 1); }
    if (execs > 1) vf_count("restarted", 1);
    close_acc();
    if (pend >= 0) { close(pend); pend = -1; }
    if (H != 7) vf_distinct(H);
    if (c < 3) vf_sample("%s", trace);
    for (int i = 0; i < no; ++i) for (int s = 0; s < 2; ++s) obj_close(&O[i], s);
}
int main(int argc, char **argv)
{
    vf_init(argc, argv);
    signal(SIGPIPE, SIG_IGN);
    snprintf(root, sizeof(root), "%s/vk%ld-%d", vf_dir, (long)vf_arg, (int)getpid());
    if (mkdir(root, 0700) || chdir(root) || mkdir("a", 0700) || mkdir("b", 0700)) die(root);
    umask(022);
    for (int s = 0; s < 2; ++s) for (int i = 0; i < NO + 2; ++i) { addrs[s][i].sun_family = AF_UNIX; name(addrs[s][i].sun_path, s, 's', i); }
    picotm_libc_set_error_recovery(PICOTM_LIBC_ERROR_RECOVERY_AUTO);
    for (uint64_t i = vf_from; i < vf_from + vf_cases && vf_more(); ++i) { vf_case(i); one_case(i); }
    uint64_t comb = 0, err = 0;
    for (int k = 0; k < NKIND; ++k) for (int o = 0; o < NOP; ++o) { comb += seen[k][o][1] != 0; err += seen[k][o][0] != 0; }
    if (getenv("VF_SEEN")) for (int k = 0; k < NKIND; ++k) for (int o = 0; o < NOP; ++o) printf("%s %s ok %lu err %lu\n", kname[k], oname[o], seen[k][o][1], seen[k][o][0]);
    vf_count("kind-operation-pairs-succeeded", comb); vf_count("kind-operation-pairs-failed", err);
    for (int s = 0; s < 2; ++s) {
        char p[40];
        for (int i = 0; i < NO + 2; ++i) { unlink(addrs[s][i].sun_path); name(p, s, 'f', i); unlink(p); name(p, s, 'p', i); unlink(p); name(p, s, 'd', i); rmdir(p); }
        rmdir(s ? "b" : "a");
    }
    if (!chdir("/")) rmdir(root);
    picotm_release();
    vf_finish(atomic_load(&vf_nviol) ? 1 : 0);
}
