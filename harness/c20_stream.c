/* C20: pipes, FIFOs and UNIX sockets in transactions.
 * mode seq: each stream has a twin that plain system calls operate on.  While a
 * transaction is speculative, its writes are only noted; when it commits, they
 * are replayed on the twin.  Irrevocable operations are made on the twin first.
 * The number of readable bytes of all streams is compared during, after and
 * between transactions and independent readers compare the data.
 * mode conc: threads send framed messages of several writes over shared streams
 * to an independent reader; others pass records on from a filled stream. */
#define _GNU_SOURCE
#include "vf_tx.h"
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-libc.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/sys/socket.h"
#include "picotm/sys/socket-tm.h"
#include <poll.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <termios.h>

enum { PIPE, FIFO, USTREAM, UDGRAM, USEQ, NKIND };
static const char *kname[] = { "pipe", "fifo", "stream", "dgram", "seqpacket" };
#define NS 6
#define NE 20
struct stream { int kind; int out[2]; size_t outb[2]; bool shut; };   /* outstanding writes towards side i */
struct end { int a, b, s, side; bool closed, mine; };
static struct stream S[NS], S0[NS]; static int ns, ns0;
static struct end E[NE], E0[NE]; static int ne, ne0;
static int avail0[NE];
static struct rng R; static uint64_t H;
static char root[160], trace[3000]; static size_t tlen;
static int expect_err, execs, want_conf, want_giveup, want_irrev; static volatile int rec_irrev;
static long nops; static bool dirty;
struct pw { int kind, e; size_t n; unsigned char *p; };     /* 0 write, 1 close */
static struct pw PW[64]; static int npw;
static int pendb[2] = { -1, -1 };
static void *bufs[200]; static int nbufs;
static void *buf_new(size_t n) { if (nbufs == 200) abort(); return bufs[nbufs++] = malloc(n ? n : 1); }
static void bufs_free(void) { while (nbufs) free(bufs[--nbufs]); }
static void fill(unsigned char *p, size_t n) { uint64_t x = rnd(&R); for (size_t i = 0; i < n; ++i) { if (i % 8 == 0) x = vf_mix(x); p[i] = x >> (8 * (i % 8)); } }
__attribute__((format(printf, 1, 2)))
static void tr(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    if (tlen < sizeof(trace) - 100) tlen += vsnprintf(trace + tlen, sizeof(trace) - tlen, fmt, ap);
    va_end(ap);
}
static void die(const char *w) { perror(w); fprintf(stderr, "ops:%s\n", trace); _exit(2); }
static int fionread(int fd) { int n = -1; return ioctl(fd, FIONREAD, &n) ? -1 : n; }
static bool can_read(const struct end *e) { return S[e->s].kind > FIFO || e->side == 0; }
static bool can_write(const struct end *e) { return S[e->s].kind > FIFO || e->side == 1; }
static bool dgram(const struct end *e) { return S[e->s].kind >= UDGRAM; }
static bool nonblock(int fd) { int f = fcntl(fd, F_GETFL); return f >= 0 && (f & O_NONBLOCK); }

static void open_pair(int kind, int *a, int fl, int id)
{
    char p[200];
    switch (kind) {
    case PIPE: if (pipe2(a, fl)) die("pipe"); break;
    case FIFO:
        snprintf(p, sizeof(p), "%s/fifo%d", root, id);
        unlink(p); if (mkfifo(p, 0600)) die("mkfifo");
        a[0] = open(p, O_RDONLY | O_NONBLOCK); a[1] = open(p, O_WRONLY | fl);
        if (a[0] < 0 || a[1] < 0) die("fifo");
        fcntl(a[0], F_SETFL, fl);
        unlink(p); break;
    default: {
        static const int ty[] = { SOCK_STREAM, SOCK_DGRAM, SOCK_SEQPACKET };
        if (socketpair(AF_UNIX, ty[kind - USTREAM] | (fl ? SOCK_NONBLOCK : 0), 0, a)) die("socketpair"); }
    }
}
static void new_stream(int kind, int fl)
{
    int a[2], b[2];
    open_pair(kind, a, fl, 1); open_pair(kind, b, fl, 2);
    S0[ns0] = (struct stream){ .kind = kind };
    for (int i = 0; i < 2; ++i) E0[ne0++] = (struct end){ .a = a[i], .b = b[i], .s = ns0, .side = i };
    ns0++;
}
static size_t rlen(void)
{
    unsigned k = rndn(&R, 100);
    return k < 4 ? 0 : k < 55 ? 1 + rndn(&R, 40) : k < 90 ? rndn(&R, 600) : rndn(&R, 3000);
}
/* raw reads on both sides that have to agree */
static void raw_read(struct end *e, size_t n, const char *when)
{
    unsigned char *p = malloc(n + 1), *q = malloc(n + 1);
    struct pollfd pf[2] = { { .fd = e->a, .events = POLLIN }, { .fd = e->b, .events = POLLIN } };
    poll(pf, 2, 0);
    if ((pf[0].revents != 0) != (pf[1].revents != 0))
        vf_viol(pf[0].revents ? "extra-data" : "missing-data", "%s: %s end is %sreadable; ops:%s", when, kname[S[e->s].kind], pf[0].revents ? "" : "not ", trace);
    else if (pf[0].revents) {
        ssize_t r = read(e->a, p, n), s = read(e->b, q, n);
        if (r != s) vf_viol("data-size", "%s: independent reader of %s got %zd bytes, expected %zd; ops:%s", when, kname[S[e->s].kind], r, s, trace);
        else if (r > 0 && memcmp(p, q, r)) vf_viol("data", "%s: independent reader of %s got other data than was sent; ops:%s", when, kname[S[e->s].kind], trace);
        vf_count("independent-reads", 1);
        if (r > 0) vf_count("bytes-received", r);
    }
    free(p); free(q);
}
static void drain(struct end *e, const char *when)
{
    for (int i = 0; i < 400; ++i) {
        struct pollfd pf = { .fd = e->b, .events = POLLIN }, pa = { .fd = e->a, .events = POLLIN };
        poll(&pf, 1, 0); poll(&pa, 1, 0);
        bool last = !(pf.revents & POLLIN);
        if (fionread(e->b) == 0 && (!dgram(e) || (pf.revents & (POLLHUP | POLLRDHUP)))) last = true;    /* end of stream */
        unsigned long v = atomic_load(&vf_nviol);
        raw_read(e, 1 + rndn(&R, 5000), when);
        if (atomic_load(&vf_nviol) != v || last) break;
    }
    S[e->s].out[e->side] = 0; S[e->s].outb[e->side] = 0;
}
static void cmp_avail(const char *when)
{
    for (int i = 0; i < ne; ++i) {
        struct end *e = &E[i];
        if (e->closed || !can_read(e)) continue;
        int a = fionread(e->a), b = fionread(e->b);
        if (a != b) { vf_viol(a > b ? "extra-data" : "missing-data", "%s: %d bytes can be read from end %d (%s), expected %d; ops:%s", when, a, i, kname[S[e->s].kind], b, trace); return; }
    }
    vf_count("availability-checks", 1);
}
static void cmp_before(const char *when)
{
    for (int i = 0; i < ne0; ++i) {
        struct end *e = &E0[i];
        if (!can_read(e)) continue;
        int a = fionread(e->a);
        if (a != avail0[i]) { vf_viol(a > avail0[i] ? "visible-early" : "lost-by-abort", "%s: %d bytes can be read from end %d (%s), expected %d; ops:%s", when, a, i, kname[S0[e->s].kind], avail0[i], trace); return; }
    }
    vf_count("invisibility-checks", 1);
}
static struct end *pick(void)
{
    for (int i = 0; i < 8; ++i) { struct end *e = &E[rndn(&R, ne)]; if (!e->closed || rndp(&R, 3)) return e; }
    return NULL;
}
static bool peer_gone(const struct end *e)
{
    struct pollfd p = { .fd = e->b, .events = POLLOUT };
    poll(&p, 1, 0);
    if (p.revents & (POLLERR | POLLHUP)) return true;
    bool open = false;
    for (int i = 0; i < ne; ++i) if (E[i].s == e->s && E[i].side != e->side && !E[i].closed) open = true;
    return !open || S[e->s].shut;
}
#define BEFORE(cond) do { if (cond) expect_err = errno; else expect_err = 0; } while (0)
static void no_error(const char *op) { vf_viol("no-error", "%s returned although it fails with errno %d; ops:%s", op, expect_err, trace); }
static void op(void)
{
    struct end *e = pick(); if (!e) return;
    int ei = e - E, k = rndn(&R, 24); bool tm = rndp(&R, 40), irr = picotm_is_irrevocable();
    struct stream *st = &S[e->s];
    unsigned char *p, *q; size_t n; ssize_t r, s = 0;
    bool sock = st->kind > FIFO; int fl;
    nops++;
    H = vf_hash(H, &k, sizeof(k)); H = vf_hash(H, &ei, sizeof(ei));
    if (e->closed) {
        n = rlen(); p = buf_new(n); fill(p, n);
        tr(" closed:"); expect_err = EBADF;
        switch (k % 3) {
        case 0: tr(" write(%d)", ei); tm ? write_tm(e->a, p, n) : write_tx(e->a, p, n); break;
        case 1: tr(" read(%d)", ei); tm ? read_tm(e->a, p, n) : read_tx(e->a, p, n); break;
        case 2: tr(" dup(%d)", ei); dup_tx(e->a); break;
        }
        no_error("operation on a closed descriptor");
        return;
    }
    switch (k) {
    case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 8: {
        bool snd = sock && k >= 5;
        if (!can_write(e) && !rndp(&R, 8)) return;
        n = rlen(); fl = 0;
        bool nb = nonblock(e->b);
        if (nb && rndp(&R, 40)) n = rndn(&R, 60000);
        if (snd && rndp(&R, 12)) fl = rndp(&R, 50) ? MSG_NOSIGNAL : MSG_DONTWAIT;
        bool through = irr || nb || fl;
        if (!can_write(e)) through = true;
        if (peer_gone(e) && !irr) { if (nb || fl) { irr = false; } else return; }
        if (!nb && !(fl & MSG_DONTWAIT) && can_write(e) && (st->out[!e->side] >= (dgram(e) ? 8 : 10) || st->outb[!e->side] > 20000)) return;
        if (irr && !nb && !(fl & MSG_DONTWAIT) && dgram(e)) { struct pollfd pf = { .fd = e->b, .events = POLLOUT }; if (!poll(&pf, 1, 0)) return; }
        if (n > 1000 && !rndp(&R, 3)) tm = true;    /* large transactional buffers are slow */
        p = buf_new(n); fill(p, n); q = malloc(n + 1); memcpy(q, p, n);
        tr(" %s%s(%d,%zu,%x%s)", snd ? "send" : "write", tm ? "_tm" : "", ei, n, fl, nb ? ",nb" : "");
        H = vf_hash(H, &n, sizeof(n));
        expect_err = 0; s = n; int se = 0;
        if (!can_write(e)) { expect_err = EBADF; }
        else if (irr) {
            errno = 0;
            s = snd ? send(e->b, q, n, fl) : write(e->b, q, n); se = errno;
            if (s < 0 && se != EAGAIN) expect_err = se;
        } else if (through) { dirty = true; }
        if (can_write(e) && !expect_err && s >= 0) { st->out[!e->side]++; st->outb[!e->side] += n; }
        free(q); q = NULL;
        errno = 0;
        r = snd ? (tm ? send_tm(e->a, p, n, fl) : send_tx(e->a, p, n, fl)) : (tm ? write_tm(e->a, p, n) : write_tx(e->a, p, n));
        int re = errno;
        if (expect_err) { no_error("write"); break; }
        if (!irr && through) { tr(" REVOCABLE!"); vf_viol("revocable-stream", "an operation whose result is immediate was not made irrevocable; ops:%s", trace); break; }
        if (r != s) vf_viol("write-result", "write of %zu bytes returned %zd, expected %zd; ops:%s", n, r, s, trace);
        else if (s < 0 && re != se) vf_viol("write-errno", "write failed with errno %d, expected %d; ops:%s", re, se, trace);
        if (s < 0) vf_count("writes-would-block", 1);
        if (!irr) {
            if (npw < 64) { q = malloc(n + 1); memcpy(q, p, n); PW[npw++] = (struct pw){ 0, ei, n, q }; }
            vf_count("deferred-writes", 1);
        } else vf_count("direct-writes", 1);
        /* the buffer belongs to the caller again */
        if (tm) memset(p, 0x5a, n); else { char z = 0x5a; for (size_t i = 0; i < n && i < 64; ++i) store_tx(p + i, &z, 1); }
        break; }
    case 9: case 10: case 11: case 12: case 13: case 14: case 15: {
        bool rec = sock && k >= 12; fl = 0;
        if (!can_read(e) && !rndp(&R, 8)) return;
        n = rndp(&R, 5) ? 0 : rndp(&R, 60) ? 1 + rndn(&R, 60) : rndn(&R, 4000);
        if (rec && rndp(&R, 30)) fl = rndp(&R, 60) ? MSG_PEEK : MSG_DONTWAIT;
        if (rec && n && rndp(&R, 6)) fl |= MSG_TRUNC;
        if (sock && !dgram(e)) fl &= ~MSG_TRUNC;
        bool nb = nonblock(e->b) || (fl & MSG_DONTWAIT);
        struct pollfd pf = { .fd = e->b, .events = POLLIN };
        if (can_read(e) && !nb && (n || sock) && (!poll(&pf, 1, 0) || !pf.revents)) return;
        if (n > 1000 && !rndp(&R, 3)) tm = true;
        p = buf_new(n); q = buf_new(n); memset(p, 0xee, n); memset(q, 0xee, n);
        tr(" %s%s(%d,%zu,%x%s)", rec ? "recv" : "read", tm ? "_tm" : "", ei, n, fl, nb ? ",nb" : "");
        H = vf_hash(H, &n, sizeof(n));
        expect_err = 0; int se = 0;
        if (irr) { errno = 0; s = rec ? recv(e->b, q, n, fl) : read(e->b, q, n); se = errno; if (s < 0 && se != EAGAIN) expect_err = se; }
        else dirty = true;
        errno = 0;
        r = rec ? (tm ? recv_tm(e->a, p, n, fl) : recv_tx(e->a, p, n, fl)) : (tm ? read_tm(e->a, p, n) : read_tx(e->a, p, n));
        int re = errno;
        if (expect_err) { no_error("read"); break; }
        if (!irr) { vf_viol("revocable-stream", "a read was not made irrevocable; ops:%s", trace); break; }
        if (r != s) vf_viol("read-result", "read of %zu bytes returned %zd, expected %zd; ops:%s", n, r, s, trace);
        else if (s < 0 && re != se) vf_viol("read-errno", "read failed with errno %d, expected %d; ops:%s", re, se, trace);
        else if (s >= 0 && memcmp(p, q, n)) vf_viol("read-data", "read of %zu bytes (%zd) delivered other data than was sent, or wrote behind it; ops:%s", n, s, trace);
        vf_count("reads", 1); if (s == 0 && n) vf_count("reads-at-end", 1); if (s < 0) vf_count("reads-would-block", 1); if (s > 0 && s < (ssize_t)n) vf_count("short-reads", 1);
        break; }
    case 16:
        if (ne > NE - 3) return;
        tr(" dup(%d)", ei); pendb[0] = dup(e->b); expect_err = 0; r = dup_tx(e->a);
        E[ne] = *e; E[ne].a = r; E[ne].b = pendb[0]; E[ne].mine = true; ne++; pendb[0] = -1;
        vf_count("dups", 1); break;
    case 17: case 18:
        if (rndp(&R, 50)) return;
        tr(" close(%d)", ei); expect_err = 0; r = close_tx(e->a);
        if (r) vf_viol("close-result", "close returned %zd; ops:%s", r, trace);
        e->closed = true; PW[npw++] = (struct pw){ 1, ei };
        vf_count("closes", 1); break;
    case 19: case 20:
        if (rndp(&R, 50)) return;
        fl = fcntl(e->b, F_GETFL) ^ O_NONBLOCK;
        tr(" setfl(%d,%d)", ei, !!(fl & O_NONBLOCK));
        expect_err = 0;
        if (irr) s = fcntl(e->b, F_SETFL, fl); else dirty = true;
        r = fcntl_tx(e->a, F_SETFL, fl);
        if (r != s) vf_viol("fcntl-result", "F_SETFL returned %zd; ops:%s", r, trace);
        vf_count("nonblock-switches", 1); break;
    case 21:
        if (!sock || rndp(&R, 60)) return;
        fl = rndp(&R, 60) ? SHUT_WR : SHUT_RD;
        tr(" shutdown(%d,%d)", ei, fl);
        expect_err = 0;
        if (irr) { s = shutdown(e->b, fl); BEFORE(s < 0); } else dirty = true;
        r = rndp(&R, 50) ? shutdown_tx(e->a, fl) : shutdown_tx(e->a, fl);
        if (expect_err) { no_error("shutdown"); break; }
        if (r != s) vf_viol("shutdown-result", "shutdown returned %zd; ops:%s", r, trace);
        st->shut = true;
        vf_count("shutdowns", 1); break;
    case 22: {
        if (ne > NE - 3 || ns > NS - 1) return;
        int fd[2], fb[2]; int *pf = tm ? fd : buf_new(sizeof(fd));
        tr(" pipe%s", tm ? "_tm" : "");
        if (pipe(fb)) die("pipe"); memcpy(pendb, fb, sizeof(fb)); expect_err = 0;
        r = tm ? pipe_tm(pf) : pipe_tx(pf);
        if (r) vf_viol("pipe-result", "pipe returned %zd", r);
        S[ns] = (struct stream){ .kind = PIPE };
        for (int i = 0; i < 2; ++i) E[ne++] = (struct end){ .a = pf[i], .b = fb[i], .s = ns, .side = i, .mine = true };
        ns++; pendb[0] = pendb[1] = -1;
        vf_count("pipes", 1); break; }
    case 23:
        tr(" getfl(%d)", ei); expect_err = 0; fl = fcntl(e->b, F_GETFL);
        r = fcntl_tx(e->a, F_GETFL);
        if (r != fl) vf_viol("fcntl-result", "F_GETFL returned %zx, expected %x; ops:%s", (size_t)r, fl, trace);
        break;
    }
}
static void pw_free(void) { for (int i = 0; i < npw; ++i) free(PW[i].p); npw = 0; }
static void pw_apply(void)
{
    for (int i = 0; i < npw; ++i) {
        struct pw *w = &PW[i];
        if (w->kind == 1) { close(E[w->e].b); continue; }
        ssize_t s = write(E[w->e].b, w->p, w->n);
        if (s != (ssize_t)w->n) { fprintf(stderr, "twin write %zd of %zu: errno %d; ops:%s\n", s, w->n, errno, trace); exit(2); }
    }
    pw_free();
}
static void twin_drop(void)
{
    for (int i = 0; i < 2; ++i) if (pendb[i] >= 0) { close(pendb[i]); pendb[i] = -1; }
    for (int i = ne0; i < ne; ++i) close(E[i].b);
    memcpy(E, E0, sizeof(E)); ne = ne0; memcpy(S, S0, sizeof(S)); ns = ns0;
    pw_free(); bufs_free();
}
static void body(void)
{
    ++execs;
    if (execs > 1) { cmp_before("restart"); twin_drop(); }
    tlen = 0; trace[0] = 0; expect_err = 0; H = 7; dirty = false;
    int n = 1 + rndn(&R, 12), at = rndn(&R, n + 1);
    rec_irrev = picotm_is_irrevocable();
    for (int i = 0; i <= n; ++i) {
        if (i == at) {
            if (want_conf > 0 && !picotm_is_irrevocable()) { --want_conf; expect_err = 0; tr(" CONFLICT"); vf_conflict(); }
            if (want_giveup) { want_giveup = 0; if (!picotm_is_irrevocable()) { expect_err = -5; tr(" GIVEUP"); picotm_recover_from_errno(EXDEV); } }
            if (want_irrev) { want_irrev = 0; expect_err = 0; tr(" IRREV"); picotm_irrevocable(); }
        }
        if (i == n) break;
        expect_err = 0;
        op();
        if (!picotm_is_irrevocable()) { if (rndp(&R, 30)) cmp_before("speculative"); } else if (rndp(&R, 30)) cmp_avail("irrevocable");
    }
    vf_count("operations", n);
}
static volatile bool recovered;
static void run_tx(void)
{
    recovered = false; execs = 0;
    picotm_begin
        body();
    picotm_commit
        recovered = true;
        if (picotm_error_is_non_recoverable()) vf_viol("non-recoverable", "non-recoverable error, status %d, errno %d; ops:%s", picotm_error_status(), (int)picotm_error_as_errno(), trace);
        else if (picotm_error_status() != PICOTM_ERRNO) vf_viol("error-kind", "error status %d, expected errno %d; ops:%s", picotm_error_status(), expect_err, trace);
        else {
            int e = (int)picotm_error_as_errno(), want = expect_err == -5 ? EXDEV : expect_err;
            if (e != want) vf_viol("error-value", "recovery with errno %d, expected %d; ops:%s", e, want, trace);
        }
    picotm_end
}
/* connection set-up of sockets, from end to end */
static void scenario_connect(void)
{
    struct sockaddr_un sa = { .sun_family = AF_UNIX };
    snprintf(sa.sun_path, sizeof(sa.sun_path), "%s/sock", root);
    unlink(sa.sun_path);
    char msg[64], got[80]; int n = 1 + rndn(&R, 60); fill((void*)msg, n); memset(got, 0, sizeof(got));
    volatile int ls = -1, cs = -1, as = -1, ok = 0; volatile ssize_t r1 = 0, r2 = 0; bool tm = rndp(&R, 50), later = rndp(&R, 50);
    static char tmsg[64]; memcpy(tmsg, msg, 64); static struct sockaddr_un tsa; tsa = sa;
    picotm_begin
        ok = 0;
        int l = socket_tx(AF_UNIX, SOCK_STREAM, 0);
        if (tm) bind_tm(l, (void*)&sa, sizeof(sa)); else bind_tx(l, (void*)&tsa, sizeof(tsa));
        listen_tx(l, 5);
        int c = socket_tx(AF_UNIX, SOCK_STREAM, 0);
        if (tm) connect_tm(c, (void*)&sa, sizeof(sa)); else connect_tx(c, (void*)&tsa, sizeof(tsa));
        if (tm) r1 = send_tm(c, msg, n, 0); else r1 = send_tx(c, tmsg, n, 0);
        ls = l; cs = c;
        if (!later) { as = tm ? accept_tm(l, NULL, NULL) : accept_tx(l, NULL, NULL); r2 = recv_tm(as, got, sizeof(got), 0); }
        ok = 1;
    picotm_commit
        vf_viol("connect", "connecting sockets failed with status %d errno %d", picotm_error_status(), (int)picotm_error_as_errno());
    picotm_end
    if (ok && later) {
        picotm_begin
            as = accept_tm(ls, NULL, NULL); r2 = recv_tm(as, got, sizeof(got), 0);
        picotm_commit
            vf_viol("connect", "accept failed with status %d errno %d", picotm_error_status(), (int)picotm_error_as_errno());
        picotm_end
    }
    if (ok && (r1 != n || r2 != n || memcmp(msg, got, n))) vf_viol("connect-data", "sent %zd, received %zd of %d bytes", (ssize_t)r1, (ssize_t)r2, n);
    close(ls); close(cs); close(as);
    unlink(sa.sun_path);
    vf_count("connections", 1);
}
/* terminals: delivery is asynchronous, so wait for it */
static bool await(int fd, int n) { for (int i = 0; i < 4000; ++i) { if (fionread(fd) >= n) return true; struct timespec ts = { 0, 1000000 }; nanosleep(&ts, NULL); } return false; }
static void scenario_terminal(void)
{
    int m = posix_openpt(O_RDWR | O_NOCTTY);
    if (m < 0 || grantpt(m) || unlockpt(m)) { vf_count("terminals-unavailable", 1); if (m >= 0) close(m); return; }
    int sl = open(ptsname(m), O_RDWR | O_NOCTTY);
    if (sl < 0) { vf_count("terminals-unavailable", 1); close(m); return; }
    struct termios t; tcgetattr(sl, &t); cfmakeraw(&t); t.c_cc[VMIN] = 1; t.c_cc[VTIME] = 0; tcsetattr(sl, TCSANOW, &t);
    static unsigned char in[400], out[2000], got[2000], tbuf[256], back[300];
    for (int round = 0; round < 3; ++round) {
        volatile int nout = 0, tries = 0, conf = rndp(&R, 40), give = rndp(&R, 25); volatile bool gave = false;
        picotm_begin
            nout = 0; ++tries;
            int n = 1 + rndn(&R, 4), at = rndn(&R, n);
            for (int i = 0; i < n; ++i) {
                int k = 1 + rndn(&R, 200); fill(out + nout, k);
                ssize_t r;
                if (rndp(&R, 50)) r = write_tm(sl, out + nout, k); else { store_tx(tbuf, out + nout, k); r = write_tx(sl, tbuf, k); }
                if (r != k) vf_viol("write-result", "write to a terminal returned %zd of %d", r, k);
                nout += k;
                if (i == at && !picotm_is_irrevocable()) { if (tries <= conf) vf_conflict(); if (give) { gave = true; picotm_recover_from_errno(EXDEV); } }
            }
        picotm_commit
            if (!gave) vf_viol("error", "terminal: status %d errno %d", picotm_error_status(), (int)picotm_error_as_errno());
        picotm_end
        int want = gave ? 0 : nout, n = 0;
        if (!await(m, want)) vf_viol("missing-data", "terminal delivered %d of %d bytes", fionread(m), want);
        else {
            if (gave) usleep(2000);
            int f = fionread(m);
            if (f > 0) n = read(m, got, sizeof(got));
            if (n != want || memcmp(got, out, n)) vf_viol("data", "terminal received %d bytes, expected %d", n, want);
        }
        int k = 1 + rndn(&R, 200); volatile ssize_t r = 0; bool tm = rndp(&R, 50);
        fill(in, k);
        if (write(m, in, k) != k || !await(sl, k)) { vf_count("terminal-input-late", 1); break; }
        memset(back, 0xee, sizeof(back)); memset(got, 0xee, 300);
        picotm_begin
            r = tm ? read_tm(sl, got, 300) : read_tx(sl, back, 300);
        picotm_commit
            vf_viol("error", "terminal: status %d errno %d", picotm_error_status(), (int)picotm_error_as_errno());
        picotm_end
        if (r != k || memcmp(tm ? got : back, in, k)) vf_viol("read-result", "read from a terminal returned %zd, expected %d", (ssize_t)r, k);
    }
    close(sl); close(m);
    vf_count("terminals", 1);
}
static void one_case(uint64_t c)
{
    R = vf_rng(vf_seed, c, 20);
    ns0 = ne0 = 0;
    int k = 1 + rndn(&R, 3);
    for (int i = 0; i < k; ++i) new_stream(rndn(&R, NKIND), rndp(&R, 20) ? O_NONBLOCK : 0);
    uint64_t HH = 1; nops = 0; tlen = 0; trace[0] = 0;
    if (rndp(&R, 10)) scenario_connect();
    if (rndp(&R, 4)) scenario_terminal();
    int ntx = 1 + rndn(&R, 5);
    memcpy(E, E0, sizeof(E)); ne = ne0; memcpy(S, S0, sizeof(S)); ns = ns0;
    for (int t = 0; t < ntx && vf_more(); ++t) {
        want_conf = rndp(&R, 35) ? 1 + rndn(&R, 3) : 0; want_giveup = rndp(&R, 20); want_irrev = rndp(&R, 30);
        for (int i = 0; i < ne0; ++i) avail0[i] = can_read(&E0[i]) ? fionread(E0[i].a) : 0;
        unsigned long v = atomic_load(&vf_nviol);
        run_tx();
        HH = vf_hash(HH, &H, sizeof(H));
        if (atomic_load(&vf_nviol) != v) break;
        if (execs > 1) vf_count("restarted", 1);
        if (recovered) {
            vf_count("aborted", 1);
            if (!rec_irrev) cmp_before("after abort");
            struct stream keep[NS]; memcpy(keep, S, sizeof(S));
            bool irr = rec_irrev;
            twin_drop();
            if (irr) memcpy(S, keep, sizeof(S));
        } else {
            vf_count("committed", 1);
            pw_apply(); bufs_free();
            for (int i = 0; i < ne; ++i) if (E[i].closed && fcntl(E[i].a, F_GETFD) >= 0) vf_viol("not-closed", "end %d is still open; ops:%s", i, trace);
        }
        cmp_avail("after transaction");
        /* drop closed ends */
        int j = 0;
        for (int i = 0; i < ne; ++i) if (!E[i].closed) { E[j] = E[i]; E[j++].mine = false; }
        ne = j;
        for (int i = 0; i < ne; ++i) {
            if (rndp(&R, 12) && can_read(&E[i])) raw_read(&E[i], 1 + rndn(&R, 300), "between transactions");
            struct stream *s = &S[E[i].s];
            if (can_read(&E[i]) && (s->out[E[i].side] >= 6 || rndp(&R, 15))) drain(&E[i], "between transactions");
        }
        memcpy(E0, E, sizeof(E)); ne0 = ne; memcpy(S0, S, sizeof(S)); ns0 = ns;
        if (!ne) break;
    }
    if (vf_more()) for (int i = 0; i < ne; ++i) if (!E[i].closed && can_read(&E[i])) drain(&E[i], "at the end");
    pw_free(); bufs_free();
    for (int i = 0; i < ne; ++i) { if (!E[i].closed) close(E[i].a); close(E[i].b); }
    if (nops > 3) vf_distinct(HH);
}

/* ---- concurrent ---- */
#define MAXTH 8
#define CHUNKS 5
#define BIG 9000
struct hdr { uint32_t magic; uint16_t th, len; uint32_t seq; uint16_t idx, cnt; };
struct tx { uint64_t ticket; uint8_t nch; uint8_t st[CHUNKS]; uint16_t len[CHUNKS]; bool committed; };
struct th { pthread_t t; int id; struct rng r; struct vf_txmon mon; struct tx *tx; volatile uint32_t n; uint32_t maxn; };
static struct th T[MAXTH];
static int nth, nst, bigpct, slow, cs[3][2], ckind[3], infd[2], outfd[2], delaypct;
static _Atomic int running;
static pthread_barrier_t bar;
static void payload(unsigned char *p, const struct hdr *h) { uint64_t x = ((uint64_t)h->th << 48) ^ ((uint64_t)h->seq << 8) ^ h->idx; for (int i = 0; i < h->len; ++i) { if (i % 8 == 0) x = vf_mix(x); p[i] = x >> (8 * (i % 8)); } }
static void *sender(void *arg)
{
    struct th *t = arg;
    vf_txmon_register(&t->mon);
    pthread_barrier_wait(&bar);
    static __thread unsigned char buf[BIG + 200], tbuf[1200] __attribute__((aligned(64)));
    vf_storm_here();
    for (t->n = 0; t->n < t->maxn; ++t->n) {
        struct tx *x = &t->tx[t->n];
        volatile bool gave = false; volatile int tries = 0;
        int wantconf = rndp(&t->r, 15) ? 1 + rndn(&t->r, 2) : 0; bool giveup = rndp(&t->r, 10), irrev = rndp(&t->r, 6);
        picotm_begin
            ++tries;
            if (irrev) picotm_irrevocable();
            int n = 1 + rndn(&t->r, CHUNKS), at = rndn(&t->r, n + 1);
            x->nch = n;
            int cnt[3] = { 0 }, tot[3] = { 0 };
            for (int i = 0; i < n; ++i) { x->st[i] = rndn(&t->r, nst); x->len[i] = rndp(&t->r, bigpct) ? rndn(&t->r, BIG) : rndp(&t->r, 70) ? rndn(&t->r, 30) : rndn(&t->r, 1000); tot[x->st[i]]++; }
            for (int i = 0; i <= n; ++i) {
                if (i == at && !picotm_is_irrevocable()) {
                    if (tries <= wantconf) vf_conflict();
                    if (giveup) { gave = true; picotm_recover_from_errno(EXDEV); }
                }
                if (i == n) break;
                int s = x->st[i];
                struct hdr h = { 0xfeedface, t->id, x->len[i], t->n, cnt[s]++, tot[s] };
                memcpy(buf, &h, sizeof(h)); payload(buf + sizeof(h), &h);
                size_t len = sizeof(h) + h.len; ssize_t r;
                if (len > sizeof(tbuf) || rndp(&t->r, 50)) r = ckind[s] > FIFO && rndp(&t->r, 50) ? send_tm(cs[s][1], buf, len, 0) : write_tm(cs[s][1], buf, len);
                else { store_tx(tbuf, buf, len); r = ckind[s] > FIFO && rndp(&t->r, 50) ? send_tx(cs[s][1], tbuf, len, 0) : write_tx(cs[s][1], tbuf, len); }
                if (r != (ssize_t)len) vf_viol("write-result", "write of %zu bytes returned %zd", len, r);
                vf_tick(); vf_delay(&t->r, delaypct);
            }
        picotm_commit
            if (!gave || picotm_error_is_non_recoverable()) vf_viol("error", "thread %d: unexpected recovery, status %d errno %d", t->id, picotm_error_status(), (int)picotm_error_as_errno());
        picotm_end
        x->ticket = t->mon.ticket; x->committed = !gave;
        if (tries > 1) vf_count("restarts", tries - 1);
        if (gave) vf_count("gave-up", 1); else vf_count("messages-committed", 1);
        vf_tick();
    }
    atomic_fetch_sub(&running, 1);
    picotm_release();
    return NULL;
}
/* moves records from one stream to another one */
static void *mover(void *arg)
{
    struct th *t = arg;
    vf_storm_here();
    pthread_barrier_wait(&bar);
    for (volatile int end = 0; !end;) {
        volatile int tries = 0;
        picotm_begin
            ++tries;
            unsigned char b[64];
            int n = 1 + rndn(&t->r, 4);
            for (int i = 0; i < n; ++i) {
                ssize_t r = read_tm(infd[0], b, 16);
                if (r < 0) { end = 1; break; }
                if (r != 16) { vf_viol("read-result", "read of a record returned %zd", r); end = 1; break; }
                vf_delay(&t->r, delaypct);
                r = write_tm(outfd[1], b, 16);
                if (r != 16) vf_viol("write-result", "write of a record returned %zd", r);
            }
        picotm_commit
            vf_viol("error", "mover: unexpected recovery, status %d errno %d", picotm_error_status(), (int)picotm_error_as_errno()); end = 1;
        picotm_end
        vf_tick();
    }
    atomic_fetch_sub(&running, 1);
    picotm_release();
    return NULL;
}
/* waits for a peer in each operation, while signals arrive */
enum { BREAD, BRECV, BACCEPT, BCONNECT, BOPEN, NBLK };
static struct { int kind, n; unsigned delay; unsigned char data[64]; bool tx; } bstep[64];
static int nbstep, bpipe[2], bsock[2], blisten; static char bpath[200], bfifo[200]; static _Atomic int bnow, bdone;
static void *peer(void *arg)
{
    struct sockaddr_un sa = { .sun_family = AF_UNIX }; strcpy(sa.sun_path, bpath);
    for (int i = 0; i < nbstep; ++i) {
        unsigned char got[64]; ssize_t r = 0;
        while (atomic_load(&bnow) < i) { struct timespec ts = { 0, 20000 }; nanosleep(&ts, NULL); }
        struct timespec ts = { 0, 1000 * (long)bstep[i].delay }; nanosleep(&ts, NULL);
        int n = bstep[i].n, fd;
        switch (bstep[i].kind) {
        case BREAD: r = write(bpipe[1], bstep[i].data, n); break;
        case BRECV: r = write(bsock[1], bstep[i].data, n); break;
        case BACCEPT: fd = socket(AF_UNIX, SOCK_STREAM, 0); if (connect(fd, (void*)&sa, sizeof(sa))) die("connect"); r = write(fd, bstep[i].data, n); close(fd); break;
        case BCONNECT: fd = accept(blisten, NULL, NULL); if (fd < 0) die("accept"); while (r < n) { ssize_t k = read(fd, got + r, n - r); if (k <= 0) break; r += k; } close(fd); break;
        case BOPEN: fd = open(bfifo, O_RDONLY); if (fd < 0) die("fifo"); while (r < n) { ssize_t k = read(fd, got + r, n - r); if (k <= 0) break; r += k; } close(fd); break;
        }
        if (r != n || ((bstep[i].kind == BCONNECT || bstep[i].kind == BOPEN) && memcmp(got, bstep[i].data, n)))
            vf_viol("blocking-data", "step %d of kind %d: %zd of %d bytes were exchanged", i, bstep[i].kind, r, n);
        atomic_store(&bdone, i);
    }
    return NULL;
}
static void *blocker(void *arg)
{
    struct th *t = arg;
    vf_storm_here();
    pthread_barrier_wait(&bar);
    struct sockaddr_un sa = { .sun_family = AF_UNIX }; strcpy(sa.sun_path, bpath);
    static __thread unsigned char tgot[64] __attribute__((aligned(64)));
    for (int i = 0; i < nbstep; ++i) {
        volatile ssize_t r = -2; volatile int fd = -1; int n = bstep[i].n; bool tx = bstep[i].tx; unsigned char got[64];
        picotm_begin
            if (bstep[i].kind >= BACCEPT) picotm_irrevocable();    /* the peer would notice connections of aborted executions */
            atomic_store(&bnow, i);
            switch (bstep[i].kind) {
            case BREAD: r = tx ? read_tx(bpipe[0], tgot, 64) : read_tm(bpipe[0], got, 64); break;
            case BRECV: r = n & 1 ? tx ? recv_tx(bsock[0], tgot, 64, 0) : recv_tm(bsock[0], got, 64, 0) : tx ? read_tx(bsock[0], tgot, 64) : read_tm(bsock[0], got, 64); break;
            case BACCEPT: fd = accept_tm(blisten, NULL, NULL); r = tx ? recv_tx(fd, tgot, 64, 0) : recv_tm(fd, got, 64, 0); close_tx(fd); break;
            case BCONNECT: fd = socket_tx(AF_UNIX, SOCK_STREAM, 0); r = connect_tm(fd, (void*)&sa, sizeof(sa)); if (r) vf_viol("blocking-connect", "connect returned %zd", (ssize_t)r); r = send_tm(fd, bstep[i].data, n, 0); break;
            case BOPEN: fd = open_tm(bfifo, O_WRONLY); r = write_tm(fd, bstep[i].data, n); close_tx(fd); break;
            }
        picotm_commit
            vf_viol("blocking-error", "step %d of kind %d: unexpected recovery, status %d errno %d", i, bstep[i].kind, picotm_error_status(), (int)picotm_error_as_errno());
        picotm_end
        if (bstep[i].kind == BCONNECT) close(fd);
        if (r != n) vf_viol("blocking-result", "step %d of kind %d returned %zd instead of %d", i, bstep[i].kind, (ssize_t)r, n);
        else if (bstep[i].kind < BCONNECT) { if (tx) memcpy(got, tgot, n); if (memcmp(got, bstep[i].data, n)) vf_viol("blocking-data", "step %d of kind %d read other data", i, bstep[i].kind); }
        while (atomic_load(&bdone) < i) { struct timespec ts = { 0, 20000 }; nanosleep(&ts, NULL); }
        vf_count("blocking-operations", 1);
        vf_tick();
    }
    atomic_fetch_sub(&running, 1);
    picotm_release();
    return NULL;
}
struct rd { int s; unsigned char *p; size_t n, cap; pthread_t t; };
static void *reader(void *arg)
{
    struct rd *d = arg;
    for (;;) {
        struct pollfd pf = { .fd = cs[d->s][0], .events = POLLIN };
        int done = !atomic_load(&running);
        int k = poll(&pf, 1, done ? 0 : 20);
        if (k <= 0) { if (done) return NULL; continue; }
        if (d->n + 70000 > d->cap) { d->cap = d->cap * 2 + 140000; d->p = realloc(d->p, d->cap); }
        if (slow && d->n % 101 < (unsigned)slow) { struct timespec ts = { 0, 300000 }; nanosleep(&ts, NULL); }
        ssize_t r = read(cs[d->s][0], d->p + d->n, 65536);
        if (r <= 0) return NULL;
        d->n += r; vf_tick();
    }
}
static void check_stream(struct rd *d, uint64_t *HH)
{
    size_t o = 0; uint32_t nexti = 0; struct hdr prev = { 0 }; uint64_t lastticket = 0;
    static uint32_t seen[MAXTH][512]; memset(seen, 0, sizeof(seen));
    unsigned char exp[BIG + 100];
    while (o < d->n) {
        struct hdr h;
        if (d->n - o < sizeof(h)) { vf_viol("torn", "stream ends within a header"); return; }
        memcpy(&h, d->p + o, sizeof(h));
        if (h.magic != 0xfeedface || h.th >= nth || h.seq >= T[h.th].maxn || h.len > BIG || h.idx >= h.cnt) { vf_viol("torn", "no message header at byte %zu of the stream (%s)", o, kname[ckind[d->s]]); return; }
        if (d->n - o - sizeof(h) < h.len) { vf_viol("torn", "stream ends within a message"); return; }
        payload(exp, &h);
        if (memcmp(exp, d->p + o + sizeof(h), h.len)) { vf_viol("torn", "message of thread %d, transaction %u is garbled", h.th, h.seq); return; }
        if (nexti && (h.th != prev.th || h.seq != prev.seq || h.idx != nexti)) { vf_viol("interleaved", "transaction %d/%u was interrupted after %u of %u writes by %d/%u", prev.th, prev.seq, nexti, prev.cnt, h.th, h.seq); return; }
        if (!nexti && h.idx) { vf_viol("order", "transaction %d/%u starts with write %u", h.th, h.seq, h.idx); return; }
        struct tx *x = &T[h.th].tx[h.seq];
        if (!x->committed) { vf_viol("aborted-visible", "data of aborted transaction %d/%u was delivered", h.th, h.seq); return; }
        if (!h.idx) {
            if (seen[h.th][h.seq]++) { vf_viol("duplicate", "transaction %d/%u was delivered twice", h.th, h.seq); return; }
            if (x->ticket <= lastticket) { vf_viol("commit-order", "transaction %d/%u was delivered out of commit order", h.th, h.seq); return; }
            lastticket = x->ticket;
            *HH = vf_hash(*HH, &h.th, 2);
        }
        int j = -1, c = 0;
        for (int i = 0; i < x->nch; ++i) if (x->st[i] == d->s && c++ == h.idx) j = i;
        if (j < 0 || x->len[j] != h.len) { vf_viol("stale", "transaction %d/%u delivered a write of an aborted execution", h.th, h.seq); return; }
        nexti = h.idx + 1 == h.cnt ? 0 : h.idx + 1; prev = h;
        o += sizeof(h) + h.len;
        vf_count("messages-received", 1);
    }
    if (nexti) vf_viol("torn", "transaction %d/%u was delivered incompletely", prev.th, prev.seq);
    for (int i = 0; i < nth; ++i) for (uint32_t q = 0; q < T[i].maxn; ++q) {
        struct tx *x = &T[i].tx[q]; bool has = false;
        if (!x->committed) continue;
        for (int k = 0; k < x->nch; ++k) if (x->st[k] == d->s) has = true;
        if (has && !seen[i][q]) { vf_viol("lost", "committed transaction %d/%u was not delivered", i, q); return; }
    }
    vf_count("streams-checked", 1);
}
static void conc_case(uint64_t c)
{
    R = vf_rng(vf_seed, c, 21);
    nth = 2 + rndn(&R, vf_threads - 1); if (nth > MAXTH) nth = MAXTH;
    int nmov = rndp(&R, 30) ? 1 + rndn(&R, 2) : 0;
    nst = 1 + rndn(&R, 2); if (rndp(&R, 10)) nst = 3;
    delaypct = rndn(&R, 4) * 10;
    int nrec = 0, nblk = rndp(&R, 30);
    slow = rndn(&R, 3) * 20;
    bigpct = rndp(&R, 50) ? 5 + rndn(&R, 30) : 0;
    vf_storm_begin(rndp(&R, 60) ? 10 + rndn(&R, 200) : 0, c);
    for (int i = 0; i < nst; ++i) { ckind[i] = rndn(&R, NKIND); open_pair(ckind[i], cs[i], 0, 3); if (ckind[i] <= FIFO && rndp(&R, 70)) fcntl(cs[i][1], F_SETPIPE_SZ, 4096);
        if (ckind[i] == USTREAM && rndp(&R, 70)) { int one = 1; setsockopt(cs[i][1], SOL_SOCKET, SO_SNDBUF, &one, sizeof(one)); } }
    if (nmov) {
        if (pipe(infd) || pipe(outfd)) die("pipe");
        nrec = 20 + rndn(&R, 200);
        for (int i = 0; i < nrec; ++i) { uint64_t v[2] = { i, vf_mix(i) }; if (write(infd[1], v, 16) != 16) die("fill"); }
        fcntl(infd[0], F_SETFL, O_NONBLOCK);
    }
    struct th B; pthread_t pt; memset(&B, 0, sizeof(B));
    if (nblk) {
        nbstep = 1 + rndn(&R, 12); atomic_store(&bnow, -1); atomic_store(&bdone, -1);
        for (int i = 0; i < nbstep; ++i) { bstep[i].kind = rndn(&R, NBLK); bstep[i].n = 1 + rndn(&R, 64); bstep[i].delay = rndn(&R, 4) ? rndn(&R, 1000) : 0; bstep[i].tx = rndn(&R, 2); fill(bstep[i].data, 64); }
        struct sockaddr_un sa = { .sun_family = AF_UNIX };
        snprintf(bpath, sizeof(bpath), "%s/bs", root); snprintf(bfifo, sizeof(bfifo), "%s/bf", root);
        if (strlen(bpath) >= sizeof(sa.sun_path)) { nblk = 0; goto noblk; }
        strncpy(sa.sun_path, bpath, sizeof(sa.sun_path) - 1);
        unlink(bpath); unlink(bfifo);
        blisten = socket(AF_UNIX, SOCK_STREAM, 0);
        if (pipe(bpipe) || socketpair(AF_UNIX, SOCK_STREAM, 0, bsock) || mkfifo(bfifo, 0600) || bind(blisten, (void*)&sa, sizeof(sa)) || listen(blisten, 1)) die("blocking");
    }
noblk:
    pthread_barrier_init(&bar, NULL, nth + nmov + nblk);
    atomic_store(&running, nth + nmov + nblk);
    memset(T, 0, sizeof(T));
    struct th M[2]; memset(M, 0, sizeof(M));
    struct rd rds[3]; memset(rds, 0, sizeof(rds));
    for (int i = 0; i < nst; ++i) { rds[i].s = i; pthread_create(&rds[i].t, NULL, reader, &rds[i]); }
    for (int i = 0; i < nth; ++i) {
        T[i] = (struct th){ .id = i, .r = vf_rng(vf_seed, c, 100 + i), .maxn = 5 + rndn(&R, 40) };
        T[i].tx = calloc(T[i].maxn, sizeof(struct tx));
    }
    for (int i = 0; i < nth; ++i) pthread_create(&T[i].t, NULL, sender, &T[i]);
    for (int i = 0; i < nmov; ++i) { M[i].r = vf_rng(vf_seed, c, 200 + i); pthread_create(&M[i].t, NULL, mover, &M[i]); }
    if (nblk) { pthread_create(&pt, NULL, peer, NULL); pthread_create(&B.t, NULL, blocker, &B); }
    for (int i = 0; i < nth; ++i) pthread_join(T[i].t, NULL);
    if (nblk) { pthread_join(B.t, NULL); pthread_join(pt, NULL); for (int i = 0; i < 2; ++i) { close(bpipe[i]); close(bsock[i]); } close(blisten); unlink(bpath); unlink(bfifo); }
    for (int i = 0; i < nmov; ++i) pthread_join(M[i].t, NULL);
    vf_storm_end();
    uint64_t HH = nth * 10 + nst;
    for (int i = 0; i < nst; ++i) { pthread_join(rds[i].t, NULL); check_stream(&rds[i], &HH); free(rds[i].p); close(cs[i][0]); close(cs[i][1]); }
    if (nmov) {
        int got = fionread(outfd[0]), left = fionread(infd[0]);
        if (got != nrec * 16 || left) vf_viol("moved", "%d of %d records passed on, %d bytes left", got / 16, nrec, left);
        for (int i = 0; i < got / 16; ++i) {
            uint64_t v[2];
            if (read(outfd[0], v, 16) != 16) die("out");
            if (v[0] != (uint64_t)i || v[1] != vf_mix(i)) { vf_viol("moved-order", "record %d is %llu", i, (unsigned long long)v[0]); break; }
        }
        vf_count("records-moved", nrec);
        for (int i = 0; i < 2; ++i) { close(infd[i]); close(outfd[i]); }
    }
    for (int i = 0; i < nth; ++i) free(T[i].tx);
    pthread_barrier_destroy(&bar);
    vf_distinct(HH);
}
int main(int argc, char **argv)
{
    vf_init(argc, argv);
    signal(SIGPIPE, SIG_IGN);
    snprintf(root, sizeof(root), "%s/vf%ld-%d", vf_dir, (long)vf_arg, (int)getpid());
    if (mkdir(root, 0700)) die(root);
    bool conc = !strcmp(vf_mode, "conc");
    for (uint64_t i = vf_from; i < vf_from + vf_cases && vf_more(); ++i) { vf_case(i); if (conc) conc_case(i); else one_case(i); }
    rmdir(root);
    picotm_release();
    vf_finish(atomic_load(&vf_nviol) ? 1 : 0);
}
