/* C06/C09: progress under contention, many threads, threads that come and go.
 * Modes: storm, old (transactions older than a second wait for locks), churn, many */
#include "vf_tx.h"
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/stdlib.h"
#include "picotm/string.h"
#include "picotm/string-tm.h"
#include "picotm/errno.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/picotm-txlib.h"
#include "picotm/picotm-txqueue.h"
#include "picotm/picotm-txqueue-state.h"
#include "picotm/picotm-ptrdata.h"
#include "picotm/picotm-lib-ptr.h"
#include <signal.h>
#include <sys/socket.h>

#define MAXTH 1200
#define MAXEXEC 64
#define NV 256
struct th {
    pthread_t pt; int id; struct rng r; int ntx;
    int execs, maxexecs; long commits, adds; uint64_t h;
    struct vf_txmon mon; int errors; bool err_ok;
    int kind; uint64_t fseed;
};
static struct th *ths;
static int nth, nvar, ntx, txlen, delaypct; static bool old, modules;
static uint64_t var[NV * 8]; static int stride;
static _Atomic long total; static int thefd = -1;
#define NOUT 3
static int outfd[NOUT] = { -1, -1, -1 };    /* stream socket, datagram socket, pipe */
static struct txqueue_state q = TXQUEUE_STATE_INITIALIZER(q);
struct node { struct txqueue_entry e; int v; };
static _Atomic long pushed, popped;

static void work(struct th *t)
{
    if (++t->execs == MAXEXEC) vf_viol("unbounded", "transaction of thread %d is executed for the %d. time", t->id, t->execs);
    if (t->execs > 4000) { fflush(stdout); _exit(99); }
    if (old && t->execs == 1) { struct timespec ts = { 1, 10000000 + (long)rndn(&t->r, 20000000) }; nanosleep(&ts, NULL); }
    t->adds = 0;
    for (int i = 0; i < txlen; ++i) {
        uint64_t x, *p = &var[rndn(&t->r, nvar) * stride];
        switch (rndn(&t->r, 3)) {
        case 0: load_tx(p, &x, 8); x++; vf_delay(&t->r, delaypct); store_tx(p, &x, 8); break;
        case 1: privatize_tx(p, 8, PICOTM_TM_PRIVATIZE_LOADSTORE); (*p)++; break;
        case 2: store_ulong_tx(p, load_ulong_tx(p) + 1); break;
        }
        t->adds++;
        vf_delay(&t->r, delaypct);
    }
    if (t->kind == 1 && !picotm_is_irrevocable()) vf_conflict();
    if (t->kind == 2 && t->execs < 5) {
        if (modules && outfd[0] >= 0 && rndp(&t->r, 50)) {   /* undone: nothing is ever sent */
            write_tx(outfd[rndn(&t->r, NOUT)], "x", 1);
            vf_count("undone-writes", 1);
        }
        vf_conflict();
    }
    if (modules) {
        void *m = malloc_tx(1 + rndn(&t->r, 100));
        errno = 3;
        char b[16];
        memcpy_tx(b, "0123456789abcde", 16);
        free_tx(m);
        struct rng fr = { t->fseed };   /* the same in every execution */
        if (thefd >= 0 && rndp(&fr, 30)) for (int n = 1 + rndn(&fr, 5), m = 1 + rndn(&fr, 12); n; --n) {
            int off = rndn(&fr, m) * 16;
            if (rndp(&fr, 50)) pread_tx(thefd, b, 8, off); else pwrite_tx(thefd, b, 8, off);
            vf_count("file-operations", 1);
        }
        if (rndp(&t->r, 30)) {
            struct txqueue *tq = txqueue_of_state_tx(&q);
            if (txqueue_empty_tx(tq)) {
                struct node *n = malloc_tx(sizeof(*n)); txqueue_entry_init_tm(&n->e); txqueue_push_tx(tq, &n->e); t->kind |= 16;
            } else {
                struct txqueue_entry *e = txqueue_front_tx(tq); txqueue_pop_tx(tq); free_tx(picotm_containerof(e, struct node, e));
            }
        }
        if (rndp(&t->r, 30)) {
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            ptr_set_data(t, &b, &e);
            void *d = picotm_error_is_set(&e) ? b : ptr_get_data(t, &e);
            if (d != b) vf_viol("ptrdata", "lost pointer data");
            if (picotm_error_is_set(&e)) picotm_recover_from_error(&e);
        }
    }
}
static bool tx(struct th *t)
{
    static __thread volatile bool err; err = false;
    t->execs = 0; t->fseed = rnd(&t->r);
    t->kind = rndp(&t->r, 80) ? 0 : (int)rndn(&t->r, 3);
    picotm_begin
        work(t);
    picotm_commit
        err = true; t->errors++;
        if (!t->err_ok) vf_viol("error", "thread %d: unexpected error, status %d value %d", t->id, picotm_error_status(), picotm_error_as_errno());
    picotm_end
    if (err) return false;
    t->commits++; atomic_fetch_add(&total, t->adds);
    if (t->execs > t->maxexecs) t->maxexecs = t->execs;
    if (t->execs > 1) vf_count("restarted", 1);
    vf_count("transactions", 1);
    t->h = t->h * 31 + t->execs;
    vf_tick();
    return true;
}
static void *run(void *a)
{
    struct th *t = a;
    for (int i = 0; i < t->ntx; ++i) { tx(t); vf_delay(&t->r, delaypct / 2); }
    picotm_release();
    return NULL;
}
static void setup(struct th *t, uint64_t ci, int i) { memset(t, 0, sizeof(*t)); t->id = i; t->r = vf_rng(vf_seed, ci, i + 100); t->ntx = ntx; }
static void start(struct th *t)
{
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 * 1024);
    int e = pthread_create(&t->pt, &at, run, t);
    if (e) { fprintf(stderr, "thread: %s\n", strerror(e)); exit(2); }
    pthread_attr_destroy(&at);
}
static void check_sum(void)
{
    uint64_t s = 0;
    for (int i = 0; i < nvar; ++i) s += var[i * stride];
    if (s != (uint64_t)total) vf_viol("lost-update", "%ld committed increments gave %" PRIu64, (long)total, s);
}
static void storm(uint64_t ci)
{
    struct rng r = vf_rng(vf_seed, 6, ci);
    nth = 2 + rndn(&r, vf_threads - 1); nvar = 1 + rndn(&r, rndp(&r, 70) ? 8 : NV); txlen = 1 + rndn(&r, 12);
    ntx = old ? 2 : 2000 / nth + 3; delaypct = rndn(&r, 20) * !rndn(&r, 2); stride = rndp(&r, 50) ? 1 : 8; modules = rndp(&r, 20);
    memset(var, 0, sizeof(var)); total = 0;
    for (int i = 0; i < nth; ++i) setup(&ths[i], ci, i);
    for (int i = 0; i < nth; ++i) start(&ths[i]);
    uint64_t h = ci; int mx = 0;
    for (int i = 0; i < nth; ++i) { pthread_join(ths[i].pt, NULL); h = h * 1000003 + ths[i].h; if (ths[i].maxexecs > mx) mx = ths[i].maxexecs; }
    check_sum();
    if (old) vf_count("old-transactions", nth * ntx);
    vf_distinct(h);
    vf_sample("case %" PRIu64 ": %d threads, %d variables, %d accesses per transaction: at most %d executions of one transaction", ci, nth, nvar, txlen, mx);
}
/* ---- churn: threads come and go, slots are reused ---- */
struct life { struct th t; struct rng r; int lives; uint64_t ci; int id; bool old; };
static void *live(void *a)
{
    struct th *t = a;
    if (picotm_number_of_restarts()) vf_viol("residue", "a fresh thread reports %lu restarts", picotm_number_of_restarts());
    if (picotm_error_status() != 0 && picotm_error_as_errno()) vf_viol("residue", "a fresh thread has an error set");
    int rounds = 1 + rndn(&t->r, 3);
    for (int i = 0; i < rounds; ++i) {
        if (rndp(&t->r, 50)) { vf_txmon_register(&t->mon); t->mon.begins = t->mon.applies = t->mon.finishes = t->mon.undos = 0; }
        bool reg = t->mon.registered; long n = rndn(&t->r, 4), c = 0;
        for (int k = 0; k < n; ++k) c += tx(t);
        if (reg && t->mon.applies != (uint64_t)c) vf_viol("residue", "%ld transactions committed, module saw %" PRIu64, c, t->mon.applies);
        if (reg && t->mon.begins != t->mon.finishes) vf_viol("residue", "%" PRIu64 " begins but %" PRIu64 " finishes", t->mon.begins, t->mon.finishes);
        picotm_release();
        if (t->mon.registered) vf_viol("residue", "module not released with its thread");
        if (rndp(&t->r, 20)) picotm_release();
        vf_count("releases", 1);
    }
    if (rndp(&t->r, 30)) pthread_exit(NULL);
    return NULL;
}
static void *control(void *a)
{
    struct life *l = a;
    for (int i = 0; i < l->lives; ++i) {
        pthread_t p;
        setup(&l->t, l->ci, l->id + 1000 * i);
        if (pthread_create(&p, NULL, live, &l->t)) exit(2);
        pthread_join(p, NULL);
        vf_count("thread-lives", 1);
        vf_tick();
    }
    return NULL;
}
static void churn(uint64_t ci)
{
    struct rng r = vf_rng(vf_seed, 9, ci);
    struct life l[8]; pthread_t p[8];
    int n = 1 + rndn(&r, 6), bg = rndn(&r, 3); bool o = old;
    old = false;
    nvar = 1 + rndn(&r, 8); txlen = 1 + rndn(&r, 5); delaypct = rndn(&r, 10); stride = 8; modules = rndp(&r, 70);
    memset(var, 0, sizeof(var)); total = 0; ntx = 200;
    for (int i = 0; i < bg; ++i) { setup(&ths[i], ci, i + 5000); start(&ths[i]); }
    for (int i = 0; i < n; ++i) {
        memset(&l[i], 0, sizeof(l[i])); l[i].id = i; l[i].ci = ci; l[i].lives = vf_arg ? vf_arg : 30;
        if (pthread_create(&p[i], NULL, control, &l[i])) exit(2);
    }
    for (int i = 0; i < n; ++i) pthread_join(p[i], NULL);
    for (int i = 0; i < bg; ++i) pthread_join(ths[i].pt, NULL);
    check_sum();
    old = o;
    vf_distinct(vf_mix(ci * 64 + n * 4 + bg) ^ (uint64_t)total);
    vf_sample("case %" PRIu64 ": %d controllers, %d permanent threads, %ld increments", ci, n, bg, (long)total);
}
/* ---- many threads at once ---- */
static pthread_barrier_t bar; static _Atomic int live_n;
static void *many_run(void *a)
{
    struct th *t = a;
    /* enter, so that the thread owns its slot */
    bool in = tx(t);
    if (in) atomic_fetch_add(&live_n, 1);
    pthread_barrier_wait(&bar);
    for (int i = 0; i < t->ntx; ++i) tx(t);
    pthread_barrier_wait(&bar);
    if (in && t->commits != t->ntx + 1) vf_viol("starved", "thread %d of %d committed %ld of %d transactions", t->id, nth, t->commits, t->ntx + 1);
    picotm_release();
    return NULL;
}
static void many(uint64_t ci)
{
    struct rng r = vf_rng(vf_seed, 10, ci);
    bool beyond = ci % 3 == 2;
    nth = beyond ? 1040 + rndn(&r, 60) : ci % 3 == 1 ? 1000 : 20 + rndn(&r, 400);
    if (vf_threads < 100 && nth > vf_threads * 10) nth = vf_threads * 10, beyond = false;
    nvar = 1 + rndn(&r, 64); txlen = 1 + rndn(&r, 3); delaypct = 0; stride = 8; modules = false; ntx = 3; old = false;
    memset(var, 0, sizeof(var)); total = 0; live_n = 0;
    pthread_barrier_init(&bar, NULL, nth);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 * 1024);
    for (int i = 0; i < nth; ++i) { setup(&ths[i], ci, i); ths[i].err_ok = beyond; if (pthread_create(&ths[i].pt, &at, many_run, &ths[i])) { perror("thread"); exit(2); } }
    pthread_attr_destroy(&at);
    int err = 0; uint64_t h = ci;
    for (int i = 0; i < nth; ++i) { pthread_join(ths[i].pt, NULL); err += ths[i].errors; h = h * 31 + ths[i].h; }
    pthread_barrier_destroy(&bar);
    check_sum();
    if (!beyond && live_n != nth) vf_viol("limit", "only %d of %d threads could run transactions", (int)live_n, nth);
    if (beyond && live_n < 1000) vf_viol("limit", "only %d of %d threads could run transactions", (int)live_n, nth);
    if (beyond) vf_count("refused-threads", err);
    vf_count("live-threads", live_n);
    vf_distinct(h);
    vf_sample("case %" PRIu64 ": %d threads at once, %d accepted", ci, nth, (int)live_n);
}
int main(int argc, char **argv)
{
    vf_init(argc, argv);
    ths = calloc(MAXTH, sizeof(*ths));
    char path[256]; snprintf(path, sizeof(path), "%s/c06.%d", vf_dir, getpid());
    thefd = open(path, O_RDWR | O_CREAT, 0600); unlink(path);
    if (thefd >= 0 && write(thefd, "0123456789", 10) != 10) return 2;
    int sp[2], dp[2], pp[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp) || socketpair(AF_UNIX, SOCK_DGRAM, 0, dp) || pipe(pp)) return 2;
    outfd[0] = sp[0]; outfd[1] = dp[0]; outfd[2] = pp[1];
    old = !strcmp(vf_mode, "old");
    for (uint64_t ci = vf_from; ci < vf_from + vf_cases && vf_more(); ++ci) {
        vf_case(ci);
        if (!strcmp(vf_mode, "churn")) churn(ci);
        else if (!strcmp(vf_mode, "many")) many(ci);
        else storm(ci);
    }
    /* empty the queue */
    for (bool more = true; more; ) {
        struct node *volatile n = NULL;
        picotm_begin
            struct txqueue *tq = txqueue_of_state_tx(&q);
            if (txqueue_empty_tx(tq)) store_ptr_tx((void*)&n, NULL);
            else { struct txqueue_entry *e = txqueue_front_tx(tq); txqueue_pop_tx(tq); struct node *m = picotm_containerof(e, struct node, e); store_ptr_tx((void*)&n, m); free_tx(m); }
        picotm_commit
        picotm_end
        more = n != NULL;
    }
    picotm_release();
    free(ths);
    if (thefd >= 0) close(thefd);
    char left;
    if (recv(sp[1], &left, 1, MSG_DONTWAIT) >= 0 || recv(dp[1], &left, 1, MSG_DONTWAIT) >= 0)
        vf_viol("residue", "a write of an aborted execution was sent");
    vf_finish(0);
}
