/* C32: terminating the process within a transaction.  A child process runs
 * transactions in some threads; one of them ends the process with exit_tx(),
 * _exit_tx(), _Exit_tx() or abort_tx().  The parent checks the status and what
 * is left in shared memory and files: the transaction took effect completely
 * and once, and its aborted executions did not. */
#include "vf_tx.h"
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include "picotm/stdlib.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include "picotm/fcntl.h"
#include "picotm/picotm-libc.h"
#include "picotm/picotm-tm.h"

#define NV 16
#define NT 8
enum { K_EXIT, K__EXIT, K_CEXIT, K_ABORT, NK };
static const char *kname[NK] = { "exit_tx", "_exit_tx", "_Exit_tx", "abort_tx" };
struct shm {
    uint64_t v[NV] __attribute__((aligned(64)));        /* the transaction's own variables */
    uint64_t pair[2] __attribute__((aligned(64)));      /* equal in every state */
    uint64_t done[2] __attribute__((aligned(64)));      /* copies of the pair by the last transaction */
    uint64_t hv[2] __attribute__((aligned(64)));        /* by the exit handler */
    _Atomic int handlers, execs, committed[NT], returned, events_applied, events_undone, at_exit_visible, running;
    uint64_t expect[NV]; unsigned char fexp[600]; int flen, status;
    uint64_t others[NT][2] __attribute__((aligned(64)));
};
static struct shm *S;
static char file[200];
static struct rng R;
static int kind, status, nv, nth, wconf, wirr; static bool early, hand_tx, useev;
static unsigned long evmod;

static void die(const char *what) { perror(what); exit(2); }
static void m_finish(void *d, struct picotm_error *e) {}
static void m_apply_ev(uint16_t head, uintptr_t tail, void *d, struct picotm_error *e) { atomic_fetch_add(&S->events_applied, 1); }
static void m_undo_ev(uint16_t head, uintptr_t tail, void *d, struct picotm_error *e) { atomic_fetch_add(&S->events_undone, 1); }
static const struct picotm_module_ops ops = { .finish = m_finish, .apply_event = m_apply_ev, .undo_event = m_undo_ev };

static void handler(void)
{
    atomic_fetch_add(&S->handlers, 1);
    int ok = 1;
    for (int i = 0; i < nv; ++i) ok &= S->v[i] == S->expect[i];
    atomic_store(&S->at_exit_visible, ok);
    if (hand_tx) {
        uint64_t x = 77;
        picotm_begin
            uint64_t y = 0;
            load_tx(&S->hv[0], &y, sizeof(y)); ++y;
            store_tx(&S->hv[0], &y, sizeof(y));
            store_tx(&S->hv[1], &x, sizeof(x));
        picotm_commit
        picotm_end
    }
}
static volatile int stop;
static void *other(void *a)
{
    long id = (long)a;
    struct rng r = vf_rng(vf_seed, *vf_cur, 3200 + id);
    struct picotm_error err = PICOTM_ERROR_INITIALIZER; (void)err;
    atomic_fetch_add(&S->running, 1);
    for (volatile int n = 0; !stop; ++n) {
        picotm_begin
            uint64_t x, y;
            load_tx(&S->pair[0], &x, sizeof(x));
            if (rndp(&r, 20)) sched_yield();
            load_tx(&S->pair[1], &y, sizeof(y));
            if (x != y) atomic_store(&S->returned, 2);
            ++x;
            store_tx(&S->pair[0], &x, sizeof(x));
            if (rndp(&r, 20)) sched_yield();
            store_tx(&S->pair[1], &x, sizeof(x));
            if (rndp(&r, 5)) vf_conflict();
        picotm_commit
        picotm_end
        atomic_fetch_add(&S->committed[id], 1);
    }
    picotm_release();
    return NULL;
}
static uint64_t seedv;
static void last(void)
{
    int n = atomic_fetch_add(&S->execs, 1);
    struct rng r = vf_rng(seedv, n, 7);       /* every execution does something else */
    if (n > 400) { atomic_store(&S->returned, 3); _exit(99); }
    uint64_t exp[NV]; unsigned char buf[600]; int len = 0;
    if (!picotm_is_irrevocable() && wirr && n == wirr) picotm_irrevocable();
    for (int i = 0; i < nv; ++i) exp[i] = 1000 + i;
    int fd = open_tx(file, O_WRONLY);
    int steps = 3 + rndn(&r, 20), at = rndn(&r, steps);
    for (int k = 0; k < steps; ++k) {
        if (k == at && n < wconf && !picotm_is_irrevocable()) vf_conflict();
        switch (rndn(&r, 5)) {
        case 0: case 1: { int i = rndn(&r, nv); uint64_t x = rnd(&r); store_tx(&S->v[i], &x, sizeof(x)); exp[i] = x; break; }
        case 2: { int i = rndn(&r, nv); uint64_t x; load_tx(&S->v[i], &x, sizeof(x)); if (x != exp[i]) atomic_store(&S->returned, 4); break; }
        case 3: { int l = 1 + rndn(&r, 20); unsigned char b[20]; for (int i = 0; i < l; ++i) b[i] = rnd(&r); if (len + l <= 600 && write_tm(fd, b, l) == l) { memcpy(buf + len, b, l); len += l; } break; }
        case 4: if (useev) { struct picotm_error e = PICOTM_ERROR_INITIALIZER; picotm_append_event(evmod, 1, k, &e); if (picotm_error_is_set(&e)) picotm_recover_from_error(&e); } else { void *p = malloc_tx(30); if (rndp(&r, 60)) free_tx(p); } break;
        }
    }
    uint64_t x, y;
    load_tx(&S->pair[0], &x, sizeof(x)); load_tx(&S->pair[1], &y, sizeof(y));
    store_tx(&S->done[0], &x, sizeof(x)); store_tx(&S->done[1], &y, sizeof(y));
    if (rndp(&r, 50)) close_tx(fd);
    /* what the parent has to find; ordinary memory, written by each execution */
    memcpy(S->expect, exp, sizeof(exp)); memcpy(S->fexp, buf, len); S->flen = len;
    switch (kind) {
    case K_EXIT: exit_tx(status);
    case K__EXIT: _exit_tx(status);
    case K_CEXIT: _Exit_tx(status);
    case K_ABORT: abort_tx();
    }
    atomic_store(&S->returned, 1);
}
static void child(void)
{
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    alarm(50);
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    if (useev) { evmod = picotm_register_module(&ops, NULL, &e); if (picotm_error_is_set(&e)) _exit(98); }
    atexit(handler);
    pthread_t t[NT];
    for (long i = 0; i < nth; ++i) { pthread_create(&t[i], NULL, other, (void*)i); pthread_detach(t[i]); }
    while (atomic_load(&S->running) < nth) sched_yield();
    if (early) {    /* some transactions before */
        for (int k = 0; k < 3; ++k) {
            picotm_begin
                uint64_t x = k;
                store_tx(&S->others[0][0], &x, sizeof(x));
                if (k == 1 && picotm_number_of_restarts() < 2) vf_conflict();
            picotm_commit
            picotm_end
        }
    }
    picotm_begin
        last();
    picotm_commit
        atomic_store(&S->returned, 5);
    picotm_end
    _exit(97);
}
static void one_case(uint64_t c)
{
    R = vf_rng(vf_seed, c, 32);
    memset(S, 0, sizeof(*S));
    kind = rndn(&R, NK); status = rndp(&R, 30) ? (int)rndn(&R, 3) : (int)rndn(&R, 256);
    nv = 1 + rndn(&R, NV); nth = rndp(&R, 50) ? 0 : 1 + rndn(&R, vf_threads > NT ? NT : vf_threads);
    wconf = rndp(&R, 50) ? 0 : 1 + rndn(&R, 12); wirr = rndp(&R, 20) ? 1 + rndn(&R, 3) : 0;
    early = rndp(&R, 50); hand_tx = kind == K_EXIT && rndp(&R, 50); useev = rndp(&R, 50);
    seedv = rnd(&R);
    for (int i = 0; i < nv; ++i) S->v[i] = 1000 + i;
    int fd = open(file, O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) die(file);
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) die("fork");
    if (!p) child();
    int st;
    while (waitpid(p, &st, 0) != p) ;
    const char *k = kname[kind];
    int e = atomic_load(&S->execs);
    if (atomic_load(&S->returned)) vf_viol("returned", "%s: flag %d (1: returned, 2: inconsistent pair, 3: unbounded, 4: wrong value, 5: recovery)", k, atomic_load(&S->returned));
    if (kind == K_ABORT ? !WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT : !WIFEXITED(st) || WEXITSTATUS(st) != status)
        vf_viol("status", "%s(%d): wait status is %x", k, status, st);
    for (int i = 0; i < nv; ++i) if (S->v[i] != S->expect[i]) { vf_viol("memory", "%s: variable %d of %d is %lx instead of %lx after %d executions", k, i, nv, (long)S->v[i], (long)S->expect[i], e); break; }
    if (S->done[0] != S->done[1]) vf_viol("pair", "%s: the copy of two equal variables is %ld and %ld", k, (long)S->done[0], (long)S->done[1]);
    unsigned char b[700]; ssize_t n = pread(fd, b, sizeof(b), 0);
    if (n != S->flen || memcmp(b, S->fexp, n)) vf_viol("file", "%s: the file has %ld bytes instead of %d, or others, after %d executions", k, (long)n, S->flen, e);
    int h = atomic_load(&S->handlers);
    if (h != (kind == K_EXIT)) vf_viol("handlers", "%s: %d calls of the exit handler", k, h);
    if (h && !atomic_load(&S->at_exit_visible)) vf_viol("handler-view", "%s: the exit handler does not see the transaction's effects", k);
    if (h && (S->hv[0] != hand_tx || S->hv[1] != (hand_tx ? 77 : 0))) vf_viol("handler-tx", "%s: the transaction of the exit handler left %ld, %ld", k, (long)S->hv[0], (long)S->hv[1]);
    close(fd);
    vf_count("processes", 1);
    if (e > 1) vf_count("restarted", 1);
    if (nth) vf_count("with-threads", 1);
    if (kind == K_EXIT) vf_count("exit", 1); else if (kind == K_ABORT) vf_count("abort", 1); else vf_count("exit-without-handlers", 1);
    if (hand_tx) vf_count("handler-transactions", h);
    vf_count("events-applied", atomic_load(&S->events_applied));
    vf_count("bytes-compared", n > 0 ? n : 0);
    uint64_t hs[] = { kind, nv, nth, e, S->flen, S->expect[0], status };
    vf_distinct(vf_hash(1, hs, sizeof(hs)));
    if (c < 3) vf_sample("%s(%d), %d variables, %d threads, %d executions, %d bytes written", k, status, nv, nth, e, S->flen);
}

/* sleep_tx(): sleeps for the whole time, despite signals.  The C library's
 * sleep() rounds the remaining time down, so a signal may cost one second. */
static _Atomic int alarms;
static void on_alarm(int s) { atomic_fetch_add(&alarms, 1); }
static void sleep_case(uint64_t c)
{
    struct sigaction sa = { .sa_handler = on_alarm }; sigaction(SIGALRM, &sa, NULL);
    bool sig = c % 2;
    struct itimerval it = { .it_value = { 0, sig ? 100000 + 1000 * (c % 400) : 0 } };
    setitimer(ITIMER_REAL, &it, NULL);
    uint64_t t0 = vf_now(); volatile unsigned r = 9, n = 1 + sig;
    picotm_begin
        r = sleep_tx(n);
    picotm_commit
    picotm_end
    int64_t d = (vf_now() - t0) / 1000000, least = 1000 * (int64_t)n - 1000 * atomic_load(&alarms);
    if (sig) least += it.it_value.tv_usec / 1000;
    if (r) vf_viol("sleep-result", "sleep_tx returned %u", r);
    if (d < least - 10) vf_viol("sleep-short", "sleep_tx(%u) took %ld ms with %d signals", n, (long)d, atomic_load(&alarms));
    vf_count("sleeps", 1); vf_count("sleep-signals", atomic_exchange(&alarms, 0));
    vf_distinct(c + 1);
}
int __lsan_is_turned_off(void) { return 1; }    /* the children's exit() */
int main(int argc, char **argv)
{
    vf_init(argc, argv);
    S = mmap(NULL, sizeof(*S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) die("mmap");
    snprintf(file, sizeof(file), "%s/exit%ld-%d", vf_dir, (long)vf_arg, (int)getpid());
    bool sl = !strcmp(vf_mode, "sleep");
    for (uint64_t i = vf_from; i < vf_from + vf_cases && vf_more(); ++i) { vf_case(i); if (sl) sleep_case(i); else one_case(i); }
    unlink(file);
    vf_finish(atomic_load(&vf_nviol) ? 1 : 0);
}
