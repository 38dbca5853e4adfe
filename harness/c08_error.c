/* C08: error recovery.  Every error is raised with a known status and value;
 * the recovery phase has to report exactly that, after a full roll-back. */
#include "vf_tx.h"
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-libc.h"
#include "picotm/picotm-cast.h"
#include "picotm/picotm-cast-ctypes.h"
#include "picotm/picotm-arithmetic-ctypes.h"
#include "picotm/picotm-arithmetic.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/picotm-txlib.h"
#include "picotm/picotm-txstack.h"
#include "picotm/picotm-txstack-state.h"
#include <signal.h>
#include <limits.h>
#include <sys/wait.h>
#include <dirent.h>

#define MAXTH 8
#define NM 200
#define NFILE 128
enum kind { K_CODE, K_ERRNO, K_SIGINFO, K_ERROR_CODE, K_ERROR_ERRNO, K_ERROR_SIGINFO, K_OPEN, K_CHDIR, K_CAST, K_ADD, K_DIV, K_MALLOC,
            K_SEGV, K_RAISE, K_PREPARE, K_BEGIN, K_OBOUNDS, K_MAX };
static const char *kname[] = { "error code", "errno", "siginfo", "error (code)", "error (errno)", "error (siginfo)", "open", "chdir", "cast",
    "add", "div", "malloc", "SIGSEGV", "raise", "prepare-commit", "begin", "out of bounds" };
struct node { struct txstack_entry e; };
struct th {
    pthread_t pt; int id; struct rng r; uint64_t h;
    unsigned char *mem, img[NM];
    unsigned char fimg[NFILE]; int fd; char dir[200];
    struct txstack_state stack; struct node nodes[8]; int nstack;
    unsigned long mod; bool live;
    /* transaction */
    int kind, code; struct picotm_error err; bool fail, irrev, fail_now; int atop;
    int execs, logged, applied, undone, begins, finishes, mapplied, mundone; bool entered_begin;
    int restarts_left; bool has_desc;
    volatile bool recovered; volatile int nrecov;
    void *page; void *faultaddr;
};
static int delaypct;
static struct th ths[MAXTH];

static void cb_begin(void *d, struct picotm_error *e)
{
    struct th *t = d;
    t->begins++; t->applied = t->undone = t->logged = t->mapplied = t->mundone = 0;
    if (t->fail && t->kind == K_BEGIN) { picotm_error_set_errno(e, t->code); t->execs++; }
}
static void cb_prepare(void *d, int irr, struct picotm_error *e)
{
    struct th *t = d;
    if (t->fail && t->kind == K_PREPARE) { if (t->code & 1) picotm_error_set_errno(e, t->code); else picotm_error_set_error_code(e, t->code % 4); }
}
static void cb_apply(void *d, struct picotm_error *e) { ((struct th*)d)->mapplied++; }
static void cb_undo(void *d, struct picotm_error *e) { ((struct th*)d)->mundone++; }
static void cb_apply_ev(uint16_t h, uintptr_t x, void *d, struct picotm_error *e) { ((struct th*)d)->applied++; }
static void cb_undo_ev(uint16_t h, uintptr_t x, void *d, struct picotm_error *e) { ((struct th*)d)->undone++; }
static void cb_finish(void *d, struct picotm_error *e) { ((struct th*)d)->finishes++; }
static void cb_release(void *d) { ((struct th*)d)->live = false; }
static const struct picotm_module_ops ops = { .begin = cb_begin, .prepare_commit = cb_prepare, .apply = cb_apply, .undo = cb_undo,
    .apply_event = cb_apply_ev, .undo_event = cb_undo_ev, .finish = cb_finish, .release = cb_release };

static void raise_error(struct th *t)
{
    siginfo_t si; memset(&si, 0, sizeof(si)); si.si_signo = 1 + t->code % 31; si.si_code = t->code; si.si_addr = (void*)(uintptr_t)(t->code * 4096l);
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    char b[8];
    switch (t->kind) {
    case K_CODE: picotm_recover_from_error_code(t->code % 4); break;
    case K_ERRNO: picotm_recover_from_errno(t->code); break;
    case K_SIGINFO: picotm_recover_from_siginfo_t(&si); break;
    case K_ERROR_CODE: picotm_error_set_error_code(&e, t->code % 4); if (t->code & 4) picotm_error_set_description(&e, "test"); picotm_recover_from_error(&e); break;
    case K_ERROR_ERRNO: picotm_error_set_errno(&e, t->code); picotm_recover_from_error(&e); break;
    case K_ERROR_SIGINFO: picotm_error_set_siginfo_t(&e, &si); picotm_recover_from_error(&e); break;
    case K_OPEN: open_tx("/nonexistent/vf", O_RDONLY); break;
    case K_CHDIR: chdir_tx("/nonexistent/vf"); break;
    case K_CAST: (void)cast_long_to_int_tx((long)INT_MAX + 1 + t->code); break;
    case K_ADD: (void)add_int_tx(INT_MAX, 1 + t->code); break;
    case K_DIV: (void)div_int_tx(t->code, 0); break;
    case K_MALLOC: (void)malloc_tx(SIZE_MAX / 2 - t->code * 64); break;
    case K_SEGV: t->faultaddr = (char*)t->page + t->code; *(volatile char*)t->faultaddr = 1; break;
    case K_RAISE: raise(SIGUSR1); break;
    case K_OBOUNDS: privatize_tx(t->mem + NM, 8, 0); load_tx(t->mem + NM, b, 8); break;
    }
    if (t->kind != K_PREPARE && t->kind != K_BEGIN)
        vf_viol("no-error", "%s did not lead to recovery", kname[t->kind]);
}
static void same_as_before(struct th *t, const char *when)
{
    if (memcmp(t->mem, t->img, NM)) { int i = 0; while (t->mem[i] == t->img[i]) ++i; vf_viol("memory", "%s after %s: byte %d is %02x instead of %02x", when, kname[t->kind], i, t->mem[i], t->img[i]); }
    unsigned char b[NFILE + 8];
    ssize_t n = pread(t->fd, b, sizeof(b), 0);
    if (n != NFILE || memcmp(b, t->fimg, NFILE)) vf_viol("file", "%s after %s: file content differs (%zd bytes)", when, kname[t->kind], n);
    if (lseek(t->fd, 0, SEEK_CUR)) vf_viol("file", "%s: file offset moved to %ld", when, (long)lseek(t->fd, 0, SEEK_CUR));
    if (!faccessat(AT_FDCWD, t->dir, F_OK, 0)) vf_viol("file", "%s after %s: file created by the transaction remains", when, kname[t->kind]);
}
static void step(struct th *t)
{
    unsigned char b[64]; size_t o = rndn(&t->r, NM - 64), n = 1 + rndn(&t->r, 60);
    switch (rndn(&t->r, 9)) {
    case 0: case 1: for (size_t i = 0; i < n; ++i) b[i] = rnd(&t->r); store_tx(t->mem + o, b, n); break;
    case 2: privatize_tx(t->mem + o, n, PICOTM_TM_PRIVATIZE_LOADSTORE); for (size_t i = 0; i < n; ++i) t->mem[o + i] ^= 0x5a; break;
    case 3: { char *p = malloc_tx(n); p[0] = 1; if (rndp(&t->r, 30)) free_tx(p); break; }
    case 4: { struct picotm_error e = PICOTM_ERROR_INITIALIZER; picotm_append_event(t->mod, 1, t->logged, &e); if (picotm_error_is_set(&e)) picotm_recover_from_error(&e); t->logged++; break; }
    case 5: if (picotm_is_irrevocable()) break; pwrite_tx(t->fd, t->mem, n, rndn(&t->r, NFILE)); break;
    case 6: {
        struct txstack *s = txstack_of_state_tx(&t->stack);
        if (txstack_empty_tx(s)) break;
        txstack_pop_tx(s); break; }
    case 7: load_tx(t->mem + o, b, n); break;
    case 8: { int fd = open_tx(t->dir, O_RDWR | O_CREAT | O_EXCL, 0600); close_tx(fd); t->atop = 100; break; }
    }
}
static void body(struct th *t)
{
    t->execs++;
    if (picotm_error_status() != 0) vf_viol("stale-error", "error status %d at the start of an execution", picotm_error_status());
    if (picotm_number_of_restarts() != (unsigned long)t->execs - 1) vf_viol("restart-count", "%lu restarts reported in execution %d", picotm_number_of_restarts(), t->execs);
    if (t->irrev) picotm_irrevocable();
    unsigned char b[NM];
    load_tx(t->mem, b, NM);
    if (memcmp(b, t->img, NM)) vf_viol("unclean-start", "memory differs at the start of execution %d after %s", t->execs, kname[t->kind]);
    struct txstack *s = txstack_of_state_tx(&t->stack);
    if (txstack_size_tx(s) != (size_t)t->nstack) vf_viol("unclean-start", "stack has %zu entries instead of %d at the start of execution %d", txstack_size_tx(s), t->nstack, t->execs);
    int n = rndn(&t->r, 12), at = rndn(&t->r, n + 1); bool created = false;
    for (int i = 0; i < n; ++i) {
        if (t->fail && i == at) raise_error(t);
        t->atop = 0;
        if (created && rndp(&t->r, 100)) { store_tx(t->mem, b, 4); continue; }
        step(t);
        if (t->atop) created = true;
        vf_delay(&t->r, delaypct);
    }
    if (t->fail && (at >= n)) raise_error(t);
    /* a successful execution changes nothing, so that the images remain valid */
    if (!t->fail) {
        /* this one commits */
        picotm_error_status();
    }
}
static void check_recovery(struct th *t)
{
    int st = picotm_error_status();
    vf_count("recoveries", 1);
    if (picotm_error_is_non_recoverable()) { vf_viol("wrong-error", "%s reported as non-recoverable", kname[t->kind]); }
    if (!t->fail) { vf_viol("unexpected-error", "status %d value %d (%s)", st, picotm_error_as_errno(), kname[t->kind]); return; }
    int want = 0; long val = 0, got = 0;
    switch (t->kind) {
    case K_CODE: case K_ERROR_CODE: want = PICOTM_ERROR_CODE; val = t->code % 4; break;
    case K_ERRNO: case K_ERROR_ERRNO: case K_BEGIN: want = PICOTM_ERRNO; val = t->code; break;
    case K_PREPARE: want = t->code & 1 ? PICOTM_ERRNO : PICOTM_ERROR_CODE; val = t->code & 1 ? t->code : t->code % 4; break;
    case K_OPEN: case K_CHDIR: want = PICOTM_ERRNO; val = ENOENT; break;
    case K_CAST: case K_ADD: want = PICOTM_ERRNO; val = ERANGE; break;
    case K_DIV: want = PICOTM_ERRNO; val = -1; break;
    case K_MALLOC: want = PICOTM_ERRNO; val = ENOMEM; break;
    case K_OBOUNDS: want = PICOTM_ERROR_CODE; val = PICOTM_OUT_OF_BOUNDS; break;
    default: want = PICOTM_SIGINFO_T;
    }
    if (st != want) { vf_viol("wrong-error", "%s reported with status %d instead of %d", kname[t->kind], st, want); return; }
    if (want == PICOTM_ERRNO) got = picotm_error_as_errno();
    else if (want == PICOTM_ERROR_CODE) got = picotm_error_as_error_code();
    else {
        const siginfo_t *s = picotm_error_as_siginfo_t();
        got = s->si_signo;
        if (t->kind == K_SEGV) { val = SIGSEGV; if (s->si_addr != t->faultaddr) vf_viol("wrong-error", "SIGSEGV at %p reported at %p", t->faultaddr, s->si_addr); }
        else if (t->kind == K_RAISE) { val = SIGUSR1; if (s->si_pid != getpid()) vf_viol("wrong-error", "raise() by %d reported for %d", getpid(), s->si_pid); }
        else { val = 1 + t->code % 31; if (s->si_code != t->code || s->si_addr != (void*)(uintptr_t)(t->code * 4096l)) vf_viol("wrong-error", "siginfo not passed on unchanged"); }
    }
    if (val != -1 && got != val) vf_viol("wrong-error", "%s reported with value %ld instead of %ld", kname[t->kind], got, val);
    if (val == -1 && !got) vf_viol("wrong-error", "%s reported without a value", kname[t->kind]);
    /* roll-back */
    if (t->kind != K_BEGIN) {
        if (t->undone != t->logged || t->applied) vf_viol("events", "%d events logged, %d undone, %d applied after %s", t->logged, t->undone, t->applied, kname[t->kind]);
        if (t->mundone != 1 || t->mapplied) vf_viol("events", "module undone %d times, applied %d times after %s", t->mundone, t->mapplied, kname[t->kind]);
        if (t->begins != t->finishes) vf_viol("events", "%d begins, %d finishes after %s", t->begins, t->finishes, kname[t->kind]);
    }
    same_as_before(t, "recovery");
}
static void *run(void *a)
{
    struct th *t = a; int ntx = 20;
    for (int i = 0; i < ntx; ++i) {
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        if (!t->live) { t->mod = picotm_register_module(&ops, t, &e); if (picotm_error_is_set(&e)) exit(2); t->live = true; }
        t->kind = rndn(&t->r, K_MAX); t->code = 1 + rndn(&t->r, 130); t->fail = true; t->irrev = rndp(&t->r, 10);
        t->restarts_left = rndn(&t->r, rndp(&t->r, 10) ? 14 : 4); t->execs = t->begins = t->finishes = 0;
        t->recovered = false; t->nrecov = 0;
        memcpy(t->img, t->mem, NM);
        if (t->kind == K_BEGIN) t->irrev = false;
        bool keep = rndp(&t->r, 50);   /* keep failing over restarts? */
        bool commits = rndp(&t->r, 50);
        if (t->kind == K_SEGV || t->kind == K_RAISE) {
            picotm_begin picotm_libc_clear_signals(); picotm_libc_add_signal(SIGSEGV, true, &e); picotm_libc_add_signal(SIGUSR1, true, &e); picotm_commit picotm_end
            t->begins = t->finishes = 0;
        }
        if (commits && !t->restarts_left) t->restarts_left = 1;
        picotm_begin
            body(t);
            /* successful executions restore what they wrote, so that the images stay valid */
            if (!t->fail) store_tx(t->mem, t->img, NM);
            if (!t->fail) picotm_recover_from_errno(EAGAIN);
        picotm_commit
            t->nrecov++;
            if (!t->fail) {
                if (picotm_error_status() != PICOTM_ERRNO || picotm_error_as_errno() != EAGAIN) vf_viol("wrong-error", "later error of the same transaction reported as %d/%d", picotm_error_status(), picotm_error_as_errno());
                same_as_before(t, "second recovery");
            } else {
                check_recovery(t);
                if (t->restarts_left-- > 0) {
                    if (!keep || t->restarts_left == 0) t->fail = !commits;
                    vf_count("restarts", 1);
                    picotm_restart();
                }
            }
        picotm_end
        if (t->nrecov == 0) vf_viol("no-error", "%s: recovery phase not entered", kname[t->kind]);
        same_as_before(t, "after the transaction");
        /* a later transaction does not see any of it, and commits */
        t->fail = false; t->kind = K_CODE; t->execs = 0; t->begins = t->finishes = 0;
        static __thread volatile int rec; rec = 0;
        unsigned char v = rnd(&t->r); size_t o = rndn(&t->r, NM);
        picotm_begin
            if (picotm_error_status() != 0) vf_viol("stale-error", "error status %d in a later transaction", picotm_error_status());
            if (picotm_error_is_non_recoverable()) vf_viol("stale-error", "later transaction starts with a non-recoverable error");
            store_tx(t->mem + o, &v, 1);
            vf_delay(&t->r, delaypct);
        picotm_commit
            rec = 1;
        picotm_end
        if (rec) vf_viol("stale-error", "later transaction entered recovery with status %d", picotm_error_status());
        if (t->mem[o] != v || t->mapplied != 1) vf_viol("stale-error", "later transaction did not commit");
        t->h = t->h * 31 + t->kind * 1000 + t->code;
        if (rndp(&t->r, 5)) picotm_release();
        vf_tick();
    }
    picotm_release();
    return NULL;
}
/* non-recoverable errors: in a child of its own, as nothing runs after them */
static int nr_kind;
static void nr_apply(void *d, struct picotm_error *e) { if (nr_kind == 0) picotm_error_set_errno(e, 77); }
static void nr_apply_ev(uint16_t h, uintptr_t t, void *d, struct picotm_error *e) { if (nr_kind == 1) picotm_error_set_error_code(e, PICOTM_OUT_OF_BOUNDS); }
static const struct picotm_module_ops nr_ops = { .apply = nr_apply, .apply_event = nr_apply_ev };
static void nonrecoverable(uint64_t ci)
{
    nr_kind = ci % 4;
    pid_t p = fork();
    if (!p) {
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        unsigned long m = picotm_register_module(&nr_ops, NULL, &e);
        static int x;
        picotm_begin
            store_int_tx(&x, 5);
            picotm_append_event(m, 1, 2, &e);
            if (nr_kind == 2) { picotm_error_set_errno(&e, 55); picotm_error_mark_as_non_recoverable(&e); picotm_recover_from_error(&e); }
            if (nr_kind == 3) { picotm_error_set_error_code(&e, PICOTM_OUT_OF_MEMORY); picotm_error_mark_as_non_recoverable(&e); picotm_recover_from_error(&e); }
        picotm_commit
            int ok = picotm_error_is_non_recoverable();
            switch (nr_kind) {
            case 0: ok &= picotm_error_status() == PICOTM_ERRNO && picotm_error_as_errno() == 77; break;
            case 1: ok &= picotm_error_status() == PICOTM_ERROR_CODE && picotm_error_as_error_code() == PICOTM_OUT_OF_BOUNDS; break;
            case 2: ok &= picotm_error_status() == PICOTM_ERRNO && picotm_error_as_errno() == 55; break;
            case 3: ok &= picotm_error_status() == PICOTM_ERROR_CODE && picotm_error_as_error_code() == PICOTM_OUT_OF_MEMORY; break;
            }
            _exit(ok ? 42 : 43);
        picotm_end
        _exit(44);
    }
    int st = 0;
    if (p < 0 || waitpid(p, &st, 0) != p) exit(2);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 42)
        vf_viol("non-recoverable", "error during commit (kind %d): %s", nr_kind, WIFEXITED(st) && WEXITSTATUS(st) == 44 ? "transaction returned as committed" : "not reported as the non-recoverable error it is");
    vf_count("non-recoverable", 1);
}
static void nontx(int s, siginfo_t *i, void *u) { const char m[] = "@VIOL signal | signal outside of the transaction's handler\n"; if (write(1, m, sizeof(m) - 1)) {} _exit(1); }
/* An error structure has what was set last, and nothing of what was before. */
static void error_ops(struct rng *r)
{
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    struct picotm_rwlock lock = PICOTM_RWLOCK_INITIALIZER;
    static const char text[128] = "description";
    siginfo_t si; memset(&si, 0, sizeof(si));
    int kind = 0, num = 0; bool nonrec = false; const char *desc = NULL; void *lk = NULL;
    for (int i = 0; i < 12; ++i) {
        int op = rndn(r, 8), old = kind;
        switch (op) {
        case 0: picotm_error_clear(&e); kind = 0; break;
        case 1: lk = rndn(r, 2) ? &lock : NULL; picotm_error_set_conflicting(&e, lk); kind = PICOTM_CONFLICTING; break;
        case 2: picotm_error_set_revocable(&e); kind = PICOTM_REVOCABLE; break;
        case 3: num = rndn(r, 3); picotm_error_set_error_code(&e, num); kind = PICOTM_ERROR_CODE; break;
        case 4: num = 1 + rndn(r, 100); picotm_error_set_errno(&e, num); kind = PICOTM_ERRNO; break;
        case 5: num = 1 + rndn(r, 30); si.si_signo = num; si.si_addr = text + num; picotm_error_set_siginfo_t(&e, &si); kind = PICOTM_SIGINFO_T; break;
        case 6: picotm_error_mark_as_non_recoverable(&e); break;
        default: picotm_error_set_description(&e, text); break;
        }
        if (op < 6) { nonrec = false; desc = NULL; } else if (op == 6) nonrec = true; else desc = text;
        bool ok = picotm_error_is_set(&e) == !!kind && e.status == kind && e.is_non_recoverable == nonrec && picotm_error_get_description(&e) == desc
            && picotm_error_is_conflicting(&e) == (kind == PICOTM_CONFLICTING) && picotm_error_is_revocable(&e) == (kind == PICOTM_REVOCABLE);
        if (kind == 0 || kind == PICOTM_CONFLICTING) ok = ok && !picotm_error_is_error(&e);
        if (kind == PICOTM_ERROR_CODE || kind == PICOTM_ERRNO || kind == PICOTM_SIGINFO_T) ok = ok && picotm_error_is_error(&e);
        if (kind == PICOTM_CONFLICTING) ok = ok && e.value.conflicting_lock == lk;
        if (kind == PICOTM_ERROR_CODE) ok = ok && (int)e.value.error_hint == num;
        if (kind == PICOTM_ERRNO) ok = ok && e.value.errno_hint == num;
        if (kind == PICOTM_SIGINFO_T) ok = ok && e.value.siginfo_t_info.si_signo == num && e.value.siginfo_t_info.si_addr == text + num;
        if (!ok) vf_viol("error-structure", "operation %d on an error of kind %d leaves kind %d (set: %d), %srecoverable, description %s", op, old, (int)e.status, picotm_error_is_set(&e), e.is_non_recoverable ? "non-" : "", e.description ? "set" : "none");
    }
    vf_count("error-structures", 1);
    /* settings */
    enum picotm_libc_error_recovery rec = picotm_libc_get_error_recovery();
    for (int i = 0; i < 3; ++i) {
        enum picotm_libc_error_recovery to = rndn(r, 2) ? PICOTM_LIBC_ERROR_RECOVERY_AUTO : PICOTM_LIBC_ERROR_RECOVERY_FULL;
        picotm_libc_set_error_recovery(to);
        if (picotm_libc_get_error_recovery() != to) vf_viol("settings", "error recovery is %d after setting %d", picotm_libc_get_error_recovery(), to);
    }
    picotm_libc_set_error_recovery(rec);
    enum picotm_libc_cc_mode old[5], set[5];
    for (int i = 0; i < 5; ++i) old[i] = set[i] = picotm_libc_get_file_type_cc_mode(i);
    for (int i = 0; i < 6; ++i) {
        int t = rndn(r, 5);
        picotm_libc_set_file_type_cc_mode(t, set[t] = rndn(r, 2) ? PICOTM_LIBC_CC_MODE_NOUNDO : PICOTM_LIBC_CC_MODE_2PL);
        for (int k = 0; k < 5; ++k) if (picotm_libc_get_file_type_cc_mode(k) != set[k]) vf_viol("settings", "file type %d has mode %d instead of %d", k, picotm_libc_get_file_type_cc_mode(k), set[k]);
    }
    for (int i = 0; i < 5; ++i) picotm_libc_set_file_type_cc_mode(i, old[i]);
}

int main(int argc, char **argv)
{
    vf_init(argc, argv);
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    picotm_libc_acquire_proc_signal(SIGSEGV, nontx, &e);
    picotm_libc_acquire_proc_signal(SIGUSR1, nontx, &e);
    if (picotm_error_is_set(&e)) return 2;
    for (uint64_t ci = vf_from; ci < vf_from + vf_cases && vf_more(); ++ci) {
        vf_case(ci);
        if (ci % 50 < 4) nonrecoverable(ci);
        struct rng r = vf_rng(vf_seed, 11, ci);
        struct rng re = vf_rng(vf_seed, 17, ci); error_ops(&re);
        int n = 1 + rndn(&r, vf_threads);
        delaypct = rndn(&r, 10);
        for (int i = 0; i < n; ++i) {
            struct th *t = &ths[i];
            memset(t, 0, sizeof(*t));
            t->id = i; t->r = vf_rng(vf_seed, ci, i + 100);
            t->mem = malloc(NM + 8);
            for (int k = 0; k < NM + 8; ++k) t->mem[k] = rnd(&r);
            for (int k = 0; k < NFILE; ++k) t->fimg[k] = rnd(&r);
            snprintf(t->dir, sizeof(t->dir), "%s/c08.%d.%d", vf_dir, getpid(), i);
            t->fd = open(t->dir, O_RDWR | O_CREAT, 0600);
            unlink(t->dir);
            if (t->fd < 0 || pwrite(t->fd, t->fimg, NFILE, 0) != NFILE) return 2;
            t->page = mmap(NULL, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            txstack_state_init(&t->stack);
            t->nstack = rndn(&r, 8);
            picotm_begin
                struct txstack *s = txstack_of_state_tx(&t->stack);
                for (int k = 0; k < t->nstack; ++k) { txstack_entry_init_tm(&t->nodes[k].e); txstack_push_tx(s, &t->nodes[k].e); }
            picotm_commit
                return 2;
            picotm_end
        }
        for (int i = 0; i < n; ++i) if (pthread_create(&ths[i].pt, NULL, run, &ths[i])) exit(2);
        uint64_t h = ci;
        for (int i = 0; i < n; ++i) { pthread_join(ths[i].pt, NULL); h = h * 1000003 + ths[i].h; }
        for (int i = 0; i < n; ++i) {
            struct th *t = &ths[i];
            picotm_begin
                struct txstack *s = txstack_of_state_tx(&t->stack);
                if (txstack_size_tx(s) != (size_t)t->nstack) vf_viol("unclean", "stack has %zu entries instead of %d", txstack_size_tx(s), t->nstack);
                while (!txstack_empty_tx(s)) txstack_pop_tx(s);
            picotm_commit
            picotm_end
            for (int k = 0; k < t->nstack; ++k) txstack_entry_uninit_tm(&t->nodes[k].e);
            txstack_state_uninit(&t->stack);
            munmap(t->page, 4096); close(t->fd); free(t->mem);
        }
        vf_distinct(h);
    }
    picotm_release();
    vf_finish(0);
}
