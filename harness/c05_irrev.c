/* C05: exclusivity of irrevocable transactions.  A registered module sees the
 * whole span of every execution (begin .. finish); bodies and callbacks look
 * at who else is active.  Plain variables guarded by nothing but
 * irrevocability make the race detector a second witness. */
#include "vf_tx.h"
#include "picotm/picotm-tm.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"

#define MAXTH 16
struct th {
    pthread_t pt; int id; struct rng r;
    bool live;
    int want;            /* how to become irrevocable */
    int execs, irr_execs, conflicts;
    bool reported;       /* irrevocable was observed in this execution */
    bool committed; int applied, undone, inside;
    bool saw_irr;
    long done;
    uint64_t h;
};
enum { W_NO, W_CALL, W_CALL_LATE, W_CALL_TWICE, W_RETRY, W_ERROR, W_SYNC, W_DUP2, W_PREPARE, W_MAX };
static const char *wname[] = { "no", "call", "late call", "repeated call", "retry limit", "revocable error", "operation", "dup2", "prepare" };
static struct th ths[MAXTH];
static int nth, ntx, delaypct, share;
static _Atomic int active;             /* executions between begin and finish */
static _Atomic int irr;                /* 1 + id of the irrevocable thread */
static _Atomic uint64_t overlap;
static long plain_counter;             /* only irrevocable transactions write it */
static long expected;
static uint64_t data[64];
static pthread_barrier_t bar;

static void look(struct th *t, const char *where)
{
    int a = atomic_load(&active), i = atomic_load(&irr);
    if (t->reported) {
        if (a != 1) vf_viol("not-alone", "thread %d is irrevocable, but %d executions are active (%s)", t->id, a, where);
        if (i != t->id + 1) vf_viol("not-alone", "threads %d and %d are irrevocable at once (%s)", t->id, i - 1, where);
    } else if (i)
        vf_viol("not-alone", "thread %d runs (%s) although thread %d is irrevocable", t->id, where, i - 1);
    vf_count("looks", 1);
}
static void cb_begin(void *d, struct picotm_error *e)
{
    struct th *t = d;
    if (t->inside++) vf_viol("nested", "begin within an execution");
    int a = atomic_fetch_add(&active, 1);
    if (a) vf_count("overlapping-executions", 1);
    t->reported = false;
    int i = atomic_load(&irr);
    if (i) vf_viol("not-alone", "thread %d begins although thread %d is irrevocable", t->id, i - 1);
    t->applied = t->undone = 0;
}
static void cb_prepare(void *d, int is, struct picotm_error *e)
{
    struct th *t = d;
    vf_delay(&t->r, delaypct);
    look(t, "prepare-commit");
    if (t->reported && !is) vf_viol("untruthful", "an irrevocable transaction commits as revocable");
    if (!t->reported && is && t->want != W_RETRY && t->want != W_NO && t->want != W_PREPARE) vf_viol("untruthful", "a revocable transaction commits as irrevocable");
    if (!is && t->want == W_PREPARE && rndp(&t->r, 60)) picotm_error_set_revocable(e);
}
static void cb_apply(void *d, struct picotm_error *e) { struct th *t = d; t->applied++; vf_delay(&t->r, delaypct); look(t, "apply"); }
static void cb_undo(void *d, struct picotm_error *e)
{
    struct th *t = d; t->undone++;
    vf_delay(&t->r, delaypct);
    look(t, "undo");
    if (t->saw_irr && t->want != -1) vf_viol("rolled-back", "irrevocable execution of thread %d (%s) was rolled back", t->id, wname[t->want]);
}
static void cb_finish(void *d, struct picotm_error *e)
{
    struct th *t = d;
    look(t, "finish");
    t->inside--;
    if (t->reported) { t->reported = false; atomic_store(&irr, 0); }
    atomic_fetch_sub(&active, 1);
}
static void cb_release(void *d) { ((struct th*)d)->live = false; }
static const struct picotm_module_ops ops = { .begin = cb_begin, .prepare_commit = cb_prepare, .apply = cb_apply,
    .undo = cb_undo, .finish = cb_finish, .release = cb_release };

static void body(struct th *t)
{
    t->execs++;
    bool is = picotm_is_irrevocable();
    if (t->saw_irr) vf_viol("re-executed", "thread %d's transaction (%s) was executed again after it had been irrevocable", t->id, wname[t->want]);
    if (is) {
        t->saw_irr = true; t->reported = true;
        int z = 0;
        if (!atomic_compare_exchange_strong(&irr, &z, t->id + 1)) vf_viol("not-alone", "threads %d and %d are irrevocable at once", t->id, z - 1);
    }
    look(t, "start of the body");
    if (!is && picotm_number_of_restarts() == 0 && t->execs > 1) vf_viol("restart-count", "execution %d reports no restart", t->execs);
    if (picotm_number_of_restarts() != (unsigned long)(t->execs - 1))
        vf_viol("restart-count", "execution %d of a transaction reports %lu restarts", t->execs, picotm_number_of_restarts());
    if (t->want == W_CALL && !is) {
        picotm_irrevocable();
        vf_viol("returned", "picotm_irrevocable() returned in a revocable transaction");
    }
    int n = rndn(&t->r, 4);
    for (int i = 0; i < n; ++i) {
        uint64_t *p = &data[rndn(&t->r, share)], x;
        load_tx(p, &x, 8);
        x++;
        vf_delay(&t->r, delaypct);
        store_tx(p, &x, 8);
        look(t, "body");
    }
    switch (t->want) {
    case W_CALL: case W_CALL_TWICE: case W_CALL_LATE:
        if (!picotm_is_irrevocable()) picotm_irrevocable();
        if (t->want == W_CALL_TWICE) { picotm_irrevocable(); picotm_irrevocable(); }
        break;
    case W_RETRY:
        if (!picotm_is_irrevocable()) {
            t->conflicts++;
            if (t->execs > 200) { vf_viol("retry-limit", "still revocable after %d executions", t->execs); t->want = W_NO; break; }
            vf_conflict();
        }
        break;
    case W_ERROR:
        if (!picotm_is_irrevocable()) {
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            picotm_error_set_revocable(&e);
            picotm_recover_from_error(&e);
        }
        break;
    case W_DUP2: {
        int fd = dup2_tx(0, 200 + t->id);
        if (fd != 200 + t->id) vf_viol("dup2", "dup2_tx returned %d", fd);
        break; }
    }
    is = picotm_is_irrevocable();
    if (is != t->reported) vf_viol("untruthful", "irrevocability changed within one execution");
    if (is) {
        long v = plain_counter;
        vf_delay(&t->r, delaypct * 2);
        look(t, "irrevocable body");
        plain_counter = v + 1;
        for (int i = 0; i < share; ++i) {
            /* irrevocable: plain access to all memory is fine */
            uint64_t x = data[i];
            vf_delay(&t->r, delaypct / 8);
            if (data[i] != x) vf_viol("not-alone", "memory changed under an irrevocable transaction");
        }
        look(t, "end of the irrevocable body");
    } else {
        long v = plain_counter;
        vf_delay(&t->r, delaypct);
        if (v != plain_counter) vf_viol("not-alone", "an irrevocable transaction wrote while thread %d was running", t->id);
    }
}

static void *run(void *arg)
{
    struct th *t = arg;
    pthread_barrier_wait(&bar);
    for (int i = 0; i < ntx; ++i) {
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        if (!t->live) { picotm_register_module(&ops, t, &err); if (picotm_error_is_set(&err)) exit(2); t->live = true; }
        t->want = rndp(&t->r, 40) ? W_NO : (int)rndn(&t->r, W_MAX);
        if (t->want == W_SYNC) t->want = W_CALL_LATE;
        t->execs = t->conflicts = 0; t->saw_irr = t->reported = false;
        picotm_begin
            body(t);
        picotm_commit
            vf_viol("error", "unexpected error %d in recovery", picotm_error_status());
        picotm_end
        if (t->applied != 1 || t->undone) vf_viol("no-commit", "returned after %d applies and %d undos", t->applied, t->undone);
        if (t->want != W_NO && t->want != W_PREPARE && !t->saw_irr) vf_viol("not-irrevocable", "%s did not lead to irrevocability", wname[t->want]);
        if (t->want == W_DUP2 && close(200 + t->id)) vf_viol("dup2", "dup2_tx did not create the descriptor");
        if (t->saw_irr) { t->done++; vf_count("irrevocable", 1); }
        if (t->want == W_RETRY) vf_count("by-retry-limit", 1);
        if (t->want == W_ERROR) vf_count("by-error", 1);
        if (t->want == W_PREPARE && t->saw_irr) vf_count("by-prepare", 1);
        if (t->want == W_DUP2) vf_count("by-operation", 1);
        if (t->want == W_NO && t->saw_irr) vf_count("by-contention", 1);
        vf_count("transactions", 1);
        t->h = t->h * 31 + t->want + t->execs * 16 + 1;
        if (rndp(&t->r, 3)) picotm_release();
        vf_tick();
        vf_delay(&t->r, delaypct / 2);
    }
    picotm_release();
    return NULL;
}
int main(int argc, char **argv)
{
    vf_init(argc, argv);
    for (uint64_t ci = vf_from; ci < vf_from + vf_cases && vf_more(); ++ci) {
        vf_case(ci);
        struct rng r = vf_rng(vf_seed, 5, ci);
        nth = 2 + rndn(&r, vf_threads - 1);
        if (nth > MAXTH) nth = MAXTH;
        ntx = 20 + rndn(&r, 60); delaypct = rndn(&r, 30); share = 1 + rndn(&r, 16);
        pthread_barrier_init(&bar, NULL, nth);
        plain_counter = 0;
        for (int i = 0; i < nth; ++i) {
            memset(&ths[i], 0, sizeof(ths[i]));
            ths[i].id = i; ths[i].r = vf_rng(vf_seed, ci, i + 100);
        }
        for (int i = 0; i < nth; ++i) if (pthread_create(&ths[i].pt, NULL, run, &ths[i])) exit(2);
        long e = 0; uint64_t h = ci;
        for (int i = 0; i < nth; ++i) { pthread_join(ths[i].pt, NULL); e += ths[i].done; h = h * 1000003 + ths[i].h; }
        if (e != plain_counter) vf_viol("lost-update", "%ld irrevocable increments gave %ld", e, plain_counter);
        if (active || irr) vf_viol("residue", "%d executions remain active", active);
        vf_distinct(h);
        vf_sample("case %" PRIu64 ": %d threads x %d transactions, %ld irrevocable", ci, nth, ntx, e);
        pthread_barrier_destroy(&bar);
    }
    vf_finish(0);
}
