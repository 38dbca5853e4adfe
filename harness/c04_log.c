/* C04: event log and module callbacks.  User modules record every callback;
 * an on-line automaton checks the life cycle of each execution. */
#include "vf_tx.h"
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"

#define MAXMOD 12         /* of most transactions */
#define ALLMOD 400        /* more than picotm accepts */
#define MAXEV 70100     /* more than any 16-bit index */
enum { IDLE, BEGUN, RUNNING, PREPARING, COMMITTING, UNDOING, FINISHING };
static const char *pname[] = { "idle", "begin", "body", "prepare-commit", "commit", "undo", "finish" };
struct th;
struct mod {
    struct th *t; int idx; unsigned long id; bool live, late;
    int begin, prepare, apply, undo, finish;
    int released;
};
struct ev { uint16_t mod, head; uintptr_t tail; };
struct th {
    pthread_t pt; int id; struct rng r;
    struct mod m[ALLMOD]; int nmod;
    int phase;
    struct ev ev[MAXEV]; int nev;
    int applied, undone;          /* number of event callbacks seen */
    int fail_prepare;             /* module index to fail in prepare, -1 */
    int fail_kind;
    bool expect_abort, expect_commit;
    bool irrev, in_commit_phase;
    uint64_t h;
    bool committed, aborted, used;
    int execs;
};
static int nops_mask;             /* which callbacks are registered at all */
static int shared_int[8];

#define BAD(t, sig, ...) vf_viol(sig, __VA_ARGS__)

static void all_begun(struct th *t, const char *what)
{
    for (int i = 0; i < t->nmod; ++i)
        if (t->m[i].begin != (t->m[i].late ? 0 : 1))
            BAD(t, "begin-count", "module %d saw begin %d times before %s", i, t->m[i].begin, what);
}
static void cb_begin(void *d, struct picotm_error *e)
{
    struct mod *m = d; struct th *t = m->t;
    if (t->phase != IDLE && t->phase != BEGUN) BAD(t, "begin-phase", "begin of module %d in phase %s", m->idx, pname[t->phase]);
    t->phase = BEGUN;
    if (m->begin++) BAD(t, "begin-twice", "module %d begun twice", m->idx);
}
static void cb_prepare(void *d, int irr, struct picotm_error *e)
{
    struct mod *m = d; struct th *t = m->t;
    if (t->phase != RUNNING && t->phase != PREPARING) BAD(t, "prepare-phase", "prepare-commit of module %d in phase %s", m->idx, pname[t->phase]);
    if (t->phase == RUNNING && !t->expect_commit) BAD(t, "commit-of-abort", "prepare-commit, but the body did not end regularly");
    t->phase = PREPARING;
    if (m->prepare++) BAD(t, "prepare-twice", "module %d prepared twice", m->idx);
    if (!!irr != t->irrev) BAD(t, "irrevocable-arg", "prepare-commit got is_irrevocable=%d in a%s transaction", irr, t->irrev ? "n irrevocable" : " revocable");
    if (t->fail_prepare == m->idx) {
        t->expect_commit = false; t->expect_abort = true;
        switch (t->fail_kind) {
        case 0: picotm_error_set_conflicting(e, NULL); break;
        case 1: picotm_error_set_errno(e, EBUSY); break;
        case 2: picotm_error_set_error_code(e, PICOTM_OUT_OF_MEMORY); break;
        }
    }
}
static void to_commit(struct th *t, const char *what)
{
    if (t->phase == COMMITTING) return;
    if (t->phase != PREPARING || !t->expect_commit) BAD(t, "apply-phase", "%s in phase %s%s", what, pname[t->phase], t->expect_commit ? "" : " of an aborting execution");
    for (int i = 0; i < t->nmod; ++i) if (!t->m[i].prepare) BAD(t, "apply-before-prepare", "%s before module %d was prepared", what, i);
    t->phase = COMMITTING;
}
static void to_undo(struct th *t, const char *what)
{
    if (t->phase == UNDOING) return;
    if ((t->phase != RUNNING && t->phase != PREPARING) || !t->expect_abort) BAD(t, "undo-phase", "%s in phase %s%s", what, pname[t->phase], t->expect_abort ? "" : " of a committing execution");
    t->phase = UNDOING;
}
static void cb_apply(void *d, struct picotm_error *e)
{
    struct mod *m = d; struct th *t = m->t;
    to_commit(t, "apply");
    if (m->apply++) BAD(t, "apply-twice", "module %d applied twice", m->idx);
}
static void cb_undo(void *d, struct picotm_error *e)
{
    struct mod *m = d; struct th *t = m->t;
    to_undo(t, "undo");
    if (m->undo++) BAD(t, "undo-twice", "module %d undone twice", m->idx);
}
static void cmp_ev(struct th *t, struct mod *m, int i, uint16_t head, uintptr_t tail, const char *what)
{
    if (i < 0 || i >= t->nev) { BAD(t, "event-count", "%s called for %d events although %d were logged", what, i + 1, t->nev); return; }
    struct ev *e = &t->ev[i];
    if (e->mod != m->idx || e->head != head || e->tail != tail)
        BAD(t, "event-order", "%s number %d of %d got (module %d, %u, %lx), logged was (module %d, %u, %lx)", what, i, t->nev,
            m->idx, head, (unsigned long)tail, e->mod, e->head, (unsigned long)e->tail);
}
static void cb_apply_event(uint16_t head, uintptr_t tail, void *d, struct picotm_error *e)
{
    struct mod *m = d; struct th *t = m->t;
    to_commit(t, "apply-event");
    cmp_ev(t, m, t->applied, head, tail, "apply-event");
    t->applied++;
}
static void cb_undo_event(uint16_t head, uintptr_t tail, void *d, struct picotm_error *e)
{
    struct mod *m = d; struct th *t = m->t;
    to_undo(t, "undo-event");
    cmp_ev(t, m, t->nev - 1 - t->undone, head, tail, "undo-event");
    t->undone++;
}
static void reset_exec(struct th *t)
{
    for (int i = 0; i < t->nmod; ++i) {
        struct mod *m = &t->m[i];
        m->begin = m->prepare = m->apply = m->undo = m->finish = 0; m->late = false;
    }
    t->nev = t->applied = t->undone = 0; t->phase = IDLE;
}
static void cb_finish(void *d, struct picotm_error *e)
{
    struct mod *m = d; struct th *t = m->t;
    if (t->phase != FINISHING) {
        if (t->phase == COMMITTING || (t->phase == PREPARING && t->expect_commit)) {
            if (t->applied != t->nev) BAD(t, "event-lost", "%d of %d events applied", t->applied, t->nev);
            for (int i = 0; i < t->nmod; ++i) if (t->m[i].apply != 1) BAD(t, "apply-count", "module %d applied %d times", i, t->m[i].apply);
            if (t->undone) BAD(t, "apply-and-undo", "%d events undone in a commit", t->undone);
            vf_count("events-applied", t->applied);
            t->committed = true;
        } else if (t->phase == UNDOING || t->expect_abort) {
            if (t->undone != t->nev) BAD(t, "event-lost", "%d of %d events undone", t->undone, t->nev);
            for (int i = 0; i < t->nmod; ++i) if (t->m[i].undo != 1) BAD(t, "undo-count", "module %d undone %d times", i, t->m[i].undo);
            if (t->applied) BAD(t, "apply-and-undo", "%d events applied in an abort", t->applied);
            vf_count("events-undone", t->undone);
            t->aborted = true;
        } else
            BAD(t, "finish-phase", "finish of module %d in phase %s", m->idx, pname[t->phase]);
        t->phase = FINISHING;
    }
    if (m->finish++) BAD(t, "finish-twice", "module %d finished twice", m->idx);
    int n = 0;
    for (int i = 0; i < t->nmod; ++i) n += t->m[i].finish > 0;
    if (n == t->nmod) reset_exec(t);
}
static void cb_release(void *d)
{
    struct mod *m = d;
    if (m->t->phase != IDLE) BAD(m->t, "release-phase", "module released in phase %s", pname[m->t->phase]);
    m->released++; m->live = false;
}
static const struct picotm_module_ops ops = {
    .begin = cb_begin, .prepare_commit = cb_prepare, .apply = cb_apply, .undo = cb_undo,
    .apply_event = cb_apply_event, .undo_event = cb_undo_event, .finish = cb_finish, .release = cb_release
};
static bool add_module(struct th *t, bool late)
{
    struct mod *m = &t->m[t->nmod];
    memset(m, 0, sizeof(*m));
    m->t = t; m->idx = t->nmod; m->live = true; m->late = late;
    struct picotm_error err = PICOTM_ERROR_INITIALIZER;
    m->id = picotm_register_module(&ops, m, &err);
    if (picotm_error_is_set(&err)) {
        /* there's a limit, but only on the number of modules of a thread */
        if (t->nmod <= MAXMOD || err.status != PICOTM_ERROR_CODE || err.value.error_hint != PICOTM_OUT_OF_MEMORY) BAD(t, "register", "registering module %d failed with status %d", m->idx, (int)err.status);
        vf_count("modules-refused", 1); return false;
    }
    for (int i = 0; i < t->nmod; ++i) if (t->m[i].id == m->id) BAD(t, "module-id", "module number %lu given twice", m->id);
    t->nmod++;
    return true;
}

static void body(struct th *t, int target, int abort_at, int maxev, bool wantirrev)
{
    t->execs++;
    if (t->phase != BEGUN && !(t->phase == IDLE && !t->nmod)) BAD(t, "exec-phase", "execution starts in phase %s", pname[t->phase]);
    all_begun(t, "the body");
    t->phase = RUNNING;
    t->expect_commit = false; t->expect_abort = true; t->committed = t->aborted = false;
    t->irrev = picotm_is_irrevocable();
    if (wantirrev && !t->irrev) picotm_irrevocable();
    int n = rndn(&t->r, maxev + 1);
    if (n > 65536) vf_count("executions-of-65536-events", 1);
    t->h = vf_hash(t->h, &n, sizeof(n));
    for (int i = 0; i < n; ++i) {
        if (t->nmod < MAXMOD && rndn(&t->r, 200) == 0) { add_module(t, true); vf_count("late-modules", 1); }
        int mi = rndn(&t->r, t->nmod);
        struct ev e = { mi, rnd(&t->r), rnd(&t->r) };
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        picotm_append_event(t->m[mi].id, e.head, e.tail, &err);
        if (picotm_error_is_set(&err)) { BAD(t, "append", "append failed after %d events", i); picotm_recover_from_error(&err); }
        t->ev[t->nev++] = e;
        t->h = vf_hash(t->h, &e.mod, 2);
        if (rndn(&t->r, 20) == 0) {
            int *p = &shared_int[rndn(&t->r, 8)];
            store_int_tx(p, load_int_tx(p) + 1);
        }
        if (!t->irrev) {
            int k = rndn(&t->r, 300 + (n > 300 ? n : 0));
            if (k == 0) vf_conflict();
            if (k == 1) picotm_recover_from_errno(EIO);
            if (k == 2) picotm_irrevocable();
        }
    }
    t->fail_prepare = -1;
    if (!t->irrev && rndp(&t->r, 15)) { t->fail_prepare = rndn(&t->r, t->nmod); t->fail_kind = rndn(&t->r, 3); vf_count("prepare-failures", 1); }
    t->expect_commit = true; t->expect_abort = false;
    /* from here on only prepare-commit may turn it into an abort */
}

static uint64_t from, cases;
static void *run(void *arg)
{
    struct th *t = arg;
    for (uint64_t ci = from; ci < from + cases && vf_more(); ++ci) {
        if (t->id == 0) vf_case(ci);
        t->r = vf_rng(vf_seed, 4 + t->id, ci);
        t->h = 99;
        if (!t->nmod) {
            int n = 1 + rndn(&t->r, 5);
            t->phase = IDLE;
            if (rndn(&t->r, 150) == 0) n = ALLMOD;
            for (int i = 0; i < n; ++i) if (!add_module(t, false)) break;
        }
        int maxev = rndp(&t->r, 70) ? 12 : rndp(&t->r, 90) ? 200 : rndp(&t->r, 97) ? 4000 : MAXEV - 1;
        bool wantirrev = rndp(&t->r, 5);
        volatile int restarts = 0, failed = 0;
        picotm_begin
            failed = 0;
            body(t, 0, 0, maxev, wantirrev);
        picotm_commit
            failed = 1;
            if (!t->aborted || t->committed) BAD(t, "recovery-without-undo", "recovery phase reached without roll-back (aborted %d, committed %d)", t->aborted, t->committed);
            if (t->phase != IDLE) BAD(t, "recovery-phase", "recovery in phase %s", pname[t->phase]);
            if (restarts++ < 2) picotm_restart();
        picotm_end
        if (!failed && !t->committed) BAD(t, "not-applied", "transaction returned without committing (phase %s)", pname[t->phase]);
        if (t->phase != IDLE) BAD(t, "unfinished", "transaction over in phase %s", pname[t->phase]);
        vf_count("transactions", 1);
        vf_count("executions", t->execs);
        if (t->execs > 1) vf_distinct(t->h);
        if (t->execs > 1 && t->id == 0) vf_sample("case %" PRIu64 ": %d modules, %d executions, %s", ci, t->nmod, t->execs, failed ? "failed" : "committed");
        t->execs = 0;
        vf_tick();
        if (rndp(&t->r, 10)) {
            picotm_release();
            for (int i = 0; i < t->nmod; ++i)
                if (t->m[i].released != 1) BAD(t, "release-count", "module %d released %d times", i, t->m[i].released);
            t->nmod = 0;
            vf_count("releases", 1);
        }
    }
    picotm_release();
    for (int i = 0; i < t->nmod; ++i)
        if (t->m[i].released != 1) BAD(t, "release-count", "module %d released %d times", i, t->m[i].released);
    return NULL;
}
int main(int argc, char **argv)
{
    vf_init(argc, argv);
    from = vf_from; cases = vf_cases;
    static struct th ths[16];
    for (int i = 0; i < vf_threads; ++i) { ths[i].id = i; pthread_create(&ths[i].pt, NULL, run, &ths[i]); }
    for (int i = 0; i < vf_threads; ++i) pthread_join(ths[i].pt, NULL);
    vf_finish(0);
}
