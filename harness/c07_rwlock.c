/* C07: reader/writer locks through the public interface, with a shadow of all
 * holders.  Modes: seq (many owners, one thread, exact model), conc (threads). */
#include "vf_tx.h"
#include "picotm/picotm-lib-rwlock.h"
#include "picotm/picotm-lib-rwstate.h"
#include "picotm/picotm-lib-array.h"

#define MAXTH 40
#define NL 6
/* ---- sequential model ---- */
static void seq(uint64_t ci)
{
    struct rng r = vf_rng(vf_seed, 7, ci);
    enum { NO = 12 };
    struct picotm_rwlock l[2]; struct picotm_rwstate s[NO][2]; int st[NO][2];
    for (int k = 0; k < 2; ++k) picotm_rwlock_init(&l[k]);
    for (int i = 0; i < NO; ++i) for (int k = 0; k < 2; ++k) {
        if (rndp(&r, 50)) picotm_rwstate_init(&s[i][k]); else s[i][k] = (struct picotm_rwstate)PICOTM_RWSTATE_INITIALIZER;
        st[i][k] = 0;
    }
    int no = 1 + rndn(&r, NO), nop = 5 + rndn(&r, 60);
    uint64_t h = ci;
    for (int o = 0; o < nop; ++o) {
        int i = rndn(&r, no), k = rndn(&r, 2), op = rndn(&r, 7);
        int rd = 0, wr = 0;
        for (int j = 0; j < no; ++j) if (j != i) { rd += st[j][k] == 1; wr += st[j][k] == 2; }
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        bool want = true; int before = st[i][k];
        if (op < 3) {
            picotm_rwstate_try_rdlock(&s[i][k], &l[k], &e);
            if (!before) { want = !wr; if (want) st[i][k] = 1; }
        } else if (op < 5) {
            picotm_rwstate_try_wrlock(&s[i][k], &l[k], &e);
            if (before != 2) { want = !wr && !rd; if (want) st[i][k] = 2; }
        } else {
            picotm_rwstate_unlock(&s[i][k], &l[k]);
            st[i][k] = 0;
        }
        h = h * 131 + op * 64 + i * 2 + k;
        bool is = picotm_error_is_set(&e);
        if (is == want) vf_viol("wrong-result", "op %d of owner %d in state %d with %d readers, %d writers: %s", op, i, before, rd, wr, is ? "conflict" : "granted");
        if (is && !picotm_error_is_conflicting(&e)) vf_viol("wrong-error", "lock error has status %d", (int)e.status);
        if (is && e.value.conflicting_lock != &l[k]) vf_viol("wrong-lock", "conflict names another lock");
        if ((int)picotm_rwstate_get_status(&s[i][k]) != st[i][k]) vf_viol("wrong-state", "op %d left state %d instead of %d", op, picotm_rwstate_get_status(&s[i][k]), st[i][k]);
        if (is) vf_count("seq-conflicts", 1); else vf_count("seq-granted", 1);
        if (before == 1 && st[i][k] == 2) vf_count("seq-upgrades", 1);
    }
    for (int i = 0; i < no; ++i) for (int k = 0; k < 2; ++k) picotm_rwstate_unlock(&s[i][k], &l[k]);
    for (int k = 0; k < 2; ++k) {
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        struct picotm_rwstate x = PICOTM_RWSTATE_INITIALIZER;
        picotm_rwstate_try_wrlock(&x, &l[k], &e);
        if (picotm_error_is_set(&e)) vf_viol("not-released", "lock not available after all unlocks");
        picotm_rwstate_unlock(&x, &l[k]);
        picotm_rwlock_uninit(&l[k]);
    }
    vf_distinct(h);
}
/* ---- threads ---- */
static struct lk { struct picotm_rwlock l; _Atomic int readers, writer; long plain, plain2; _Atomic long writes; } lk[NL];
static struct th { pthread_t pt; int id; struct rng r; uint64_t h; long conf, upg, rd, wr; } ths[MAXTH];
static int nth, nl, nops, delaypct; static bool old;
static pthread_barrier_t bar;

static void check_in(struct th *t, struct lk *k, int st)
{
    int w = atomic_load(&k->writer), n = atomic_load(&k->readers);
    if (st == 1 && w) vf_viol("reader-and-writer", "thread %d holds the reader lock while thread %d holds the writer lock", t->id, w - 1);
    if (st == 2 && (w != t->id + 1 || n)) vf_viol("two-writers", "thread %d holds the writer lock with %d readers, writer %d", t->id, n, w - 1);
}
static void hammer(struct th *t)
{
    struct picotm_rwstate s[NL]; int st[NL] = { 0 };
    long seen[NL];
    for (int i = 0; i < nl; ++i) picotm_rwstate_init(&s[i]);
    for (int o = 0; o < nops; ++o) {
        int i = rndn(&t->r, nl); struct lk *k = &lk[i];
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        unsigned op = rndn(&t->r, 10);
        if (st[i]) {
            check_in(t, k, st[i]);
            if (k->plain != seen[i] || k->plain2 != seen[i])
                vf_viol("changed-under-lock", "data changed from %ld to %ld,%ld while thread %d held the %s lock", seen[i], k->plain, k->plain2, t->id, st[i] == 1 ? "reader" : "writer");
        }
        if (op < 3) {
            picotm_rwstate_try_rdlock(&s[i], &k->l, &e);
            if (!picotm_error_is_set(&e) && !st[i]) {
                st[i] = 1; atomic_fetch_add(&k->readers, 1); check_in(t, k, 1); t->rd++;
                seen[i] = k->plain; if (k->plain2 != seen[i]) vf_viol("torn", "torn data under a reader lock");
            }
        } else if (op < 6) {
            int b = st[i];
            if (b == 1) atomic_fetch_sub(&k->readers, 1);
            picotm_rwstate_try_wrlock(&s[i], &k->l, &e);
            if (!picotm_error_is_set(&e)) {
                if (b != 2) {
                    int z = 0;
                    if (!atomic_compare_exchange_strong(&k->writer, &z, t->id + 1)) vf_viol("two-writers", "threads %d and %d hold the writer lock", t->id, z - 1);
                    st[i] = 2; check_in(t, k, 2); t->wr++; if (b) t->upg++;
                }
                seen[i] = ++k->plain; vf_delay(&t->r, delaypct / 2); k->plain2++; k->writes++;
                if (k->plain2 != k->plain) vf_viol("torn", "two writers at once");
            } else if (b == 1) atomic_fetch_add(&k->readers, 1);
        } else if (op < 9 || !t->id) {
            if (st[i] == 1) atomic_fetch_sub(&k->readers, 1);
            if (st[i] == 2) { int z = t->id + 1; if (!atomic_compare_exchange_strong(&k->writer, &z, 0)) vf_viol("two-writers", "writer %d replaced by %d", t->id, z - 1); }
            picotm_rwstate_unlock(&s[i], &k->l);
            st[i] = 0;
        }
        if (picotm_error_is_set(&e)) {
            t->conf++;
            if (!picotm_error_is_conflicting(&e)) vf_viol("wrong-error", "lock error has status %d", (int)e.status);
        }
        if ((int)picotm_rwstate_get_status(&s[i]) != st[i]) vf_viol("wrong-state", "state %d instead of %d", picotm_rwstate_get_status(&s[i]), st[i]);
        t->h = t->h * 31 + op + 16 * !!picotm_error_is_set(&e);
        vf_delay(&t->r, delaypct);
    }
    for (int i = 0; i < nl; ++i) {
        if (st[i] == 1) atomic_fetch_sub(&lk[i].readers, 1);
        if (st[i] == 2) atomic_store(&lk[i].writer, 0);
        picotm_rwstate_unlock(&s[i], &lk[i].l);
        picotm_rwstate_uninit(&s[i]);
    }
}
static void *run(void *a)
{
    struct th *t = a;
    pthread_barrier_wait(&bar);
    picotm_begin
        if (old) { struct timespec ts = { 1, 20000000 }; nanosleep(&ts, NULL); }
        hammer(t);
    picotm_commit
        vf_viol("error", "error in recovery");
    picotm_end
    vf_tick();
    /* a transaction later on the same thread */
    picotm_begin
        hammer(t);
    picotm_commit
    picotm_end
    picotm_release();
    return NULL;
}
static void conc(uint64_t ci)
{
    struct rng r = vf_rng(vf_seed, 8, ci);
    old = vf_arg;
    nth = 2 + rndn(&r, (rndp(&r, 50) ? vf_threads : 4) - 1); nl = 1 + rndn(&r, NL); nops = old ? 20000 : 500 + rndn(&r, 1500);
    if (rndp(&r, 50)) nl = 1;
    delaypct = rndn(&r, 10) * !rndn(&r, 2);
    for (int i = 0; i < nl; ++i) { memset(&lk[i], 0, sizeof(lk[i])); picotm_rwlock_init(&lk[i].l); }
    pthread_barrier_init(&bar, NULL, nth);
    for (int i = 0; i < nth; ++i) { memset(&ths[i], 0, sizeof(ths[i])); ths[i].id = i; ths[i].r = vf_rng(vf_seed, ci, i + 100); }
    for (int i = 0; i < nth; ++i) if (pthread_create(&ths[i].pt, NULL, run, &ths[i])) exit(2);
    uint64_t h = ci; long c = 0;
    for (int i = 0; i < nth; ++i) {
        pthread_join(ths[i].pt, NULL); h = h * 1000003 + ths[i].h; c += ths[i].conf;
        vf_count("conflicts", ths[i].conf); vf_count("upgrades", ths[i].upg); vf_count("readers", ths[i].rd); vf_count("writers", ths[i].wr);
    }
    if (old) vf_count("old-transactions", nth);
    for (int i = 0; i < nl; ++i) {
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        struct picotm_rwstate x = PICOTM_RWSTATE_INITIALIZER, y = PICOTM_RWSTATE_INITIALIZER;
        picotm_rwstate_try_wrlock(&x, &lk[i].l, &e);
        if (picotm_error_is_set(&e)) vf_viol("not-released", "lock not available although nobody holds it");
        else picotm_rwstate_unlock(&x, &lk[i].l);
        struct picotm_error e2 = PICOTM_ERROR_INITIALIZER;
        picotm_rwstate_try_rdlock(&x, &lk[i].l, &e2); picotm_rwstate_try_rdlock(&y, &lk[i].l, &e2);
        if (picotm_error_is_set(&e2)) vf_viol("not-released", "lock not available for two readers although nobody holds it");
        picotm_rwstate_unlock(&x, &lk[i].l); picotm_rwstate_unlock(&y, &lk[i].l);
        if (lk[i].plain != lk[i].writes) vf_viol("lost-write", "%ld writes gave %ld", (long)lk[i].writes, lk[i].plain);
        picotm_rwlock_uninit(&lk[i].l);
    }
    if (c) vf_distinct(h);
    vf_sample("case %" PRIu64 ": %d threads, %d locks, %d operations each, %ld conflicts", ci, nth, nl, nops * 2, c);
    pthread_barrier_destroy(&bar);
}
int main(int argc, char **argv)
{
    vf_init(argc, argv);
    for (uint64_t ci = vf_from; ci < vf_from + vf_cases && vf_more(); ++ci) {
        vf_case(ci);
        if (!strcmp(vf_mode, "seq")) {
            picotm_begin
                seq(ci);
            picotm_commit
                vf_viol("error", "error in recovery");
            picotm_end
        } else conc(ci);
    }
    picotm_release();
    vf_finish(0);
}
