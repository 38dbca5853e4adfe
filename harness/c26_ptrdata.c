/* C26: data attached to pointers.
 * Threads attach data to shared and own addresses. Thread-local data is
 * compared with a model after every operation; it has to survive the end of
 * transactions and to end with picotm_release(). Histories of shared data are
 * recorded per address, with the interval of each operation, and checked for
 * linearizability as an atomic register with test-and-set. Data items carry a
 * payload, whose publication the race detector observes. */
#include "vf_tx.h"
#include "picotm/picotm-ptrdata.h"

#define MAXKEYS 24
#define MAXOPS 48          /* per address */
enum { SET, TAS, CLEAR, GET };
struct item { long magic; long id; };
struct op { int kind; int thread; uintptr_t cur, val; int succ; uintptr_t res; uint64_t from, to; };
static struct hist { atomic_int n; struct op op[MAXOPS]; } H[MAXKEYS];
static const void *keys[MAXKEYS]; static int nkeys;
static struct item items[4096]; static atomic_long nitems;
static atomic_ullong now;
static pthread_barrier_t bar; static volatile uint64_t cur_case;
static int nowork;              /* threads that only look */

static struct item *newitem(void)
{
    long i = atomic_fetch_add(&nitems, 1);
    if (i >= 4096) return &items[i % 4096];
    items[i].magic = i * 7 + 1; items[i].id = i;    /* published through the shared data */
    return &items[i];
}
static void err(const char *what, struct picotm_error *e)
{
    if (picotm_error_is_set(e)) vf_viol("ptrdata-error", "%s reports an error", what);
}

/* ---- thread-local data ---- */
struct local { uintptr_t data[MAXKEYS]; bool known; };

static void *thread(void *arg)
{
    long self = (long)arg;
    struct rng r = vf_rng(vf_seed, 2600 + self, cur_case);
    struct local L; memset(&L, 0, sizeof(L));
    int ntx = 2 + (int)rndn(&r, 8);
    bool looks_only = self && rndp(&r, 25);
    uint64_t h = 0;
    if (!self) picotm_begin       /* keeps the shared data throughout the case */
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        ptr_set_data(keys[0], NULL, &e); err("ptr_set_data()", &e);
    picotm_commit picotm_end
    pthread_barrier_wait(&bar);
    for (int t = 0; t < ntx && vf_more(); ++t) {
        int end = rndn(&r, 4); volatile int runs = 0;
        struct rng r0 = r; struct rng rr;
        picotm_begin
            rr = r0; for (int i = 0; i < runs; ++i) rnd(&rr); ++runs;   /* another program in each execution */
            int n = 1 + (int)rndn(&rr, 8);
            for (int i = 0; i < n; ++i) {
                int k = rndn(&rr, nkeys); const void *p = keys[k];
                struct picotm_error e = PICOTM_ERROR_INITIALIZER;
                unsigned w = looks_only ? 4 + 3 * rndn(&rr, 2) : rndn(&rr, 9);
                switch (w) {
                case 0: case 1: {      /* local set */
                    uintptr_t v = rndp(&rr, 10) ? 0 : (uintptr_t)(self + 1) << 40 | (uintptr_t)rnd(&rr) >> 30;
                    ptr_set_data(p, (void*)v, &e); err("ptr_set_data()", &e); L.data[k] = v; vf_count("local-sets", 1); break; }
                case 2: ptr_clear_data(p, &e); err("ptr_clear_data()", &e); L.data[k] = 0; vf_count("local-clears", 1); break;
                case 3: case 4: {
                    void *g = ptr_get_data(p, &e); err("ptr_get_data()", &e); vf_count("local-gets", 1);
                    if ((uintptr_t)g != L.data[k]) vf_viol("ptrdata-local", "address %p's data is %p instead of %#lx (execution %d)", p, g, (unsigned long)L.data[k], runs);
                    break; }
                default: {
                    struct hist *hi = &H[k];
                    int x = atomic_fetch_add(&hi->n, 1);
                    if (x >= MAXOPS) { atomic_store(&hi->n, MAXOPS); break; }
                    struct op o = { .thread = (int)self };
                    o.kind = w == 5 ? SET : w == 6 ? TAS : w == 7 ? GET : rndp(&rr, 50) ? CLEAR : TAS;
                    struct item *it = o.kind == SET || o.kind == TAS ? newitem() : NULL;
                    if (o.kind == TAS) {   /* expect nothing, or what is there */
                        if (rndp(&rr, 60)) { o.cur = (uintptr_t)ptr_get_shared_data(p, &e); err("ptr_get_shared_data()", &e); }
                    }
                    vf_delay(&rr, 20);
                    o.val = (uintptr_t)it;
                    o.from = atomic_fetch_add(&now, 1);
                    switch (o.kind) {
                    case SET: ptr_set_shared_data(p, it, &e); err("ptr_set_shared_data()", &e); vf_count("shared-sets", 1); break;
                    case TAS: o.succ = ptr_test_and_set_shared_data(p, (void*)o.cur, it, &e); err("ptr_test_and_set_shared_data()", &e); vf_count("shared-test-and-sets", 1); break;
                    case CLEAR: ptr_clear_shared_data(p, &e); err("ptr_clear_shared_data()", &e); vf_count("shared-clears", 1); break;
                    case GET: o.res = (uintptr_t)ptr_get_shared_data(p, &e); err("ptr_get_shared_data()", &e); vf_count("shared-gets", 1); break;
                    }
                    o.to = atomic_fetch_add(&now, 1);
                    hi->op[x] = o;
                    if (o.kind == GET && o.res) {
                        struct item *g = (struct item*)o.res;
                        if (g < items || g >= items + 4096 || g->magic != g->id * 7 + 1) vf_viol("ptrdata-shared", "address %p's shared data is %p, which nobody attached", p, (void*)g);
                        vf_count("payloads-read", 1);
                    }
                    break; }
                }
            }
            if (end == 1) picotm_recover_from_errno(EIO);
            if (end == 2 && runs <= 2) vf_conflict();
        picotm_commit
        picotm_end
        r = rr;
        if (end == 1) vf_count("failed", 1); else vf_count("committed", 1);
        if (runs > 1) vf_count("restarted", 1);
        if (self && rndp(&r, 15)) { picotm_release(); memset(&L, 0, sizeof(L)); vf_count("releases", 1); }
        vf_tick();
    }
    /* all of it once more */
    picotm_begin
        for (int k = 0; k < nkeys; ++k) {
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            void *g = ptr_get_data(keys[k], &e); err("ptr_get_data()", &e);
            if ((uintptr_t)g != L.data[k]) vf_viol("ptrdata-local", "address %p's data is %p instead of %#lx at the end", keys[k], g, (unsigned long)L.data[k]);
        }
    picotm_commit picotm_end
    pthread_barrier_wait(&bar);      /* shared data lives until here */
    picotm_release();
    return NULL;
}

/* ---- linearizability of one address ---- */
struct memo { uint64_t done; uintptr_t val; };
static struct memo *memo; static size_t nmemo, cmemo; static uint64_t steps;
static bool seen(uint64_t done, uintptr_t val)
{
    if (!cmemo) { cmemo = 1 << 16; memo = calloc(cmemo, sizeof(*memo)); }
    if (nmemo * 2 > cmemo) {
        struct memo *old = memo; size_t oc = cmemo; cmemo *= 2; memo = calloc(cmemo, sizeof(*memo)); nmemo = 0;
        for (size_t i = 0; i < oc; ++i) if (old[i].done) seen(old[i].done, old[i].val);
        free(old);
    }
    uint64_t h = (done * 0x9e3779b97f4a7c15ull ^ val * 0xc2b2ae3d27d4eb4full) >> 20;
    for (;; ++h) { struct memo *m = &memo[h & (cmemo - 1)]; if (!m->done) { m->done = done; m->val = val; ++nmemo; return false; } if (m->done == done && m->val == val) return true; }
}
static bool linearize(struct op *op, int n, uint64_t done, uintptr_t val)
{
    if (done == (n == 64 ? ~0ull : (1ull << n) - 1)) return true;
    if (++steps > 2000000) return true;              /* undecided */
    uint64_t first = ~0ull;                          /* earliest end of the remaining operations */
    for (int i = 0; i < n; ++i) if (!(done >> i & 1) && op[i].to < first) first = op[i].to;
    for (int i = 0; i < n; ++i) {
        if (done >> i & 1 || op[i].from > first) continue;
        struct op *o = &op[i]; uintptr_t nv = val;
        if (o->kind == GET) { if (o->res != val) continue; }
        else if (o->kind == TAS) { if (o->succ != (val == o->cur)) continue; if (o->succ) nv = o->val; }
        else nv = o->kind == SET ? o->val : 0;
        uint64_t d = done | 1ull << i;
        if (!seen(d, nv) && linearize(op, n, d, nv)) return true;
    }
    return false;
}
static void check_histories(void)
{
    for (int k = 0; k < nkeys; ++k) {
        int n = atomic_load(&H[k].n); if (n > MAXOPS) n = MAXOPS;
        if (!n) continue;
        nmemo = 0; if (memo) memset(memo, 0, cmemo * sizeof(*memo)); steps = 0;
        if (!linearize(H[k].op, n, 0, 0)) {
            vf_viol("ptrdata-linearize", "history of address %p has no order: %d operations", keys[k], n);
            for (int i = 0; i < n; ++i) { struct op *o = &H[k].op[i];
                fprintf(stderr, "  thread %d %s [%llu,%llu] cur %#lx val %#lx succ %d res %#lx\n", o->thread, (const char*[]){ "set", "test-and-set", "clear", "get" }[o->kind], (unsigned long long)o->from, (unsigned long long)o->to, (long)o->cur, (long)o->val, o->succ, (long)o->res); }
        } else if (steps > 2000000) vf_count("histories-undecided", 1);
        else vf_count("histories-linearized", 1);
        bool overlap = false;
        for (int i = 0; i < n && !overlap; ++i) for (int j = 0; j < i; ++j) if (H[k].op[i].from < H[k].op[j].to && H[k].op[j].from < H[k].op[i].to) { overlap = true; break; }
        if (overlap) vf_count("histories-with-overlap", 1);
        uint64_t hh = 0xcbf29ce484222325ull;
        for (int i = 0; i < n; ++i) { struct op *o = &H[k].op[i]; uint64_t b = o->kind | o->thread << 4 | o->succ << 12 | !!o->res << 13; hh = vf_hash(hh, &b, 8); }
        vf_distinct(hh);
    }
}

int main(int argc, char **argv)
{
    vf_init(argc, argv);
    for (uint64_t c = vf_from; c < vf_from + vf_cases && vf_more(); ++c) {
        vf_case(c);
        struct rng r = vf_rng(vf_seed, 26, c);
        pthread_t th[64]; cur_case = c;
        memset(H, 0, sizeof(H)); atomic_store(&now, 1); atomic_store(&nitems, 0);
        nkeys = 1 + (int)rndn(&r, rndp(&r, 40) ? 3 : MAXKEYS);
        for (int k = 0; k < nkeys; ++k) {
            for (bool dup = true; dup; ) {
                uintptr_t p;
                switch (rndn(&r, 6)) {
                case 0: p = (uintptr_t)&items[rndn(&r, 100)]; break;
                case 1: p = rndn(&r, 4); break;
                case 2: p = UINTPTR_MAX - rndn(&r, 4); break;
                case 3: p = (uintptr_t)1 << rndn(&r, 64); break;
                case 4: p = k ? (uintptr_t)keys[rndn(&r, k)] ^ ((uintptr_t)1 << rndn(&r, 64)) : 8; break;
                default: p = rnd(&r); break;
                }
                keys[k] = (void*)p; dup = false;
                for (int j = 0; j < k; ++j) if (keys[j] == keys[k]) dup = true;
            }
        }
        if (c < 2) vf_sample("%d threads, %d addresses", vf_threads, nkeys);
        pthread_barrier_init(&bar, NULL, vf_threads);
        for (long i = 0; i < vf_threads; ++i) pthread_create(&th[i], NULL, thread, (void*)i);
        for (long i = 0; i < vf_threads; ++i) pthread_join(th[i], NULL);
        pthread_barrier_destroy(&bar);
        check_histories();
    }
    free(memo);
    picotm_release();
    vf_finish(0);
}
