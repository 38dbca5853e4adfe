/* C12-C15: what another transaction sees of a container while a transaction with
 * uncommitted changes is running. The reader's very first operation is any query of
 * the container, as the containers never become empty between transactions.
 * Every execution of the reader, committed or not, has to see either the content
 * before the writer's transaction or the one after it, and only the former if the
 * writer gives up.
 *
 * --arg is a mask of container types: 1 list, 2 queue, 4 stack, 8 multiset. */
#include "vf_tx.h"
#include "picotm/picotm-txlist.h"
#include "picotm/picotm-txlist-state.h"
#include "picotm/picotm-txqueue.h"
#include "picotm/picotm-txqueue-state.h"
#include "picotm/picotm-txstack.h"
#include "picotm/picotm-txstack-state.h"
#include "picotm/picotm-txmultiset.h"
#include "picotm/picotm-txmultiset-state.h"

enum { LIST, QUEUE, STACK, MSET, NT };
static const char *tname[] = { "txlist", "txqueue", "txstack", "txmultiset" };
enum { Q_EMPTY, Q_SIZE, Q_FRONT, Q_BACK, Q_WALK, Q_WALKB, Q_FIND, Q_COUNT, Q_LOWER, Q_UPPER, NQ };
static const char *qname[] = { "empty", "size", "front", "back", "walk", "walk-back", "find", "count", "lower_bound", "upper_bound" };
#define NIT 24
struct item { int id; long key; union { struct txlist_entry l; struct txqueue_entry q; struct txstack_entry s; struct txmultiset_entry m; } e; };
#define ITEM_OF(p, f) ((struct item*)((char*)(p) - offsetof(struct item, e.f)))
static struct item items[NIT];
static struct txlist_state L; static struct txqueue_state Q; static struct txstack_state S; static struct txmultiset_state M;
static int type;

static const void *key_cb(struct txmultiset_entry *e) { return &ITEM_OF(e, m)->key; }
static int cmp_cb(const void *a, const void *b) { long x = *(const long*)a, y = *(const long*)b; return (x > y) - (x < y); }

/* ids in order: front to back, queue oldest first, stack top first, multiset by key (all keys differ) */
struct cont { int n, id[NIT]; };
static void put(struct cont *c, int pos, int id) { memmove(c->id + pos + 1, c->id + pos, sizeof(int) * (c->n - pos)); c->id[pos] = id; c->n++; }
static int take(struct cont *c, int pos) { int id = c->id[pos]; c->n--; memmove(c->id + pos, c->id + pos + 1, sizeof(int) * (c->n - pos)); return id; }
static int at(const struct cont *c, int id) { for (int i = 0; i < c->n; ++i) if (c->id[i] == id) return i; return -1; }
static int lower(const struct cont *c, long key) { int i = 0; while (i < c->n && items[c->id[i]].key < key) ++i; return i; }

/* a random change that leaves at least one entry; also done to the model */
static void change(struct rng *r, struct cont *c)
{
    int id = -1;
    for (int k = 0; k < 8; ++k) { int i = rndn(r, NIT); if (at(c, i) < 0) { id = i; break; } }
    bool add = id >= 0 && (c->n < 2 || rndp(r, 50));
    if (!add && c->n < 2) return;
    int w = rndn(r, 3);
    switch (type) {
    case LIST: {
        struct txlist *l = txlist_of_state_tx(&L);
        if (add) {
            if (w == 0) { txlist_push_front_tx(l, &items[id].e.l); put(c, 0, id); }
            else if (w == 1) { txlist_push_back_tx(l, &items[id].e.l); put(c, c->n, id); }
            else { int p = rndn(r, c->n); txlist_insert_tx(l, &items[id].e.l, &items[c->id[p]].e.l); put(c, p, id); }
        } else if (w == 0) { txlist_pop_front_tx(l); take(c, 0); }
        else if (w == 1) { txlist_pop_back_tx(l); take(c, c->n - 1); }
        else { int p = rndn(r, c->n); txlist_erase_tx(l, &items[c->id[p]].e.l); take(c, p); }
        break; }
    case QUEUE: {
        struct txqueue *q = txqueue_of_state_tx(&Q);
        if (add) { txqueue_push_tx(q, &items[id].e.q); put(c, c->n, id); }
        else { txqueue_pop_tx(q); take(c, 0); }
        break; }
    case STACK: {
        struct txstack *s = txstack_of_state_tx(&S);
        if (add) { txstack_push_tx(s, &items[id].e.s); put(c, 0, id); }
        else { txstack_pop_tx(s); take(c, 0); }
        break; }
    case MSET: {
        struct txmultiset *m = txmultiset_of_state_tx(&M);
        if (add) { txmultiset_insert_tx(m, &items[id].e.m); put(c, lower(c, items[id].key), id); }
        else { int p = rndn(r, c->n); txmultiset_erase_tx(m, &items[c->id[p]].e.m); take(c, p); }
        break; }
    }
}

struct ans { int q; long key; long res; int nw; int w[NIT + 2]; };
#define MAXANS 6
struct rexec { int n; struct ans a[MAXANS]; };
static struct { pthread_t pt; struct rng r0; int nq; struct rexec x[40]; int nx; _Atomic int started, done; bool same; } RD;

static bool valid_q(int q)
{
    switch (q) {
    case Q_EMPTY: case Q_SIZE: return true;
    case Q_FRONT: return type != MSET;             /* top of the stack */
    case Q_BACK: return type == LIST || type == QUEUE;
    case Q_WALK: case Q_WALKB: return type == LIST || type == MSET;
    default: return type == MSET;
    }
}
#define WALK(ty, f, obj) do { \
        struct tx##ty##_entry *p; \
        if (a->q == Q_WALK) { struct tx##ty##_entry *end; p = tx##ty##_begin_tx(obj); end = tx##ty##_end_tx(obj); \
            for (; p != end && a->nw <= NIT; p = tx##ty##_entry_next_tx(p)) a->w[a->nw++] = ITEM_OF(p, f)->id; } \
        else { p = tx##ty##_entry_prev_tx(tx##ty##_end_tx(obj)); struct tx##ty##_entry *beg = tx##ty##_begin_tx(obj); \
            for (;;) { a->w[a->nw++] = ITEM_OF(p, f)->id; if (p == beg || a->nw > NIT) break; p = tx##ty##_entry_prev_tx(p); } } \
    } while (0)
static void ask(struct ans *a)
{
    a->nw = 0; a->res = 0;
    switch (type) {
    case LIST: {
        struct txlist *l = txlist_of_state_tx(&L);
        switch (a->q) {
        case Q_EMPTY: a->res = txlist_empty_tx(l); break;
        case Q_SIZE: a->res = txlist_size_tx(l); break;
        case Q_FRONT: a->res = ITEM_OF(txlist_front_tx(l), l)->id; break;
        case Q_BACK: a->res = ITEM_OF(txlist_back_tx(l), l)->id; break;
        default: WALK(list, l, l);
        }
        break; }
    case QUEUE: {
        struct txqueue *q = txqueue_of_state_tx(&Q);
        switch (a->q) {
        case Q_EMPTY: a->res = txqueue_empty_tx(q); break;
        case Q_SIZE: a->res = txqueue_size_tx(q); break;
        case Q_FRONT: a->res = ITEM_OF(txqueue_front_tx(q), q)->id; break;
        case Q_BACK: a->res = ITEM_OF(txqueue_back_tx(q), q)->id; break;
        }
        break; }
    case STACK: {
        struct txstack *s = txstack_of_state_tx(&S);
        switch (a->q) {
        case Q_EMPTY: a->res = txstack_empty_tx(s); break;
        case Q_SIZE: a->res = txstack_size_tx(s); break;
        case Q_FRONT: a->res = ITEM_OF(txstack_top_tx(s), s)->id; break;
        }
        break; }
    case MSET: {
        struct txmultiset *m = txmultiset_of_state_tx(&M);
        struct txmultiset_entry *e = NULL;
        switch (a->q) {
        case Q_EMPTY: a->res = txmultiset_empty_tx(m); break;
        case Q_SIZE: a->res = txmultiset_size_tx(m); break;
        case Q_COUNT: a->res = txmultiset_count_tx(m, &a->key); break;
        case Q_FIND: e = txmultiset_find_tx(m, &a->key); break;
        case Q_LOWER: e = txmultiset_lower_bound_tx(m, &a->key); break;
        case Q_UPPER: e = txmultiset_upper_bound_tx(m, &a->key); break;
        default: WALK(multiset, m, m);
        }
        if (a->q >= Q_FIND && a->q != Q_COUNT) a->res = e == txmultiset_end_tx(m) ? -1 : ITEM_OF(e, m)->id;
        break; }
    }
}
static bool agrees(const struct ans *a, const struct cont *c)
{
    int p;
    switch (a->q) {
    case Q_EMPTY: return !a->res == !!c->n;
    case Q_SIZE: return a->res == c->n;
    case Q_FRONT: return a->res == c->id[0];
    case Q_BACK: return a->res == c->id[c->n - 1];
    case Q_WALK: if (a->nw != c->n) return false; for (int i = 0; i < c->n; ++i) if (a->w[i] != c->id[i]) return false; return true;
    case Q_WALKB: if (a->nw != c->n) return false; for (int i = 0; i < c->n; ++i) if (a->w[i] != c->id[c->n - 1 - i]) return false; return true;
    case Q_COUNT: p = lower(c, a->key); return a->res == (p < c->n && items[c->id[p]].key == a->key);
    case Q_FIND: case Q_LOWER: p = lower(c, a->key); return a->res == (p < c->n && items[c->id[p]].key == a->key ? c->id[p] : -1);
    case Q_UPPER:   /* of a key that isn't there, the range is empty and may end anywhere */
        p = lower(c, a->key);
        if (p >= c->n || items[c->id[p]].key != a->key) return a->res == -1 || (p < c->n && a->res == c->id[p]);
        return a->res == (p + 1 < c->n ? c->id[p + 1] : -1);
    }
    return false;
}
static void *reader(void *arg)
{
    picotm_begin
        atomic_store(&RD.started, 1);
        struct rng r = RD.r0;
        struct rexec *x = &RD.x[RD.nx < 39 ? RD.nx++ : 39];
        x->n = 0;
        if (!RD.same) r.s += RD.nx * 77;    /* other queries in each execution */
        for (int i = 0; i < RD.nq; ++i) {
            struct ans *a = &x->a[x->n];
            do a->q = rndn(&r, NQ); while (!valid_q(a->q));
            a->key = (long)rndn(&r, 2 * NIT + 1) - 1;
            ask(a);
            x->n++;
        }
    picotm_commit
        vf_viol("reader-error", "a reader of a %s got an error", tname[type]);
    picotm_end
    atomic_store(&RD.done, 1);
    picotm_release();
    return NULL;
}
static void judge(struct rexec *x, const struct cont *pre, const struct cont *post, bool last, const char *how)
{
    bool a = true, b = post != NULL; int bad = -1;
    for (int i = 0; i < x->n; ++i) {
        if (a && !agrees(&x->a[i], pre)) a = false;
        if (b && !agrees(&x->a[i], post)) b = false;
        if (!a && !b) { bad = i; break; }
    }
    if (last) vf_count("probes-committed", 1); else if (x->n) vf_count("probes-aborted", 1); else vf_count("probe-conflicts", 1);
    vf_count("probe-queries", x->n);
    if (bad >= 0) {
        struct ans *q = &x->a[bad];
        vf_viol("isolation", "%s: %s_%s (%d. query of %s execution, key %ld) returned %ld, %d entries [%d ...]; before the writer %d entries [%d ... %d], after it %d entries [%d ... %d]; writer %s",
                tname[type], tname[type], qname[q->q], bad + 1, last ? "the committed" : "an aborted", q->key, q->res, q->nw, q->nw ? q->w[0] : -1,
                pre->n, pre->id[0], pre->id[pre->n - 1], post ? post->n : 0, post ? post->id[0] : -1, post ? post->id[post->n - 1] : -1, how);
    }
}

static void one(uint64_t ci)
{
    struct rng r = vf_rng(vf_seed, 1212, ci);
    int types[NT], n = 0;
    for (int i = 0; i < NT; ++i) if (vf_arg & (1 << i)) types[n++] = i;
    type = types[rndn(&r, n)];
    struct cont pre = { 0 };
    for (int i = 0; i < NIT; ++i) {
        items[i].id = i; items[i].key = 2 * i + 1;
        switch (type) {
        case LIST: txlist_entry_init(&items[i].e.l); break;
        case QUEUE: txqueue_entry_init(&items[i].e.q); break;
        case STACK: txstack_entry_init(&items[i].e.s); break;
        case MSET: txmultiset_entry_init(&items[i].e.m); break;
        }
    }
    switch (type) {
    case LIST: txlist_state_init(&L); break;
    case QUEUE: txqueue_state_init(&Q); break;
    case STACK: txstack_state_init(&S); break;
    case MSET: txmultiset_state_init(&M, key_cb, cmp_cb); break;
    }
    /* first content */
    static struct cont now; int n0 = 1 + rndn(&r, 8); uint64_t s0 = rnd(&r);
    picotm_begin
        struct rng q = { s0 };
        memset(&now, 0, sizeof(now));
        for (int i = 0; i < n0; ++i) {
            int id = (i * 7 + s0) % NIT;
            switch (type) {
            case LIST: txlist_push_back_tx(txlist_of_state_tx(&L), &items[id].e.l); put(&now, now.n, id); break;
            case QUEUE: txqueue_push_tx(txqueue_of_state_tx(&Q), &items[id].e.q); put(&now, now.n, id); break;
            case STACK: txstack_push_tx(txstack_of_state_tx(&S), &items[id].e.s); put(&now, 0, id); break;
            case MSET: txmultiset_insert_tx(txmultiset_of_state_tx(&M), &items[id].e.m); put(&now, lower(&now, items[id].key), id); break;
            }
        }
        (void)q;
    picotm_commit
        vf_viol("error", "set-up failed");
    picotm_end
    uint64_t h = 3;
    int ntx = 1 + rndn(&r, 4);
    for (int t = 0; t < ntx && vf_more(); ++t) {
        pre = now;
        static struct cont cur; static int nconf, execs; static bool irrev;
        nconf = rndp(&r, 40) ? 1 + rndn(&r, 2) : 0;
        bool giveup = rndp(&r, 30); int nop = 1 + rndn(&r, 4), nop2 = rndn(&r, 3); uint64_t s1 = rnd(&r);
        RD.r0 = vf_rng(rnd(&r), 5, 5); RD.nq = 1 + rndn(&r, MAXANS - 1); RD.nx = 0; RD.same = rndp(&r, 50);
        atomic_store(&RD.started, 0); atomic_store(&RD.done, 0);
        bool joined = false; static volatile bool running; running = false;
        execs = 0; irrev = false; static volatile bool committed; committed = true;
        int spins = rndn(&r, 4) ? 30 + rndn(&r, 200) : 2000;
        picotm_begin
            execs++;
            struct rng q = { s1 + execs * 1000003ull };
            cur = pre;
            for (int i = 0; i < nop; ++i) change(&q, &cur);
            if (!running) {
                if (pthread_create(&RD.pt, NULL, reader, NULL)) exit(2);
                running = true;
                while (!atomic_load(&RD.started)) usleep(20);
            }
            for (int i = 0; i < spins && !atomic_load(&RD.done); ++i) { if (i % 32 == 31) usleep(20); else __asm__ volatile("" ::: "memory"); }
            for (int i = 0; i < nop2; ++i) change(&q, &cur);
            irrev = picotm_is_irrevocable();
            if (nconf && !irrev) { nconf--; vf_conflict(); }
            if (giveup && !irrev) { struct picotm_error e = PICOTM_ERROR_INITIALIZER; picotm_error_set_error_code(&e, PICOTM_GENERAL_ERROR); picotm_recover_from_error(&e); }
        picotm_commit
            committed = false;
        picotm_end
        if (!running) { vf_viol("error", "no reader"); break; }
        if (!joined) pthread_join(RD.pt, NULL);
        if (committed) now = cur;
        if (committed) vf_count("writers-committed", 1); else vf_count("writers-given-up", 1);
        if (execs > 1) vf_count("writers-restarted", 1);
        for (int i = 0; i < RD.nx && vf_more(); ++i) judge(&RD.x[i], &pre, committed ? &now : NULL, i + 1 == RD.nx, committed ? "committed" : "gave up");
        h = vf_hash(h, &now, sizeof(now));
        for (int i = 0; i < RD.nx; ++i) h = vf_hash(h, RD.x[i].a, RD.x[i].n * sizeof(RD.x[i].a[0].q));
        vf_tick();
    }
    /* the content in the end */
    static struct rexec fin;
    picotm_begin
        fin.n = 0;
        for (int q = 0; q < 6; ++q) if (valid_q(q)) { fin.a[fin.n].q = q; ask(&fin.a[fin.n]); fin.n++; }
    picotm_commit
        vf_viol("error", "final query failed");
    picotm_end
    judge(&fin, &now, NULL, true, "finished");
    switch (type) {
    case LIST: picotm_begin txlist_clear_tx(txlist_of_state_tx(&L)); picotm_commit picotm_end txlist_state_uninit(&L); break;
    case QUEUE: for (; now.n; --now.n) { picotm_begin txqueue_pop_tx(txqueue_of_state_tx(&Q)); picotm_commit picotm_end } txqueue_state_uninit(&Q); break;
    case STACK: for (; now.n; --now.n) { picotm_begin txstack_pop_tx(txstack_of_state_tx(&S)); picotm_commit picotm_end } txstack_state_uninit(&S); break;
    case MSET: picotm_begin txmultiset_clear_tx(txmultiset_of_state_tx(&M)); picotm_commit picotm_end txmultiset_state_uninit(&M); break;
    }
    vf_distinct(h);
    vf_sample("case %" PRIu64 ": %s, %d writers", ci, tname[type], ntx);
}
int main(int argc, char **argv)
{
    vf_arg = 15;
    vf_init(argc, argv);
    for (uint64_t i = vf_from; i < vf_from + vf_cases && vf_more(); ++i) { vf_case(i); one(i); }
    picotm_release();
    vf_finish(0);
}
