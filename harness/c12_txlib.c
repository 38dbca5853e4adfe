/* C12-C15: transactional lists, queues, stacks and multisets.
 *
 * Every operation inside a transaction is logged with its result (entries by
 * id).  With one thread, every execution - also those that abort - is replayed
 * on a sequential model right away, and the containers are dumped by a further
 * transaction.  With several threads, committed transactions are replayed in
 * the order of their commit tickets; results have to be those of the model
 * (strict serializability).  Aborted executions have to fit one of the states
 * between their begin and their end (opacity).
 * --arg is a mask of container types: 1 list, 2 queue, 4 stack, 8 multiset. */
#include "vf.h"
#include "vf_tx.h"
#include "picotm/picotm-txlib.h"
#include "picotm/picotm-txlist.h"
#include "picotm/picotm-txqueue.h"
#include "picotm/picotm-txstack.h"
#include "picotm/picotm-txmultiset.h"
#include "picotm/picotm-tm.h"

enum { LIST, QUEUE, STACK, MSET, NT };
#define NC 3
#define MAXIT 400
#define MAXT 8
#define MAXPOOL 64
struct item {
    int id, type; long key;
    union { struct txlist_entry l; struct txqueue_entry q; struct txstack_entry s; struct txmultiset_entry m; } e;
};
#define ITEM_OF(p, f) ((struct item*)((char*)(p) - offsetof(struct item, e.f)))
static struct txlist_state L[NC];
static struct txqueue_state Q[NC];
static struct txstack_state S[NC];
static struct txmultiset_state M[NC];
static struct txlist_state ML0 = TXLIST_STATE_INITIALIZER(ML0);
static struct txqueue_state MQ0 = TXQUEUE_STATE_INITIALIZER(MQ0);
static struct txstack_state MS0 = TXSTACK_STATE_INITIALIZER(MS0);

static int nc, types[NT], ntypes, keyrange;
static long keys[MAXIT];           /* key by id */
static struct item *items[MAXIT];

static const void *key_cb(struct txmultiset_entry *e) { return &ITEM_OF(e, m)->key; }
static int cmp_cb(const void *a, const void *b)
{
    long x = *(const long*)a, y = *(const long*)b;
    return x < y ? -7 : x > y ? 9 : 0;
}

/* ---- model ---- */
struct cont { int n; short id[MAXIT]; };
struct model { struct cont c[NT][NC]; };
static void m_ins(struct cont *c, int pos, int id)
{
    memmove(c->id + pos + 1, c->id + pos, sizeof(c->id[0]) * (c->n - pos));
    c->id[pos] = id; c->n++;
}
static int m_find(struct cont *c, int id) { for (int i = 0; i < c->n; ++i) if (c->id[i] == id) return i; return -1; }
static void m_del(struct cont *c, int pos)
{
    c->n--;
    memmove(c->id + pos, c->id + pos + 1, sizeof(c->id[0]) * (c->n - pos));
}

/* ---- log ---- */
enum { O_FRONT, O_BACK, O_EMPTY, O_SIZE, O_PUSHF, O_PUSHB, O_POPF, O_POPB, O_INS, O_ERASE, O_CLEAR, O_WALK, O_WALKB,
       O_FIND, O_RANGE, O_COUNT, NOPS };
static const char *opname[] = { "front", "back", "empty", "size", "pushf", "pushb", "popf", "popb", "insert", "erase", "clear",
       "walk", "walkb", "find", "range", "count" };
struct op { uint8_t type, c, op; short id; short pos; long key; long res; int nwalk; short *walk; };
#define MAXOP 64
#define NOBODY (-1)
struct exec { int nop; struct op op[MAXOP]; uint64_t ticket, lo, hi; int thread, no; bool committed; };
static void exec_free(struct exec *x) { for (int i = 0; i < x->nop; ++i) free(x->op[i].walk); x->nop = 0; }

/* ---- threads ---- */
struct th {
    pthread_t pt; int id; struct rng r, txr;
    int npool[NT]; short pool[NT][MAXPOOL];
    int npool2[NT]; short pool2[NT][MAXPOOL];
    struct exec cur; int nlog; struct exec *log;
    struct vf_txmon mon; uint64_t lo; bool started;
    int nab; volatile int execs, abortn, failn; int no;
};
static struct th ths[MAXT];
static int nth, ntx, maxop, delaypct; static bool seq, realloc_items;
static pthread_barrier_t bar;
static struct model *base;   /* sequential mode */
static _Atomic bool stop;

static void new_item(int id)
{
    struct item *it = malloc(sizeof(*it));
    memset(it, 0x7e, sizeof(*it));
    it->id = id; it->type = id % NT; it->key = keys[id];
    if (id / NT % 2) {
        picotm_begin
            switch (it->type) {
            case LIST: txlist_entry_init_tm(&it->e.l); break;
            case QUEUE: txqueue_entry_init_tm(&it->e.q); break;
            case STACK: txstack_entry_init_tm(&it->e.s); break;
            case MSET: txmultiset_entry_init_tm(&it->e.m); break;
            }
        picotm_commit
            vf_viol("entry-init", "a transaction that initialises an entry fails");
        picotm_end
    } else
    switch (it->type) {
    case LIST: txlist_entry_init(&it->e.l); break;
    case QUEUE: txqueue_entry_init(&it->e.q); break;
    case STACK: txstack_entry_init(&it->e.s); break;
    case MSET: txmultiset_entry_init(&it->e.m); break;
    }
    items[id] = it;
}
static void del_item(int id)
{
    struct item *it = items[id];
    if (id / NT % 2) {
        picotm_begin
            switch (it->type) {
            case LIST: txlist_entry_uninit_tm(&it->e.l); break;
            case QUEUE: txqueue_entry_uninit_tm(&it->e.q); break;
            case STACK: txstack_entry_uninit_tm(&it->e.s); break;
            case MSET: txmultiset_entry_uninit_tm(&it->e.m); break;
            }
        picotm_commit
            vf_viol("entry-uninit", "a transaction that cleans up an entry fails");
        picotm_end
    } else
    switch (it->type) {
    case LIST: txlist_entry_uninit(&it->e.l); break;
    case QUEUE: txqueue_entry_uninit(&it->e.q); break;
    case STACK: txstack_entry_uninit(&it->e.s); break;
    case MSET: txmultiset_entry_uninit(&it->e.m); break;
    }
    memset(it, 0x3c, sizeof(*it));
    free(it); items[id] = NULL;
}

static struct op *log_op(struct th *t, int type, int c, int op)
{
    struct op *o = &t->cur.op[t->cur.nop];
    memset(o, 0, sizeof(*o));
    o->type = type; o->c = c; o->op = op; o->id = NOBODY;
    return o;
}
static void logged(struct th *t) { t->cur.nop++; }
static void wput(struct op *o, int id)
{
    if ((o->nwalk & 15) == 0) o->walk = realloc(o->walk, sizeof(short) * (o->nwalk + 16));
    o->walk[o->nwalk++] = id;
}
static int pick(struct th *t, int type)
{
    if (!t->npool2[type]) return NOBODY;
    int i = rndn(&t->txr, t->npool2[type]);
    int id = t->pool2[type][i];
    t->pool2[type][i] = t->pool2[type][--t->npool2[type]];
    return id;
}
static void put(struct th *t, int type, int id) { t->pool2[type][t->npool2[type]++] = id; }
static bool room(struct th *t, int type, int n) { return t->npool2[type] + n <= MAXPOOL; }
static long pickkey(struct th *t) { return (long)rndn(&t->txr, keyrange + 2) - 1; }

static void op_list(struct th *t, int c)
{
    struct txlist *l = txlist_of_state_tx(&L[c]);
    struct rng *r = &t->txr;
    struct op *o; int id;
    switch (rndn(r, 12)) {
    case 0: o = log_op(t, LIST, c, O_SIZE); o->res = txlist_size_tx(l); logged(t); break;
    case 1: o = log_op(t, LIST, c, O_EMPTY); o->res = txlist_empty_tx(l); logged(t); break;
    case 2: case 3: case 4: {
        id = pick(t, LIST); if (id < 0) return;
        int k = rndn(r, 3);
        o = log_op(t, LIST, c, k ? k == 1 ? O_PUSHF : O_PUSHB : O_INS); o->id = id;
        if (k == 1) txlist_push_front_tx(l, &items[id]->e.l);
        else if (k == 2) txlist_push_back_tx(l, &items[id]->e.l);
        else {
            int pos = 0;
            struct txlist_entry *p = txlist_begin_tx(l), *end = txlist_end_tx(l);
            for (int n = rndn(r, 5); n && p != end; --n, ++pos) p = txlist_entry_next_tx(p);
            o->pos = pos;
            txlist_insert_tx(l, &items[id]->e.l, p);
        }
        logged(t); break;
    }
    case 5: case 6: case 7: {
        o = log_op(t, LIST, c, O_EMPTY); o->res = txlist_empty_tx(l); logged(t);
        if (o->res || !room(t, LIST, 1)) return;
        int k = rndn(r, 3);
        o = log_op(t, LIST, c, k ? k == 1 ? O_POPF : O_POPB : O_ERASE);
        struct txlist_entry *e = k == 2 ? txlist_back_tx(l) : txlist_front_tx(l);
        if (!k) {
            struct txlist_entry *p = rndp(r, 50) ? txlist_begin_tx(l) : txlist_entry_prev_tx(txlist_end_tx(l));
            struct txlist_entry *end = txlist_end_tx(l);
            for (int n = rndn(r, 5); n; --n) {
                struct txlist_entry *q = rndp(r, 50) ? txlist_entry_next_tx(p) : txlist_entry_prev_tx(p);
                if (q == end) break;
                p = q;
            }
            e = p;
        }
        o->id = id = ITEM_OF(e, l)->id;
        if (k == 1) txlist_pop_front_tx(l); else if (k == 2) txlist_pop_back_tx(l); else txlist_erase_tx(l, e);
        put(t, LIST, id);
        logged(t); break;
    }
    case 8: {
        if (rndp(r, 70)) return;
        o = log_op(t, LIST, c, O_WALK);
        struct txlist_entry *p = txlist_begin_tx(l), *end = txlist_end_tx(l);
        for (; p != end; p = txlist_entry_next_tx(p)) wput(o, ITEM_OF(p, l)->id);
        logged(t);
        if (!room(t, LIST, o->nwalk)) return;
        struct op *w = o;
        txlist_clear_tx(l);
        o = log_op(t, LIST, c, O_CLEAR); logged(t);
        for (int i = 0; i < w->nwalk; ++i) put(t, LIST, w->walk[i]);
        break;
    }
    case 9: {
        o = log_op(t, LIST, c, O_WALKB);
        struct txlist_entry *beg = txlist_end_tx(l), *p = txlist_entry_prev_tx(beg);
        for (; p != beg; p = txlist_entry_prev_tx(p)) wput(o, ITEM_OF(p, l)->id);
        logged(t); break;
    }
    default: {
        o = log_op(t, LIST, c, O_WALK);
        struct txlist_entry *p = txlist_begin_tx(l), *end = txlist_end_tx(l);
        for (; p != end; p = txlist_entry_next_tx(p)) wput(o, ITEM_OF(p, l)->id);
        logged(t); break;
    }
    }
}
static void op_queue(struct th *t, int c)
{
    struct txqueue *q = txqueue_of_state_tx(&Q[c]);
    struct rng *r = &t->txr;
    struct op *o; int id;
    switch (rndn(r, 9)) {
    case 0: o = log_op(t, QUEUE, c, O_SIZE); o->res = txqueue_size_tx(q); logged(t); break;
    case 1: o = log_op(t, QUEUE, c, O_EMPTY); o->res = txqueue_empty_tx(q); logged(t); break;
    case 2: case 3: case 4: case 5:
        id = pick(t, QUEUE); if (id < 0) return;
        o = log_op(t, QUEUE, c, O_PUSHB); o->id = id;
        txqueue_push_tx(q, &items[id]->e.q);
        logged(t); break;
    default:
        o = log_op(t, QUEUE, c, O_EMPTY); o->res = txqueue_empty_tx(q); logged(t);
        if (o->res) return;
        if (rndp(r, 40)) { o = log_op(t, QUEUE, c, O_BACK); o->id = ITEM_OF(txqueue_back_tx(q), q)->id; logged(t); }
        if (rndp(r, 30)) { o = log_op(t, QUEUE, c, O_FRONT); o->id = ITEM_OF(txqueue_front_tx(q), q)->id; logged(t); }
        if (!room(t, QUEUE, 1)) return;
        o = log_op(t, QUEUE, c, O_POPF);
        o->id = id = ITEM_OF(txqueue_front_tx(q), q)->id;
        txqueue_pop_tx(q);
        put(t, QUEUE, id);
        logged(t); break;
    }
}
static void op_stack(struct th *t, int c)
{
    struct txstack *s = txstack_of_state_tx(&S[c]);
    struct rng *r = &t->txr;
    struct op *o; int id;
    switch (rndn(r, 9)) {
    case 0: o = log_op(t, STACK, c, O_SIZE); o->res = txstack_size_tx(s); logged(t); break;
    case 1: o = log_op(t, STACK, c, O_EMPTY); o->res = txstack_empty_tx(s); logged(t); break;
    case 2: case 3: case 4: case 5:
        id = pick(t, STACK); if (id < 0) return;
        o = log_op(t, STACK, c, O_PUSHB); o->id = id;
        txstack_push_tx(s, &items[id]->e.s);
        logged(t); break;
    default:
        o = log_op(t, STACK, c, O_EMPTY); o->res = txstack_empty_tx(s); logged(t);
        if (o->res) return;
        if (rndp(r, 30)) { o = log_op(t, STACK, c, O_BACK); o->id = ITEM_OF(txstack_top_tx(s), s)->id; logged(t); }
        if (!room(t, STACK, 1)) return;
        o = log_op(t, STACK, c, O_POPB);
        o->id = id = ITEM_OF(txstack_top_tx(s), s)->id;
        txstack_pop_tx(s);
        put(t, STACK, id);
        logged(t); break;
    }
}
static int mid(struct txmultiset_entry *e, struct txmultiset_entry *end) { return e == end ? NOBODY : ITEM_OF(e, m)->id; }
static void op_mset(struct th *t, int c)
{
    struct txmultiset *m = txmultiset_of_state_tx(&M[c]);
    struct rng *r = &t->txr;
    struct op *o; int id;
    switch (rndn(r, 14)) {
    case 0: o = log_op(t, MSET, c, O_SIZE); o->res = txmultiset_size_tx(m); logged(t); break;
    case 1: o = log_op(t, MSET, c, O_EMPTY); o->res = txmultiset_empty_tx(m); logged(t); break;
    case 2: case 3: case 4: case 5: case 6:
        id = pick(t, MSET); if (id < 0) return;
        o = log_op(t, MSET, c, O_INS); o->id = id;
        txmultiset_insert_tx(m, &items[id]->e.m);
        logged(t); break;
    case 7: case 8: {
        if (!room(t, MSET, 1)) return;
        struct txmultiset_entry *e, *end;
        if (rndp(r, 50)) {
            long k = pickkey(t);
            o = log_op(t, MSET, c, O_FIND); o->key = k;
            e = txmultiset_find_tx(m, &k); end = txmultiset_end_tx(m);
            o->id = mid(e, end); logged(t);
        } else {
            e = txmultiset_begin_tx(m); end = txmultiset_end_tx(m);
            for (int n = rndn(r, 6); n && e != end; --n) e = txmultiset_entry_next_tx(e);
        }
        if (e == end) return;
        o = log_op(t, MSET, c, O_ERASE);
        o->id = id = ITEM_OF(e, m)->id;
        txmultiset_erase_tx(m, e);
        put(t, MSET, id);
        logged(t); break;
    }
    case 9: {
        long k = pickkey(t);
        o = log_op(t, MSET, c, O_COUNT); o->key = k; o->res = txmultiset_count_tx(m, &k); logged(t);
        break;
    }
    case 10: {
        long k = pickkey(t);
        o = log_op(t, MSET, c, O_RANGE); o->key = k;
        struct txmultiset_entry *b = txmultiset_lower_bound_tx(m, &k), *e = txmultiset_upper_bound_tx(m, &k), *end = txmultiset_end_tx(m);
        o->pos = mid(e, end);
        if (b == end) o->res = -1;
        else for (; b != e && o->nwalk < MAXIT + 1; b = txmultiset_entry_next_tx(b)) { if (b == end) { o->res = -2; break; } wput(o, ITEM_OF(b, m)->id); }
        logged(t); break;
    }
    case 11: {
        o = log_op(t, MSET, c, O_WALKB);
        struct txmultiset_entry *beg, *p = txmultiset_end_tx(m);
        beg = txmultiset_begin_tx(m);
        while (p != beg && o->nwalk < MAXIT + 1) { p = txmultiset_entry_prev_tx(p); wput(o, ITEM_OF(p, m)->id); }
        logged(t); break;
    }
    case 12: {
        if (rndp(r, 60)) return;
        o = log_op(t, MSET, c, O_WALK);
        struct txmultiset_entry *p = txmultiset_begin_tx(m), *end = txmultiset_end_tx(m);
        for (; p != end && o->nwalk < MAXIT + 1; p = txmultiset_entry_next_tx(p)) wput(o, ITEM_OF(p, m)->id);
        logged(t);
        if (!room(t, MSET, o->nwalk)) return;
        struct op *w = o;
        txmultiset_clear_tx(m);
        o = log_op(t, MSET, c, O_CLEAR); logged(t);
        for (int i = 0; i < w->nwalk; ++i) put(t, MSET, w->walk[i]);
        break;
    }
    default: {
        o = log_op(t, MSET, c, O_WALK);
        struct txmultiset_entry *p = txmultiset_begin_tx(m), *end = txmultiset_end_tx(m);
        for (; p != end && o->nwalk < MAXIT + 1; p = txmultiset_entry_next_tx(p)) wput(o, ITEM_OF(p, m)->id);
        logged(t); break;
    }
    }
}
static void do_op(struct th *t)
{
    int ty = types[rndn(&t->txr, ntypes)], c = rndn(&t->txr, nc);
    if (t->cur.nop + 5 > MAXOP) return;
    switch (ty) { case LIST: op_list(t, c); break; case QUEUE: op_queue(t, c); break; case STACK: op_stack(t, c); break; case MSET: op_mset(t, c); break; }
}

/* ---- replay; returns the index of the first operation that does not fit ---- */
static int cmpshort(const void *a, const void *b) { return *(const short*)a - *(const short*)b; }
static bool sameset(const short *a, int n, const short *b, int m)
{
    if (n != m) return false;
    if (!n) return true;
    short x[MAXIT + 32], y[MAXIT + 32];
    memcpy(x, a, n * 2); memcpy(y, b, n * 2);
    qsort(x, n, 2, cmpshort); qsort(y, n, 2, cmpshort);
    return !memcmp(x, y, n * 2);
}
static bool replay_op(struct model *m, struct op *o)
{
    struct cont *c = &m->c[o->type][o->c];
    int p;
    switch (o->op) {
    case O_SIZE: return o->res == c->n;
    case O_EMPTY: return o->res == !c->n;
    case O_FRONT: return c->n && c->id[0] == o->id;
    case O_BACK: return c->n && c->id[c->n - 1] == o->id;
    case O_PUSHF: m_ins(c, 0, o->id); return true;
    case O_PUSHB: m_ins(c, c->n, o->id); return true;
    case O_POPF: if (!c->n || c->id[0] != o->id) return false; m_del(c, 0); return true;
    case O_POPB: if (!c->n || c->id[c->n - 1] != o->id) return false; m_del(c, c->n - 1); return true;
    case O_ERASE: p = m_find(c, o->id); if (p < 0) return false; m_del(c, p); return true;
    case O_CLEAR: c->n = 0; return true;
    case O_INS:
        if (o->type == LIST) { if (o->pos > c->n) return false; m_ins(c, o->pos, o->id); return true; }
        m_ins(c, c->n, o->id); return true;
    case O_WALK:
        if (o->type == LIST) return o->nwalk == c->n && !(c->n && memcmp(o->walk, c->id, c->n * 2));
        for (int i = 0; i + 1 < o->nwalk; ++i) if (keys[o->walk[i]] > keys[o->walk[i + 1]]) return false;
        return sameset(o->walk, o->nwalk, c->id, c->n);
    case O_WALKB:
        if (o->type == LIST) {
            if (o->nwalk != c->n) return false;
            for (int i = 0; i < c->n; ++i) if (o->walk[i] != c->id[c->n - 1 - i]) return false;
            return true;
        }
        for (int i = 0; i + 1 < o->nwalk; ++i) if (keys[o->walk[i]] < keys[o->walk[i + 1]]) return false;
        return sameset(o->walk, o->nwalk, c->id, c->n);
    case O_FIND: case O_COUNT: case O_RANGE: {
        short w[MAXIT]; int n = 0; long next = 0; bool hasnext = false;
        for (int i = 0; i < c->n; ++i) {
            if (keys[c->id[i]] == o->key) w[n++] = c->id[i];
            if (keys[c->id[i]] > o->key && (!hasnext || keys[c->id[i]] < next)) { hasnext = true; next = keys[c->id[i]]; }
        }
        if (o->op == O_COUNT) return o->res == n;
        if (o->op == O_FIND) {
            if (!n) return o->id == NOBODY;
            for (int i = 0; i < n; ++i) if (w[i] == o->id) return true;
            return false;
        }
        if (!n) /* absent key: the range is empty */
            return o->nwalk == 0 && o->res == -1 && (o->pos == NOBODY || (hasnext && keys[o->pos] == next));
        return !o->res && sameset(o->walk, o->nwalk, w, n) && (hasnext ? o->pos != NOBODY && keys[o->pos] == next : o->pos == NOBODY);
    }
    }
    return false;
}
static int replay(struct model *m, struct exec *x)
{
    for (int i = 0; i < x->nop; ++i) if (!replay_op(m, &x->op[i])) return i;
    return -1;
}
static const char *tname[] = { "txlist", "txqueue", "txstack", "txmultiset" };
static void describe(char *b, size_t n, struct exec *x, int bad, struct model *m)
{
    size_t k = 0;
    for (int i = 0; i <= bad && k + 90 < n; ++i) {
        struct op *o = &x->op[i];
        if (i < bad - 6) continue;
        k += snprintf(b + k, n - k, " %s%d.%s(id=%d pos=%d key=%ld)=%ld", tname[o->type], o->c, opname[o->op], o->id, o->pos, o->key, o->res);
        for (int j = 0; j < o->nwalk && j < 12 && k + 20 < n; ++j) k += snprintf(b + k, n - k, "%c%d", j ? ',' : '[', o->walk[j]);
    }
    struct op *o = &x->op[bad]; struct cont *c = &m->c[o->type][o->c];
    if (k + 40 < n) k += snprintf(b + k, n - k, "; model has %d:", c->n);
    for (int j = 0; j < c->n && j < 12 && k + 20 < n; ++j) k += snprintf(b + k, n - k, "%c%d", j ? ',' : '[', c->id[j]);
}
static struct model *scratch;
static void check_exec(struct th *t, bool commit, const char *when)
{
    *scratch = *base;
    int bad = replay(scratch, &t->cur);
    if (bad >= 0) {
        char b[900];
        struct model *m2 = malloc(sizeof(*m2)); *m2 = *base;
        for (int i = 0; i < bad; ++i) replay_op(m2, &t->cur.op[i]);
        describe(b, sizeof(b), &t->cur, bad, m2); free(m2);
        char sig[64]; snprintf(sig, sizeof(sig), "%s-%s", tname[t->cur.op[bad].type], opname[t->cur.op[bad].op]);
        vf_viol(sig, "%s: wrong result:%s", when, b);
    }
    if (commit) *base = *scratch;
}
static uint64_t H;
static void hash_exec(struct exec *x)
{
    for (int i = 0; i < x->nop; ++i) { uint64_t v[] = { x->op[i].type, x->op[i].c, x->op[i].op, x->op[i].id, x->op[i].res, x->op[i].nwalk }; H = vf_hash(H, v, sizeof(v)); }
}

static void body(struct th *t)
{
    if (t->started) {
        /* the previous execution was rolled back */
        vf_count("aborted-executions", 1);
        if (seq) { check_exec(t, false, "aborted execution"); hash_exec(&t->cur); }
        else if (t->cur.nop && t->nab < 40) {
            struct exec *x = &t->log[t->nlog++];
            *x = t->cur; x->lo = t->lo; x->hi = atomic_load(&vf_ticket_ctr); x->committed = false; x->no = t->no; t->nab++;
            memset(&t->cur, 0, sizeof(t->cur));
        }
        exec_free(&t->cur);
    }
    t->started = true;
    t->execs++;
    t->lo = atomic_load(&vf_ticket_ctr);
    t->cur.nop = 0;
    memcpy(t->npool2, t->npool, sizeof(t->npool)); memcpy(t->pool2, t->pool, sizeof(t->pool));
    int n = 1 + rndn(&t->txr, maxop);
    if (rndp(&t->txr, 4)) picotm_irrevocable();
    for (int i = 0; i < n; ++i) { do_op(t); if (!seq) vf_delay(&t->txr, delaypct); }
    if (t->execs <= t->abortn && !picotm_is_irrevocable()) vf_conflict();
    if (t->execs > t->abortn && t->failn) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
}
static void tx(struct th *t)
{
    t->started = false; t->execs = 0; t->no++;
    t->abortn = rndp(&t->r, 25) ? 1 + rndn(&t->r, 3) : 0;
    t->failn = rndp(&t->r, 10);
    t->txr = vf_rng(rnd(&t->r), 1, 2);
    volatile bool failed = false;
    picotm_begin
        body(t);
    picotm_commit
        failed = true;
        if (!t->failn || picotm_error_status() != PICOTM_ERROR_CODE) vf_viol("error", "unexpected error, status %d", picotm_error_status());
    picotm_end
    if (!seq && failed) {
        struct exec *x = &t->log[t->nlog++];
        *x = t->cur; x->lo = t->lo; x->hi = atomic_load(&vf_ticket_ctr); x->committed = false; x->no = t->no;
        memset(&t->cur, 0, sizeof(t->cur));
    } else if (seq) {
        check_exec(t, !failed, failed ? "failed transaction" : "transaction");
        hash_exec(&t->cur);
    } else {
        struct exec *x = &t->log[t->nlog++];
        *x = t->cur; x->ticket = t->mon.ticket; x->committed = true; x->no = t->no;
        memset(&t->cur, 0, sizeof(t->cur));
    }
    if (!failed) {
        memcpy(t->npool, t->npool2, sizeof(t->npool)); memcpy(t->pool, t->pool2, sizeof(t->pool));
        vf_count("committed", 1);
    } else vf_count("failed", 1);
    if (seq) exec_free(&t->cur);
    /* entries that belong to no container may be freed at any time */
    if (realloc_items)
        for (int ty = 0; ty < NT; ++ty)
            for (int i = 0; i < t->npool[ty]; ++i)
                if (rndp(&t->r, 20)) { int id = t->pool[ty][i]; del_item(id); new_item(id); vf_count("freed-entries", 1); }
}
/* compare the containers with the model, by a transaction */
static void dump_check(struct th *t, struct model *m, const char *when)
{
    struct exec x = {};
    volatile int done = 0;
    picotm_begin
        exec_free(&t->cur); t->cur.nop = 0;
        for (int ti = 0; ti < ntypes; ++ti) for (int c = 0; c < nc; ++c) {
            struct op *o;
            switch (types[ti]) {
            case LIST: {
                struct txlist *l = txlist_of_state_tx(&L[c]);
                o = log_op(t, LIST, c, O_WALK);
                for (struct txlist_entry *p = txlist_begin_tx(l); p != txlist_end_tx(l); p = txlist_entry_next_tx(p)) wput(o, ITEM_OF(p, l)->id);
                logged(t); break;
            }
            case MSET: {
                struct txmultiset *l = txmultiset_of_state_tx(&M[c]);
                o = log_op(t, MSET, c, O_WALK);
                for (struct txmultiset_entry *p = txmultiset_begin_tx(l); p != txmultiset_end_tx(l) && o->nwalk <= MAXIT; p = txmultiset_entry_next_tx(p)) wput(o, ITEM_OF(p, m)->id);
                logged(t); break;
            }
            case QUEUE: {
                struct txqueue *q = txqueue_of_state_tx(&Q[c]);
                o = log_op(t, QUEUE, c, O_SIZE); o->res = txqueue_size_tx(q); logged(t);
                if (o->res) { o = log_op(t, QUEUE, c, O_FRONT); o->id = ITEM_OF(txqueue_front_tx(q), q)->id; logged(t);
                              o = log_op(t, QUEUE, c, O_BACK); o->id = ITEM_OF(txqueue_back_tx(q), q)->id; logged(t); }
                break;
            }
            case STACK: {
                struct txstack *s = txstack_of_state_tx(&S[c]);
                o = log_op(t, STACK, c, O_SIZE); o->res = txstack_size_tx(s); logged(t);
                if (o->res) { o = log_op(t, STACK, c, O_BACK); o->id = ITEM_OF(txstack_top_tx(s), s)->id; logged(t); }
                break;
            }
            }
        }
    picotm_commit
        vf_viol("error", "error in recovery");
    picotm_end
    (void)x; (void)done;
    struct model *m2 = malloc(sizeof(*m2)); *m2 = *m;
    int bad = replay(m2, &t->cur);
    if (bad >= 0) { char b[900]; describe(b, sizeof(b), &t->cur, bad, m2); vf_viol("content", "%s: container differs from its history:%s", when, b); }
    free(m2);
    exec_free(&t->cur);
}

static struct { struct model *m; int type, c, n; struct op walk; } un;
#define UNINIT(ty, f, Ty) \
    static void un_##ty(struct tx##ty##_entry *e, void *d) \
    { struct item *it = ITEM_OF(e, f); if (d != &un) vf_viol("clear-data", "wrong data pointer"); wput(&un.walk, it->id); tx##ty##_entry_uninit(e); }
UNINIT(list, l, LIST)
UNINIT(queue, q, QUEUE)
UNINIT(stack, s, STACK)
UNINIT(multiset, m, MSET)
static void final_clear(struct model *m)
{
    for (int c = 0; c < NC; ++c) for (int ty = 0; ty < NT; ++ty) {
        memset(&un, 0, sizeof(un));
        un.walk.type = ty; un.walk.c = c;
        switch (ty) {
        case LIST: txlist_state_clear_and_uninit_entries(&L[c], un_list, &un); txlist_state_uninit(&L[c]); un.walk.op = O_WALK; break;
        case QUEUE: txqueue_state_clear_and_uninit_entries(&Q[c], un_queue, &un); txqueue_state_uninit(&Q[c]); un.walk.op = O_WALK; un.walk.type = LIST; break;
        case STACK: txstack_state_clear_and_uninit_entries(&S[c], un_stack, &un); txstack_state_uninit(&S[c]); un.walk.op = O_WALKB; un.walk.type = LIST; break;
        case MSET: txmultiset_state_clear_and_uninit_entries(&M[c], un_multiset, &un); txmultiset_state_uninit(&M[c]); un.walk.op = O_WALK; break;
        }
        if (un.walk.type != ty) m->c[LIST][c] = m->c[ty][c];
        if (m && !replay_op(m, &un.walk)) {
            struct exec x = { .nop = 1 }; x.op[0] = un.walk;
            char b[900]; describe(b, sizeof(b), &x, 0, m);
            vf_viol("content", "%s %d does not have the content of its history:%s", tname[ty], c, b);
        }
        free(un.walk.walk);
    }
    /* initializer macros */
    txlist_state_uninit(&ML0); txqueue_state_uninit(&MQ0); txstack_state_uninit(&MS0);
}

static void setup(struct rng *r, struct model *m)
{
    nc = 1 + rndn(r, NC); keyrange = rndp(r, 50) ? 4 : rndp(r, 50) ? 12 : 100;
    maxop = rndp(r, 50) ? 6 : 20;
    realloc_items = rndp(r, 50);
    ntypes = 0;
    for (int i = 0; i < NT; ++i) if ((vf_arg & (1 << i)) && (rndp(r, 60) || (vf_arg & (vf_arg - 1)) == 0)) types[ntypes++] = i;
    if (!ntypes) for (int i = 0; i < NT; ++i) if (vf_arg & (1 << i)) types[ntypes++] = i;
    for (int c = 0; c < NC; ++c) {
        txlist_state_init(&L[c]); txqueue_state_init(&Q[c]); txstack_state_init(&S[c]); txmultiset_state_init(&M[c], key_cb, cmp_cb);
    }
    memset(m, 0, sizeof(*m));
    for (int i = 0; i < nth; ++i) {
        struct th *t = &ths[i];
        struct exec *log = t->log;
        memset(t, 0, sizeof(*t));
        t->log = log; t->id = i; t->r = vf_rng(rnd(r), i, 3);
    }
    for (int id = 0; id < MAXIT; ++id) keys[id] = rndn(r, keyrange);
    int per = rndp(r, 30) ? 3 : 20;
    int id = 0;
    for (int i = 0; i < nth; ++i) for (int k = 0; k < per * NT && id < MAXIT; ++k, ++id) {
        new_item(id);
        ths[i].pool[id % NT][ths[i].npool[id % NT]++] = id;
    }
    for (; id < MAXIT; ++id) items[id] = NULL;
}
static void teardown(struct model *m)
{
    final_clear(m);
    for (int id = 0; id < MAXIT; ++id) if (items[id]) { del_item(id); }
}

static void *run(void *a)
{
    struct th *t = a;
    vf_txmon_register(&t->mon);
    pthread_barrier_wait(&bar);
    for (int i = 0; i < ntx; ++i) { tx(t); vf_tick(); }
    picotm_release();
    return NULL;
}
static int cmpt(const void *a, const void *b)
{
    const struct exec *x = *(struct exec* const*)a, *y = *(struct exec* const*)b;
    return x->ticket < y->ticket ? -1 : x->ticket > y->ticket;
}
static void conc(uint64_t ci)
{
    struct rng r = vf_rng(vf_seed, 12, ci);
    nth = 2 + rndn(&r, vf_threads - 1); ntx = 10 + rndn(&r, 60);
    struct model *m = malloc(sizeof(*m));
    setup(&r, m);
    delaypct = rndp(&r, 50) ? rndn(&r, 20) : 0;
    pthread_barrier_init(&bar, NULL, nth);
    for (int i = 0; i < nth; ++i) ths[i].log = calloc(ntx * 2 + 48, sizeof(struct exec));
    for (int i = 0; i < nth; ++i) if (pthread_create(&ths[i].pt, NULL, run, &ths[i])) exit(2);
    for (int i = 0; i < nth; ++i) pthread_join(ths[i].pt, NULL);
    /* replay */
    size_t n = 0, na = 0;
    for (int i = 0; i < nth; ++i) { n += ths[i].nlog; }
    struct exec **c = calloc(n + 1, sizeof(*c)), **ab = calloc(n + 1, sizeof(*ab));
    n = 0;
    for (int i = 0; i < nth; ++i) for (int j = 0; j < ths[i].nlog; ++j) {
        struct exec *x = &ths[i].log[j]; x->thread = i;
        if (x->committed) c[n++] = x; else ab[na++] = x;
    }
    qsort(c, n, sizeof(*c), cmpt);
    H = 5;
    struct model *s = malloc(sizeof(*s));
    size_t live = na;
    for (size_t i = 0; i <= n && vf_more(); ++i) {
        uint64_t now = i ? c[i - 1]->ticket : 0, next = i < n ? c[i]->ticket : ~0ull;
        /* the state after `now` was current for tickets now..next-1 */
        for (size_t k = 0; k < na; ++k) {
            struct exec *x = ab[k];
            if (!x || x->hi < now || x->lo >= next) continue;
            *s = *m;
            if (replay(s, x) < 0) { ab[k] = NULL; --live; }
        }
        if (i == n) break;
        struct exec *x = c[i];
        *s = *m;
        int bad = replay(m, x);
        if (bad >= 0) {
            for (int j = 0; j < bad; ++j) replay_op(s, &x->op[j]);
            char b[900]; describe(b, sizeof(b), x, bad, s);
            char sig[64]; snprintf(sig, sizeof(sig), "serial-%s", tname[x->op[bad].type]);
            vf_viol(sig, "thread %d transaction %d (ticket %" PRIu64 ") does not fit the commit order:%s", x->thread, x->no, x->ticket, b);
            break;
        }
        H = H * 31 + x->thread; hash_exec(x);
    }
    if (vf_more()) for (size_t k = 0; k < na; ++k) if (ab[k]) {
        char b[900]; describe(b, sizeof(b), ab[k], ab[k]->nop - 1, m);
        vf_viol("opacity", "an aborted execution (thread %d transaction %d) has seen a state that never existed:%s", ab[k]->thread, ab[k]->no, b);
        break;
    }
    vf_count("aborted-checked", na); vf_count("replayed", n);
    for (int i = 0; i < nth; ++i) { for (int j = 0; j < ths[i].nlog; ++j) exec_free(&ths[i].log[j]); exec_free(&ths[i].cur); }
    struct th *t0 = &ths[0]; t0->nlog = 0;
    if (vf_more()) dump_check(t0, m, "after all threads");
    if (na > 0) vf_distinct(H);
    vf_sample("case %" PRIu64 ": %d threads, %zu committed, %zu aborted executions, %d types, %d containers", ci, nth, n, na, ntypes, nc);
    teardown(m);
    for (int i = 0; i < nth; ++i) { free(ths[i].log); ths[i].log = NULL; }
    free(c); free(ab); free(s); free(m);
    pthread_barrier_destroy(&bar);
}
static void sequ(uint64_t ci)
{
    struct rng r = vf_rng(vf_seed, 13, ci);
    nth = 1; seq = true; H = 7;
    setup(&r, base);
    struct th *t = &ths[0];
    int k = 1 + rndn(&r, 12);
    for (int i = 0; i < k && vf_more(); ++i) {
        tx(t);
        if (rndp(&r, 40)) dump_check(t, base, "after a transaction");
        if (rndp(&r, 3)) picotm_release();
    }
    vf_count("transactions", k);
    vf_distinct(H);
    vf_sample("case %" PRIu64 ": %d transactions, %d types, %d containers, keys 0..%d", ci, k, ntypes, nc, keyrange);
    teardown(base);
}
int main(int argc, char **argv)
{
    vf_arg = 15;
    vf_init(argc, argv);
    base = calloc(1, sizeof(*base)); scratch = calloc(1, sizeof(*scratch));
    for (uint64_t ci = vf_from; ci < vf_from + vf_cases && vf_more(); ++ci) {
        vf_case(ci);
        if (!strcmp(vf_mode, "seq")) sequ(ci); else conc(ci);
    }
    picotm_release();
    free(base); free(scratch);
    vf_finish(0);
}
