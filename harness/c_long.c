/* Very long transactions: up to 70000 operations of one module in a single
 * transaction (past any 8- or 16-bit index and many growths of every log), with
 * offsets beyond 4 GiB for files.  Each mode belongs to the property of its module:
 * every result is compared with a model, and so is the state after commit, restart
 * and abort. */
#include "vf_tx.h"
#include <fcntl.h>
#include <locale.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <dirent.h>
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-libc.h"
#include "picotm/picotm-ptrdata.h"
#include "picotm/picotm-txlist.h"
#include "picotm/picotm-txqueue.h"
#include "picotm/picotm-txstack.h"
#include "picotm/picotm-txmultiset.h"
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/locale.h"
#include "picotm/locale-tm.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include "picotm/string.h"
#include "picotm/string-tm.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include "picotm/sys/socket.h"
#include "picotm/sys/socket-tm.h"
#include "picotm/sys/stat.h"
#include "picotm/sys/stat-tm.h"

static struct rng R, R0;       /* R0: at the start of each execution */
static uint64_t H;
static long N;                 /* operations of the transaction */
static int ending;             /* 0 commit, 1 restart once, 2 give up */
static void must(long r, const char *what) { if (r < 0) { perror(what); exit(2); } }

static bool transact(void (*setup)(void), void (*body)(void))
{
    volatile int tries = 0; volatile bool gave = false;
    R0 = R;
    picotm_begin
        ++tries; R = R0;
        setup();
        body();
        vf_tick();
        if (ending == 1 && tries == 1 && !picotm_is_irrevocable()) vf_conflict();
        if (ending == 2 && !picotm_is_irrevocable()) { gave = true; picotm_recover_from_errno(EXDEV); }
    picotm_commit
        if (!gave || picotm_error_is_non_recoverable() || picotm_error_status() != PICOTM_ERRNO || (int)picotm_error_as_errno() != EXDEV)
            vf_viol("error", "a transaction of %ld operations failed with status %d, errno %d", N, picotm_error_status(), (int)picotm_error_as_errno());
        gave = true;
    picotm_end
    if (gave) vf_count("aborted", 1); else vf_count("committed", 1);
    if (tries > 1) vf_count("restarted", 1);
    vf_tick();
    return !gave;
}
static void nothing(void) {}

/* ---- memory: MEMN objects of 64 bits, and bytes in between */
#define MEMN 3000
static uint64_t mem[MEMN], mold[MEMN], mnew[MEMN];
static void mem_setup(void) { memcpy(mnew, mold, sizeof(mem)); }
static void mem_body(void)
{
    for (long i = 0; i < N; ++i) {
        long k = rndn(&R, MEMN), o; uint64_t v;
        switch (rndn(&R, 8)) {
        case 0: case 1: case 2: v = rnd(&R); store_ulong_tx((unsigned long*)&mem[k], v); mnew[k] = v; break;
        case 3: case 4: v = load_ulong_tx((unsigned long*)&mem[k]); if (v != mnew[k]) vf_viol("load", "operation %ld of %ld: word %ld is %lx instead of %lx", i, N, k, (long)v, (long)mnew[k]); break;
        case 5: o = rndn(&R, MEMN); loadstore_tx(&mem[k], &mem[o], sizeof(v)); mnew[o] = mnew[k]; break;
        case 6: { uint8_t b = rnd(&R); o = rndn(&R, 8); store_uchar_tx((uint8_t*)&mem[k] + o, b); ((uint8_t*)&mnew[k])[o] = b; break; }
        default: privatize_ulong_tx((unsigned long*)&mem[k], PICOTM_TM_PRIVATIZE_LOADSTORE);
            if (mem[k] != mnew[k]) vf_viol("privatize", "operation %ld of %ld: word %ld is %lx instead of %lx", i, N, k, (long)mem[k], (long)mnew[k]);
            mem[k] ^= 0x55; mnew[k] ^= 0x55; break;
        }
    }
}
static void mem_case(void)
{
    for (int i = 0; i < MEMN; ++i) mem[i] = rnd(&R);
    memcpy(mold, mem, sizeof(mem));
    bool c = transact(mem_setup, mem_body);
    for (int i = 0; i < MEMN; ++i) if (mem[i] != (c ? mnew : mold)[i]) { vf_viol(c ? "committed-memory" : "aborted-memory", "word %d is %lx instead of %lx after %ld operations", i, (long)mem[i], (long)(c ? mnew : mold)[i], N); break; }
}

/* ---- allocation */
#define ALN 70100
static unsigned char *blk[ALN], *bnew[ALN]; static unsigned bsz[ALN]; static bool bheld[ALN];    /* bheld: by the program, if the transaction commits */
static long nb;
static void al_setup(void) { nb = 0; memset(bheld, 0, sizeof(bheld)); for (long i = 0; i < ALN; ++i) { bnew[i] = blk[i]; if (blk[i]) bheld[i] = true; } }
static void al_body(void)
{
    for (long i = 0; i < N; ++i) {
        long k = rndp(&R, 70) ? i : (long)rndn(&R, i + 1);
        if (bheld[k] && (N < 3000 ? rndp(&R, 60) : rndn(&R, 40) == 0))    /* the time for discarding memory is quadratic */
            { free_tx(bnew[k]); bnew[k] = NULL; bheld[k] = false; }
        else if (!bheld[k]) {
            unsigned s = 1 + rndn(&R, 24); unsigned char *p = rndp(&R, 50) ? malloc_tx(s) : calloc_tx(s, 1);
            if (!p) { vf_viol("null", "allocation %ld of %u bytes failed", i, s); return; }
            memset(p, 0x40 + k % 50, s);
            bnew[k] = p; bsz[k] = s; bheld[k] = true;
        }
    }
}
static void al_case(void)
{
    for (long i = 0; i < ALN; ++i) { blk[i] = NULL; if (i < N && rndp(&R, 30)) { blk[i] = malloc(16); memset(blk[i], 0x21, 16); } }
    bool c = transact(al_setup, al_body);
    for (long i = 0; i < N; ++i) {
        if (!c) { if (blk[i]) { for (int k = 0; k < 16; ++k) if (blk[i][k] != 0x21) { vf_viol("aborted-block", "block %ld was changed", i); break; } free(blk[i]); } continue; }
        if (!bheld[i]) continue;
        if (bnew[i] == blk[i]) { for (int k = 0; k < 16; ++k) if (blk[i][k] != 0x21) { vf_viol("kept-block", "block %ld was changed", i); break; } }
        else for (unsigned k = 0; k < bsz[i]; ++k) if (bnew[i][k] != 0x40 + i % 50) { vf_viol("new-block", "block %ld of %u bytes has wrong contents", i, bsz[i]); break; }
        free(bnew[i]);
    }
}

/* ---- containers */
#define CN 70100
static struct ent { union { struct txlist_entry l; struct txqueue_entry q; struct txstack_entry s; struct txmultiset_entry m; } e; long key; bool in; } ent[CN];
static long seqv[2 * CN + 2], sold[2 * CN + 2], lo, hi, lo0, hi0;    /* the model: seqv[lo..hi), and before the transaction */
static bool in0[CN]; static long next_id;
static const void *mkey(struct txmultiset_entry *e) { return &((struct ent*)e)->key; }
static int mcmp(const void *a, const void *b) { long x = *(const long*)a, y = *(const long*)b; return x < y ? -1 : x > y; }
static struct txlist_state LS; static struct txqueue_state QS; static struct txstack_state SS; static struct txmultiset_state MS;
static int ctype; static long msize;
static void c_setup(void)
{
    lo = lo0; hi = hi0; memcpy(seqv, sold, sizeof(seqv)); msize = 0;
    for (int i = 0; i < CN; ++i) { ent[i].in = in0[i]; msize += in0[i]; }
}
static long fresh(void)    /* an entry that is in no container */
{
    for (int k = 0; k < 50; ++k) { long i = rndn(&R, CN); if (!ent[i].in) return i; }
    for (long i = 0; i < CN; ++i) if (!ent[i].in) return i;
    return -1;
}
static void at(const char *what, long i, void *got, long want)
{
    if (got != (want < 0 ? NULL : (void*)&ent[want])) vf_viol("container", "operation %ld of %ld: %s is entry %ld instead of %ld", i, N, what, (long)((struct ent*)got - ent), want);
}
static bool grow;
static void c_body(void)
{
    struct txlist *l = ctype == 0 ? txlist_of_state_tx(&LS) : NULL; struct txqueue *q = ctype == 1 ? txqueue_of_state_tx(&QS) : NULL;
    struct txstack *s = ctype == 2 ? txstack_of_state_tx(&SS) : NULL; struct txmultiset *m = ctype == 3 ? txmultiset_of_state_tx(&MS) : NULL;
    for (long i = 0; i < N; ++i) {
        bool push = rndp(&R, grow ? 80 : 45);
        long id, n = ctype == 3 ? msize : hi - lo;
        if (push || !n) {
            id = fresh(); if (id < 0) continue;
            ent[id].in = true; ++msize;
            switch (ctype) {
            case 0: if (rndp(&R, 50)) { txlist_push_front_tx(l, &ent[id].e.l); seqv[--lo] = id; } else { txlist_push_back_tx(l, &ent[id].e.l); seqv[hi++] = id; } break;
            case 1: txqueue_push_tx(q, &ent[id].e.q); seqv[hi++] = id; break;
            case 2: txstack_push_tx(s, &ent[id].e.s); seqv[hi++] = id; break;
            default: txmultiset_insert_tx(m, &ent[id].e.m); break;
            }
        } else {
            switch (ctype) {
            case 0: if (rndp(&R, 50)) { at("the front", i, txlist_front_tx(l), id = seqv[lo]); txlist_pop_front_tx(l); ++lo; } else { at("the back", i, txlist_back_tx(l), id = seqv[hi - 1]); txlist_pop_back_tx(l); --hi; } break;
            case 1: at("the front", i, txqueue_front_tx(q), id = seqv[lo]); txqueue_pop_tx(q); ++lo; break;
            case 2: at("the top", i, txstack_top_tx(s), id = seqv[hi - 1]); txstack_pop_tx(s); --hi; break;
            default: {
                id = rndn(&R, CN);
                struct txmultiset_entry *e = txmultiset_find_tx(m, &ent[id].key);
                if (e == txmultiset_end_tx(m)) { if (ent[id].in) vf_viol("container", "operation %ld of %ld: entry %ld was not found", i, N, id); continue; }
                long f = (struct ent*)e - ent;
                if (ent[f].key != ent[id].key || !ent[f].in) vf_viol("container", "operation %ld of %ld: found entry %ld with key %ld instead of %ld", i, N, f, ent[f].key, ent[id].key);
                txmultiset_erase_tx(m, e); id = f; }
            }
            ent[id].in = false; --msize;
        }
        if (ctype != 0 && ctype != 3 && rndn(&R, 5000) == 0) {
            long z = ctype == 1 ? txqueue_size_tx(q) : txstack_size_tx(s);
            if (z != hi - lo) vf_viol("size", "operation %ld of %ld: the size is %ld instead of %ld", i, N, z, hi - lo);
        }
    }
}

static void c_look(void)
{
    switch (ctype) {
    case 0: { struct txlist *l = txlist_of_state_tx(&LS); long k = lo0;
        for (struct txlist_entry *e = txlist_begin_tx(l), *x = txlist_end_tx(l); e != x && k < hi0; e = txlist_entry_next_tx(e)) at("the next entry", k - lo0, e, sold[k]), ++k;
        if (k != hi0 || (long)txlist_size_tx(l) != hi0 - lo0) vf_viol("walk", "%ld of %ld entries seen, size %ld", k - lo0, hi0 - lo0, (long)txlist_size_tx(l)); break; }
    case 1: { struct txqueue *q = txqueue_of_state_tx(&QS); if ((long)txqueue_size_tx(q) != hi0 - lo0) vf_viol("size", "the queue's size is %ld instead of %ld", (long)txqueue_size_tx(q), hi0 - lo0);
        if (hi0 > lo0) at("the back", N, txqueue_back_tx(q), sold[hi0 - 1]);
        for (long k = lo0; k < hi0; ++k) { at("the front", k - lo0, txqueue_front_tx(q), sold[k]); txqueue_pop_tx(q); }
        if (!txqueue_empty_tx(q)) vf_viol("size", "the queue is not empty"); break; }
    case 2: { struct txstack *q = txstack_of_state_tx(&SS); if ((long)txstack_size_tx(q) != hi0 - lo0) vf_viol("size", "the stack's size is %ld instead of %ld", (long)txstack_size_tx(q), hi0 - lo0);
        long k = hi0, stop = hi0 - lo0 > 2000 ? hi0 - 2000 : lo0;    /* the time for popping is quadratic */
        while (k-- > stop) { at("the top", k - lo0, txstack_top_tx(q), sold[k]); txstack_pop_tx(q); }
        if (stop == lo0 && !txstack_empty_tx(q)) vf_viol("size", "the stack is not empty");
        break; }
    default: { struct txmultiset *m = txmultiset_of_state_tx(&MS); long k = 0, last = -1, want = 0;
        for (int i = 0; i < CN; ++i) want += in0[i];
        for (struct txmultiset_entry *e = txmultiset_begin_tx(m), *x = txmultiset_end_tx(m); e != x && k <= want; e = txmultiset_entry_next_tx(e), ++k) {
            struct ent *p = (struct ent*)e; if (!in0[p - ent] || p->key < last) vf_viol("walk", "entry %ld with key %ld behind key %ld (%sin the set)", (long)(p - ent), p->key, last, in0[p - ent] ? "" : "not "); last = p->key; }
        if (k != want || (long)txmultiset_size_tx(m) != want) vf_viol("walk", "%ld of %ld entries seen", k, want); }
    }
}
static void c_case(void)
{
    if (ctype == 2 && N > 12000) N = 12000;    /* the time for undoing is quadratic */
    memset(ent, 0, sizeof(ent)); memset(in0, 0, sizeof(in0)); lo0 = hi0 = ctype == 0 ? CN : 0;
    long keys = rndp(&R, 50) ? 100 : 1000000;
    txlist_state_init(&LS); txqueue_state_init(&QS); txstack_state_init(&SS); txmultiset_state_init(&MS, mkey, mcmp);
    for (int i = 0; i < CN; ++i) { ent[i].key = rndn(&R, keys);
        switch (ctype) { case 0: txlist_entry_init(&ent[i].e.l); break; case 1: txqueue_entry_init(&ent[i].e.q); break; case 2: txstack_entry_init(&ent[i].e.s); break; default: txmultiset_entry_init(&ent[i].e.m); } }
    for (int t = 0; t < 2; ++t) {
        grow = t == 0 || rndp(&R, 30);
        if (t) ending = rndn(&R, 3);
        if (transact(c_setup, c_body)) { lo0 = lo; hi0 = hi; memcpy(sold, seqv, sizeof(sold)); for (int i = 0; i < CN; ++i) in0[i] = ent[i].in; }
    }
    ending = 1;
    do transact(nothing, c_look); while (ctype == 2 && (hi0 -= 2000) > lo0);
}

/* ---- very many containers in one transaction */
#define NCON 300
#define CAP 40
static struct { struct txlist_state l; struct txqueue_state q; struct txstack_state s; struct txmultiset_state m; } con[NCON];
struct cmod { short n[4], id[4][CAP]; };
static struct cmod mc[NCON], mc0[NCON]; static struct ent me[4][NCON * 8]; static bool mein[4][NCON * 8], mein0[4][NCON * 8]; static int ncon;
static void m_setup(void) { memcpy(mc, mc0, sizeof(mc)); memcpy(mein, mein0, sizeof(mein)); }
static void m_body(void)
{
    for (long i = 0; i < N; ++i) {
        int ty = rndn(&R, 4), c = rndn(&R, ncon); struct cmod *m = &mc[c]; short *n = &m->n[ty], *v = m->id[ty]; long got, want;
        struct txlist *l = ty == 0 ? txlist_of_state_tx(&con[c].l) : NULL; struct txqueue *q = ty == 1 ? txqueue_of_state_tx(&con[c].q) : NULL;
        struct txstack *s = ty == 2 ? txstack_of_state_tx(&con[c].s) : NULL; struct txmultiset *t = ty == 3 ? txmultiset_of_state_tx(&con[c].m) : NULL;
        int op = rndn(&R, 5);
        if (op < 2 && *n < CAP) {
            int id = rndn(&R, ncon * 8); if (mein[ty][id]) continue;
            struct ent *e = &me[ty][id]; mein[ty][id] = true;
            switch (ty) { case 0: txlist_push_back_tx(l, &e->e.l); break; case 1: txqueue_push_tx(q, &e->e.q); break; case 2: txstack_push_tx(s, &e->e.s); break; default: txmultiset_insert_tx(t, &e->e.m); }
            v[(*n)++] = id;
        } else if (op < 4) {
            if (!*n) continue;
            int k = ty < 2 ? 0 : *n - 1;
            if (ty == 3) for (int j = 0; j < *n; ++j) if (me[3][v[j]].key < me[3][v[k]].key) k = j;
            want = v[k];
            switch (ty) {
            case 0: { struct txlist_entry *e = txlist_front_tx(l); got = (struct ent*)e - me[0]; txlist_pop_front_tx(l); break; }
            case 1: { struct txqueue_entry *e = txqueue_front_tx(q); got = (struct ent*)e - me[1]; txqueue_pop_tx(q); break; }
            case 2: { struct txstack_entry *e = txstack_top_tx(s); got = (struct ent*)e - me[2]; txstack_pop_tx(s); break; }
            default: { struct txmultiset_entry *e = txmultiset_begin_tx(t); got = (struct ent*)e - me[3]; txmultiset_erase_tx(t, e); }
            }
            if (got != want) { vf_viol("container", "operation %ld of %ld: entry %ld instead of %ld was first in container %d of type %d", i, N, got, want, c, ty); return; }
            mein[ty][want] = false; memmove(v + k, v + k + 1, (*n - k - 1) * sizeof(*v)); --*n;
        } else {
            got = ty == 0 ? txlist_size_tx(l) : ty == 1 ? txqueue_size_tx(q) : ty == 2 ? txstack_size_tx(s) : txmultiset_size_tx(t);
            if (got != *n) { vf_viol("container", "operation %ld of %ld: container %d of type %d has %ld entries instead of %d", i, N, c, ty, got, *n); return; }
        }
    }
}
static void m_look(void)
{
    for (int c = 0; c < ncon; ++c) {
        int k;
        struct txlist *l = txlist_of_state_tx(&con[c].l); k = 0; if (txlist_size_tx(l) != (size_t)mc0[c].n[0]) vf_viol("size", "wrong size of list %d", c);
        for (struct txlist_entry *e = txlist_begin_tx(l), *x = txlist_end_tx(l); e != x && k < mc0[c].n[0]; e = txlist_entry_next_tx(e), ++k) if ((struct ent*)e - me[0] != mc0[c].id[0][k]) vf_viol("walk", "wrong entry %d in list %d", k, c);
        struct txqueue *q = txqueue_of_state_tx(&con[c].q); for (k = 0; k < mc0[c].n[1]; ++k) { if ((struct ent*)txqueue_front_tx(q) - me[1] != mc0[c].id[1][k]) vf_viol("walk", "wrong entry %d in queue %d", k, c); txqueue_pop_tx(q); }
        if (!txqueue_empty_tx(q)) vf_viol("size", "wrong size of queue %d", c);
        struct txstack *s = txstack_of_state_tx(&con[c].s); for (k = mc0[c].n[2]; k--; ) { if ((struct ent*)txstack_top_tx(s) - me[2] != mc0[c].id[2][k]) vf_viol("walk", "wrong entry %d in stack %d", k, c); txstack_pop_tx(s); }
        if (!txstack_empty_tx(s)) vf_viol("size", "wrong size of stack %d", c);
        struct txmultiset *t = txmultiset_of_state_tx(&con[c].m); if (txmultiset_size_tx(t) != (size_t)mc0[c].n[3]) vf_viol("size", "wrong size of multiset %d", c);
    }
}
static void m_case(void)
{
    memset(mc0, 0, sizeof(mc0)); memset(me, 0, sizeof(me)); memset(mein0, 0, sizeof(mein0)); memset(con, 0, sizeof(con));
    if (N > 12000) N = 12000;
    ncon = rndp(&R, 50) ? NCON : 1 + rndn(&R, NCON);
    for (int c = 0; c < ncon; ++c) { txlist_state_init(&con[c].l); txqueue_state_init(&con[c].q); txstack_state_init(&con[c].s); txmultiset_state_init(&con[c].m, mkey, mcmp); }
    for (int i = 0; i < ncon * 8; ++i) { txlist_entry_init(&me[0][i].e.l); txqueue_entry_init(&me[1][i].e.q); txstack_entry_init(&me[2][i].e.s); txmultiset_entry_init(&me[3][i].e.m);
        me[3][i].key = rndn(&R, 1 << 30) * NCON * 8 + i; }
    for (int t = 0; t < 3; ++t) {
        if (t) ending = rndn(&R, 3);
        if (transact(m_setup, m_body)) { memcpy(mc0, mc, sizeof(mc)); memcpy(mein0, mein, sizeof(mein)); }
    }
    ending = 1; transact(nothing, m_look);
    vf_count("containers", 4 * ncon);
}

/* ---- a file, with offsets around some bases */
#define FM 4096
#define NBASE 6
static const off_t base[NBASE] = { 0, 0x7ffff800, 0xfffff800, 0x1fffff000, 0xfffffff000, 0x3fffffff000 };
static int fa, fb; static off_t fpos; static long big;
static unsigned char fbuf[256], gbuf[256];
static void f_setup(void)    /* the twin has no transactions: start each execution with a copy */
{
    off_t sz = lseek(fa, 0, SEEK_END); must(sz, "lseek"); must(ftruncate(fb, 0), "ftruncate"); must(ftruncate(fb, sz), "ftruncate");
    unsigned char b[FM];
    for (int i = 0; i < NBASE; ++i) { ssize_t r = pread(fa, b, FM, base[i]); must(r, "pread"); if (r) must(pwrite(fb, b, r, base[i]), "pwrite"); }
    must(lseek(fb, fpos, SEEK_SET), "lseek");
    must(lseek(fa, fpos, SEEK_SET), "lseek");
}
static bool inside(off_t o) { for (int i = 0; i < NBASE; ++i) if (o >= base[i] && o <= base[i] + FM - 64) return true; return false; }
static void f_body(void)
{
    for (long i = 0; i < N; ++i) {
        int op = rndn(&R, 100); size_t n = 1 + rndn(&R, 16); off_t o = base[big ? rndn(&R, NBASE) : 0] + rndn(&R, FM - 64); long a, b;
        const char *what;
        if (op < 50) { for (size_t k = 0; k < n; ++k) fbuf[k] = rnd(&R); what = "pwrite"; a = pwrite_tm(fa, fbuf, n, o); b = pwrite(fb, fbuf, n, o); }
        else if (op < 62) { if (!inside(lseek(fb, 0, SEEK_CUR))) continue; for (size_t k = 0; k < n; ++k) fbuf[k] = rnd(&R); what = "write"; a = write_tm(fa, fbuf, n); b = write(fb, fbuf, n); }
        else if (op < 90 || (N > 2000 && op < 99)) { int w = rndn(&R, 3); off_t d = w == SEEK_SET ? o : w == SEEK_CUR ? (off_t)rndn(&R, 40) - 20 : -(off_t)rndn(&R, 60); what = "lseek"; b = lseek(fb, d, w); if (b < 0) continue; a = lseek_tx(fa, d, w); }
        else { memset(fbuf, 1, n); memset(gbuf, 1, n); if (op & 1) { what = "pread"; a = pread_tm(fa, fbuf, n, o); b = pread(fb, gbuf, n, o); } else { what = "read"; a = read_tm(fa, fbuf, n); b = read(fb, gbuf, n); }
            if (a == b && memcmp(fbuf, gbuf, n)) vf_viol("file-data", "operation %ld of %ld: %s of %zu bytes at %lx returned wrong data", i, N, what, n, (long)o); }
        if (a != b) vf_viol("file-result", "operation %ld of %ld: %s(%zu at %lx) returned %lx instead of %lx", i, N, what, n, (long)o, a, b);
    }
}
static void f_case(void)
{
    char p[4200], q[4200]; snprintf(p, sizeof(p), "%s/long-a", vf_dir); snprintf(q, sizeof(q), "%s/long-b", vf_dir);
    must(fa = open(p, O_CREAT | O_TRUNC | O_RDWR, 0600), p); must(fb = open(q, O_CREAT | O_TRUNC | O_RDWR, 0600), q);
    unlink(p); unlink(q);
    fpos = 0; big = rndn(&R, 2);
    memset(fbuf, 'x', sizeof(fbuf)); must(pwrite(fa, fbuf, rndn(&R, 256), rndn(&R, 1000)), p);
    for (int t = 0; t < 2; ++t) {
        if (t) ending = rndn(&R, 3);
        static unsigned char img[NBASE][FM], b[FM]; ssize_t in[NBASE]; struct stat s0, s1, s2;
        for (int i = 0; i < NBASE; ++i) must(in[i] = pread(fa, img[i], FM, base[i]), "pread");
        fstat(fa, &s0);
        bool c = transact(f_setup, f_body);
        fstat(fa, &s1); fstat(fb, &s2);
        if (s1.st_size != (c ? s2.st_size : s0.st_size)) vf_viol("file-size", "the size is %lx instead of %lx after %ld operations", (long)s1.st_size, (long)(c ? s2.st_size : s0.st_size), N);
        off_t o1 = lseek(fa, 0, SEEK_CUR), o2 = c ? lseek(fb, 0, SEEK_CUR) : fpos;
        if (o1 != o2) vf_viol("file-offset", "the offset is %lx instead of %lx after %ld operations", (long)o1, (long)o2, N);
        for (int i = 0; i < NBASE; ++i) {
            unsigned char e[FM]; ssize_t n = pread(fa, b, FM, base[i]), m = in[i];
            if (c) m = pread(fb, e, FM, base[i]); else memcpy(e, img[i], FM);
            if (n != m || memcmp(b, e, n)) { vf_viol(c ? "file-committed" : "file-aborted", "wrong contents at %lx after %ld operations", (long)base[i], N); break; }
        }
        fpos = o1;
    }
    close(fa); close(fb);
    if (big) vf_count("large-offsets", 1);
}

/* ---- a stream: all output in order, at the commit */
static int wfd, rfd; static unsigned char *sent; static size_t nsent, want; static _Atomic size_t nread; static unsigned char *rcv;
static void s_setup(void) { nsent = 0; if (atomic_load(&nread)) vf_viol("stream-early", "%zu bytes were sent before the commit", (size_t)nread); }
static void s_body(void)
{
    for (long i = 0; i < N; ++i) {
        size_t n = rndn(&R, 4);
        for (size_t k = 0; k < n; ++k) sent[nsent + k] = rnd(&R);
        long r = rndp(&R, 50) || vf_arg == 0 ? write_tm(wfd, sent + nsent, n) : send_tm(wfd, sent + nsent, n, MSG_NOSIGNAL);
        if (r != (long)n) vf_viol("stream-result", "operation %ld of %ld returned %ld instead of %zu", i, N, r, n);
        nsent += n;
    }
    if (!picotm_is_irrevocable() && atomic_load(&nread)) vf_viol("stream-early", "%zu bytes were sent before the commit", (size_t)nread);
}
static void *s_reader(void *a)
{
    for (;;) { ssize_t r = read(rfd, rcv + nread, 4096); if (r <= 0) break; atomic_fetch_add(&nread, r); vf_tick(); }
    return NULL;
}
static void s_case(void)
{
    int p[2]; pthread_t t;
    vf_arg = rndn(&R, 2);
    if (vf_arg) must(socketpair(AF_UNIX, SOCK_STREAM, 0, p), "socketpair"); else must(pipe(p), "pipe");
    rfd = p[0]; wfd = p[1]; sent = malloc(4 * N + 4); rcv = malloc(4 * N + 8192); nread = 0;
    if (pthread_create(&t, NULL, s_reader, NULL)) exit(2);
    bool c = transact(s_setup, s_body);
    close(wfd); pthread_join(t, NULL);
    if (nread != (c ? nsent : 0)) vf_viol("stream-count", "%zu bytes arrived instead of %zu", (size_t)nread, c ? nsent : 0);
    else if (c && memcmp(sent, rcv, nsent)) vf_viol("stream-data", "wrong data after %ld operations", N);
    close(rfd); free(sent); free(rcv);
}

/* ---- descriptors */
static int held[1000], nheld; static char fdpath[4200];
static int census(void) { int n = 0; for (int i = 0; i < 1100; ++i) n += fcntl(i, F_GETFD) >= 0; return n; }
static void fd_setup(void) { nheld = 0; }
static void fd_body(void)
{
    for (long i = 0; i < N; ++i) {
        if (nheld > 900 || (nheld && rndp(&R, 30))) { int k = rndn(&R, nheld); if (close_tx(held[k])) vf_viol("close", "close failed"); held[k] = held[--nheld]; continue; }
        if (census() > 960) continue;     /* closed descriptors remain in use until the commit */
        int f, p[2];
        switch (rndn(&R, 4)) {
        case 0: if (nheld) { f = dup_tx(held[rndn(&R, nheld)]); break; }  /* fall through */
        case 1: f = socket_tx(AF_UNIX, SOCK_STREAM, 0); break;
        case 2: f = open_tm("/dev/null", O_RDWR); break;
        default: if (pipe_tm(p)) { vf_viol("pipe", "pipe failed"); f = -1; } else { held[nheld++] = p[1]; f = p[0]; }
        }
        if (f < 0) vf_viol("fd", "operation %ld of %ld returned no descriptor", i, N); else held[nheld++] = f;
    }
}
static void fd_case(void)
{
    int before = census();
    if (N > 3000) N = 3000;
    bool c = transact(fd_setup, fd_body);
    int after = census();
    if (after != before + (c ? nheld : 0)) vf_viol("fd-count", "%d descriptors are open instead of %d after %ld operations", after, before + (c ? nheld : 0), N);
    if (c) for (int i = 0; i < nheld; ++i) if (close(held[i])) { vf_viol("fd-held", "descriptor %d is not open after the commit", held[i]); break; }
}

/* ---- working directory and locale */
static char dirs[3][4200]; static int where, where0;
static void p_setup(void) { where = where0; }
static int dirno(const char *s) { for (int i = 0; i < 3; ++i) if (!strcmp(s, dirs[i])) return i; return -1; }
static void p_body(void)
{
    static char b[4200];
    for (long i = 0; i < N; ++i) {
        if (rndp(&R, 50)) { where = rndn(&R, 3); if (chdir_tm(dirs[where])) vf_viol("chdir", "chdir failed"); }
        else if (rndp(&R, 50)) { if (!getcwd_tm(b, sizeof(b)) || dirno(b) != where) vf_viol("cwd", "operation %ld of %ld: the directory is %s instead of %s", i, N, b, dirs[where]); }
        else { char *s = getcwd_tm(NULL, 0); if (!s || dirno(s) != where) vf_viol("cwd", "operation %ld of %ld: the directory is %s instead of %s", i, N, s, dirs[where]); free_tx(s); }
    }
}
static void p_case(void)
{
    char b[4200];
    for (int i = 0; i < 3; ++i) { snprintf(b, sizeof(b), "%s/d%d", vf_dir, i); if (mkdir(b, 0700) && errno != EEXIST) must(-1, b); if (!realpath(b, dirs[i])) must(-1, b); }
    must(chdir(dirs[where0 = rndn(&R, 3)]), "chdir");
    if (N > 8000) N = 8000;
    bool c = transact(p_setup, p_body);
    int w = c ? where : where0;
    if (!getcwd(b, sizeof(b)) || dirno(b) != w) vf_viol(c ? "cwd-committed" : "cwd-aborted", "the directory is %s instead of %s after %ld operations", b, dirs[w], N);
}
static const char *const ln[2] = { "C", "C.UTF-8" }; static int lc, lc0;
static void l_setup(void) { lc = lc0; }
static void l_body(void)
{
    for (long i = 0; i < N; ++i) {
        if (rndp(&R, 60)) { lc = rndn(&R, 2); if (!setlocale_tm(LC_CTYPE, ln[lc])) vf_viol("setlocale", "setlocale failed"); }
        else { char *s = setlocale_tm(LC_CTYPE, NULL); if (strcmp(s, ln[lc])) vf_viol("locale", "operation %ld of %ld: the locale is %s instead of %s", i, N, s, ln[lc]); }
        if (rndn(&R, 20) == 0) { locale_t o = newlocale_tm(LC_CTYPE_MASK, ln[rndn(&R, 2)], (locale_t)0); if (!o) vf_viol("newlocale", "newlocale failed"); else freelocale_tx(o); }
    }
}
static void l_case(void)
{
    lc0 = rndn(&R, 2); setlocale(LC_ALL, ln[lc0]);
    if (N > 20000) N = 20000;
    bool c = transact(l_setup, l_body);
    const char *s = setlocale(LC_CTYPE, NULL);
    if (strcmp(s, ln[c ? lc : lc0])) vf_viol(c ? "locale-committed" : "locale-aborted", "the locale is %s instead of %s after %ld operations", s, ln[c ? lc : lc0], N);
    setlocale(LC_ALL, "C");
}

/* ---- pointer data */
static uintptr_t pd[MEMN];
static void d_body(void)
{
    memset(pd, 0, sizeof(pd));
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    for (long i = 0; i < MEMN && i < N; ++i) { ptr_clear_data(&mem[i], &e); if (picotm_error_is_set(&e)) picotm_recover_from_error(&e); }
    for (long i = 0; i < N; ++i) {
        long k = rndn(&R, MEMN);
        if (rndp(&R, 60)) { pd[k] = rnd(&R); ptr_set_data(&mem[k], (void*)pd[k], &e); }
        else { uintptr_t g = (uintptr_t)ptr_get_data(&mem[k], &e); if (k < N || pd[k]) if (g != pd[k]) vf_viol("ptrdata", "operation %ld of %ld: address %ld's data is %lx instead of %lx", i, N, k, (long)g, (long)pd[k]); }
        if (picotm_error_is_set(&e)) picotm_recover_from_error(&e);
    }
}
static void d_case(void) { transact(nothing, d_body); picotm_release(); }

int main(int argc, char **argv)
{
    vf_init(argc, argv);
    signal(SIGPIPE, SIG_IGN);
    struct rlimit rl = { 2000, 2000 }; setrlimit(RLIMIT_NOFILE, &rl);
    static const struct { const char *name; void (*run)(void); int arg; } M[] = {
        { "mem", mem_case }, { "alloc", al_case }, { "list", c_case, 0 }, { "queue", c_case, 1 }, { "stack", c_case, 2 }, { "mset", c_case, 3 }, { "many", m_case },
        { "file", f_case }, { "stream", s_case }, { "fd", fd_case }, { "cwd", p_case }, { "locale", l_case }, { "ptrdata", d_case } };
    unsigned m = 0; while (m < sizeof(M) / sizeof(M[0]) && strcmp(M[m].name, vf_mode)) ++m;
    if (m == sizeof(M) / sizeof(M[0])) { fprintf(stderr, "no mode\n"); return 2; }
    ctype = M[m].arg;
    for (uint64_t i = vf_from; i < vf_from + vf_cases && vf_more(); ++i) {
        vf_case(i); R = vf_rng(vf_seed, i, 3400);
        static const long len[] = { 120, 300, 700, 2000, 5000, 33000, 66500, 70000 };
        N = len[rndn(&R, 8)]; N += rndn(&R, N / 20); if (N > 70000) N = 70000;
        ending = rndn(&R, 3);
        H = vf_hash(i, &N, sizeof(N)); H = vf_hash(H, &ending, sizeof(ending));
        M[m].run();
        vf_count("long-operations", N);
        if (N > 65536) vf_count("transactions-of-65536-operations", 1);
        vf_distinct(H);
        picotm_release();
    }
    vf_finish(0);
}
