/* C16: transactional allocation.
 * seq:  one thread runs random transactions of allocator operations, with
 *       conflicts, failures and commits; a ledger of all blocks (interposed
 *       allocator) and a model of the committed blocks are compared after every
 *       execution.
 * conc: threads replace, move, resize and free blocks in shared slots. */
#include "vf_tx.h"
#include "vf_mem.h"
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include "picotm/string.h"
#include "picotm/string-tm.h"

#define NS 10
enum { ACC_NONE, ACC_TX, ACC_RAW, ACC_FRESH };
struct blk { unsigned char *p; size_t n; uint32_t seed; int acc; bool fresh; };
static struct blk com[NS];          /* committed */
static struct blk cur[NS];          /* in the running execution */
static struct blk made[400]; static int nmade;   /* blocks that came from this execution */
static void *freed[400]; static int nfreed;
static __thread bool in_body;
static bool single;

static inline unsigned char cont(uint32_t seed, size_t i) { return (unsigned char)(vf_mix(seed + (i >> 3)) >> ((i & 7) * 8)); }

static void free_hook(void *p)
{
    if (!in_body || !single) return;
    for (int i = 0; i < NS; ++i)
        if (com[i].p == p) vf_viol("freed-before-commit", "block %p of %zu bytes was released while the transaction was running", p, com[i].n);
}

static char trace[1500]; static size_t tlen;
static void tr(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    if (tlen < sizeof(trace) - 60) tlen += vsnprintf(trace + tlen, sizeof(trace) - tlen, fmt, ap);
    if (tlen >= sizeof(trace)) tlen = sizeof(trace) - 1;
    va_end(ap);
}
static struct rng R;
static uint64_t H;
static size_t rsize(void)
{
    unsigned k = rndn(&R, 100);
    return k < 5 ? 0 : k < 60 ? rndn(&R, 64) : k < 95 ? rndn(&R, 600) : k < 99 || rndp(&R, 80) ? rndn(&R, 6000) : rndn(&R, 60000);
}
static void check_new(const char *op, unsigned char *p, size_t n, size_t align)
{
    if (!p) { vf_viol("null", "%s(%zu) returned NULL; ops:%s", op, n, trace); return; }
    if ((uintptr_t)p % align) vf_viol("alignment", "%s: %p is not aligned to %zu; ops:%s", op, p, align, trace);
    if (!vm_is_live(p)) vf_viol("not-allocated", "%s: returned %p, which is not allocated; ops:%s", op, p, trace);
    if (malloc_usable_size(p) < n) vf_viol("too-small", "%s: block has %zu bytes, requested %zu; ops:%s", op, malloc_usable_size(p), n, trace);
    for (int i = 0; i < NS; ++i)
        if (cur[i].p == p || com[i].p == p) vf_viol("handed-out-twice", "%s returned a block that is in use; ops:%s", op, trace);
}
static void reg(int s, unsigned char *p, size_t n, int acc)
{
    cur[s] = (struct blk){ p, n, 0, acc, true };
    if (nmade < 400) made[nmade++] = cur[s];
}
static void fill(int s)
{
    struct blk *b = &cur[s];
    b->seed = (uint32_t)rnd(&R);
    if (b->acc == ACC_NONE) {
        b->acc = rndp(&R, 50) ? ACC_TX : ACC_RAW;
        if (b->acc == ACC_RAW) privatize_tx(b->p, b->n, PICOTM_TM_PRIVATIZE_LOADSTORE);
    }
    if (b->acc == ACC_TX) {
        unsigned char *t = alloca(b->n + 1);
        for (size_t i = 0; i < b->n; ++i) t[i] = cont(b->seed, i);
        store_tx(b->p, t, b->n);
    } else for (size_t i = 0; i < b->n; ++i) b->p[i] = cont(b->seed, i);
}
static void verify(int s, size_t n, const char *what)
{
    struct blk *b = &cur[s];
    if (n > b->n) n = b->n;
    if (b->acc == ACC_NONE && rndp(&R, 50)) { b->acc = ACC_RAW; privatize_tx(b->p, b->n, PICOTM_TM_PRIVATIZE_LOADSTORE); }
    unsigned char *t = b->p;
    if (b->acc == ACC_TX || b->acc == ACC_NONE) { t = alloca(n + 1); load_tx(b->p, t, n); }
    for (size_t i = 0; i < n; ++i)
        if (t[i] != cont(b->seed, i)) {
            vf_viol("contents", "%s: byte %zu of %zu is %02x, expected %02x; ops:%s", what, i, b->n, t[i], cont(b->seed, i), trace);
            return;
        }
    vf_count("blocks-verified", 1);
}
/* after an execution: ledger and contents have to be those of the model */
static void audit(struct blk *m, struct blk *other, const char *what)
{
    for (int i = 0; i < NS; ++i) {
        if (!m[i].p) continue;
        if (!vm_is_live(m[i].p)) { vf_viol("lost", "%s: block of %zu bytes is not allocated any more; ops:%s", what, m[i].n, trace); m[i].p = NULL; continue; }
        for (size_t k = 0; k < m[i].n; ++k)
            if (m[i].p[k] != cont(m[i].seed, k)) {
                vf_viol("contents-after", "%s: byte %zu of %zu is %02x, expected %02x; ops:%s", what, k, m[i].n, m[i].p[k], cont(m[i].seed, k), trace);
                break;
            }
    }
}
static bool in_model(struct blk *m, void *p) { for (int i = 0; i < NS; ++i) if (m[i].p == p) return true; return false; }
static size_t live_base;
static void audit_live(struct blk *m, const char *what)
{
    for (int i = 0; i < nmade; ++i)
        if (!in_model(m, made[i].p) && vm_is_live(made[i].p))
            vf_viol("leaked", "%s: block of %zu bytes is still allocated; ops:%s", what, made[i].n, trace);
    for (int i = 0; i < nfreed; ++i)
        if (!in_model(m, freed[i]) && vm_is_live(freed[i]))
            vf_viol("not-freed", "%s: freed block is still allocated; ops:%s", what, trace);
    if (atomic_exchange(&vm_badfree, 0)) vf_viol("double-free", "%s: a block was released twice; ops:%s", what, trace);
    vf_count("audits", 1);
}

static int expect_err;
static void do_free(int s)
{
    if (nfreed < 400) freed[nfreed++] = cur[s].p;
    cur[s].p = NULL;
}
static void op(void)
{
    int s = rndn(&R, NS), k = rndn(&R, 16);
    struct blk *b = &cur[s];
    if (!b->p && k >= 8 && k < 12) k -= 8;
    if (b->p && k < 6) k = 6 + rndn(&R, 6);
    H = vf_hash(H, &s, sizeof(s)); H = vf_hash(H, &k, sizeof(k));
    unsigned char *p; size_t n, m, a; void *v;
    switch (k) {
    case 0: case 1:
        n = rsize(); p = malloc_tx(n); tr(" %d=malloc(%zu)", s, n);
        check_new("malloc_tx", p, n, 16); reg(s, p, n, ACC_FRESH); fill(s); vf_count("op-malloc", 1); break;
    case 2:
        n = rndn(&R, 40); m = rndn(&R, 30); p = calloc_tx(n, m); tr(" %d=calloc(%zu,%zu)", s, n, m);
        check_new("calloc_tx", p, n * m, 16);
        for (size_t i = 0; p && i < n * m; ++i) if (p[i]) { vf_viol("not-zeroed", "calloc_tx(%zu,%zu): byte %zu is %02x", n, m, i, p[i]); break; }
        reg(s, p, n * m, ACC_FRESH); fill(s); vf_count("op-calloc", 1); break;
    case 3:
        a = 8ul << rndn(&R, 10); n = rsize();
        v = (void*)0x5a;
        { int r;
          if (rndp(&R, 50)) r = posix_memalign_tm(&v, a, n);
          else { static void *pv; r = posix_memalign_tx(&pv, a, n); v = load_ptr_tx(&pv); }
          tr(" %d=memalign(%zu,%zu)", s, a, n);
          if (r) vf_viol("memalign", "posix_memalign returned %d", r); }
        check_new("posix_memalign", v, n, a); reg(s, v, n, ACC_FRESH); fill(s); vf_count("op-memalign", 1); break;
    case 4: {
        n = rsize(); if (!n) n = 1;
        bool tm = rndp(&R, 30);
        p = tm ? realloc_tm(NULL, n) : realloc_tx(NULL, n); tr(" %d=realloc%s(0,%zu)", s, tm ? "_tm" : "", n);
        check_new("realloc(NULL)", p, n, 16); reg(s, p, n, ACC_FRESH); fill(s); vf_count("op-realloc", 1); break; }
    case 5: {
        char src[300]; n = rndn(&R, 280);
        uint32_t seed = (uint32_t)rnd(&R);
        for (size_t i = 0; i < n; ++i) { src[i] = cont(seed, i); if (!src[i]) { n = i; break; } }
        src[n] = 0;
        p = (unsigned char*)(rndp(&R, 50) ? strdup_tm(src) : strdup_tx(src)); tr(" %d=strdup(%zu)", s, n);
        check_new("strdup", p, n + 1, 1);
        if (strcmp((char*)p, src)) vf_viol("strdup", "strdup of %zu characters differs", n);
        reg(s, p, n, ACC_FRESH); cur[s].seed = seed; vf_count("op-strdup", 1); break; }
    case 6: if (b->p) fill(s); break;
    case 7: if (b->p) verify(s, b->n, "in transaction"); break;
    case 8: case 9: {
        bool tm = (b->acc == ACC_RAW || b->acc == ACC_FRESH) && rndp(&R, 40);
        tr(" free%s(%d)", tm ? "_tm" : "", s);
        if (tm) free_tm(b->p); else free_tx(b->p);
        do_free(s); vf_count("op-free", 1); break; }
    case 10: case 11: {
        bool tm = (b->acc == ACC_RAW || b->acc == ACC_FRESH) && rndp(&R, 40);
        n = rsize();
        struct blk old = *b;
        tr(" %d=realloc%s(%zu->%zu)", s, tm ? "_tm" : "", old.n, n);
        p = tm ? realloc_tm(old.p, n) : realloc_tx(old.p, n);
        if (!n) {
            /* the block is freed, and NULL or a new block returned */
            do_free(s);
            if (p) { check_new("realloc(0)", p, 0, 1); reg(s, p, 0, ACC_FRESH); }
        } else {
            if (p != old.p) { check_new("realloc", p, n, 16); do_free(s); }
            reg(s, p, n, ACC_FRESH); cur[s].seed = old.seed;
            verify(s, old.n < n ? old.n : n, "realloc");
            fill(s);
        }
        vf_count("op-realloc", 1); break; }
    case 12:
        if (rndp(&R, 50)) free_tx(NULL); else free_tm(NULL);
        break;
    case 13:
        if (rndp(&R, 92)) break;
        expect_err = ENOMEM;
        switch (rndn(&R, 5)) {
        case 0: n = SIZE_MAX - rndn(&R, 40); tr(" malloc(%zx)", n); v = malloc_tx(n); break;
        case 1: n = (size_t)PTRDIFF_MAX - rndn(&R, 1000); tr(" malloc(%zx)", n); v = malloc_tx(n); break;
        case 2: n = 1ul << (32 + rndn(&R, 10)); m = (SIZE_MAX / n) + 1 + rndn(&R, 5); tr(" calloc(%zx,%zx)", n, m); v = calloc_tx(n, m); break;
        case 3: n = SIZE_MAX - rndn(&R, 3); tr(" memalign(64,%zx)", n); posix_memalign_tm(&v, 64, n); break;
        default: n = SIZE_MAX / 2 + rndn(&R, 100); tr(" %d=realloc(%zx)", s, n); v = realloc_tx(b->p, n); break;
        }
        vf_viol("no-error", "an impossible request returned; ops:%s", trace);
        expect_err = 0;
        break;
    case 14:
        if (rndp(&R, 95)) break;
        expect_err = EINVAL;
        a = rndp(&R, 50) ? 0 : rndp(&R, 50) ? 4 : 24;
        v = NULL;
        tr(" memalign(%zu)", a);
        posix_memalign_tm(&v, a, 64);
        vf_viol("no-error", "posix_memalign with alignment %zu returned", a);
        expect_err = 0;
        break;
    case 15: /* move between slots */
        { int t = rndn(&R, NS); struct blk x = cur[s]; cur[s] = cur[t]; cur[t] = x; } break;
    }
}

static struct vf_txmon mon;
static int aborts_left, exec_no;
static bool give_up;
static int errno0;
static volatile bool exec_irrev;
static void check_errno(const char *when)
{
    int e = errno;
    if (e != errno0) vf_viol("errno", "%s: errno is %d, before the transaction it was %d; ops:%s", when, e, errno0, trace);
    vf_count("errno-checks", 1);
}
static void begin_exec(void)
{
    in_body = false;
    if (exec_no) check_errno("after restart");
    if (exec_no) { audit(com, cur, "after abort"); audit_live(com, "after abort"); }
    ++exec_no; exec_irrev = picotm_is_irrevocable();
    memcpy(cur, com, sizeof(cur));
    for (int i = 0; i < NS; ++i) { cur[i].acc = ACC_NONE; cur[i].fresh = false; }
    nmade = nfreed = 0; expect_err = 0;
    tr(" |");
    in_body = true;
}
static void one_tx(void)
{
    exec_no = 0; aborts_left = rndp(&R, 50) ? 0 : 1 + rndn(&R, 3);
    give_up = rndp(&R, 20);
    volatile bool committed = false;
    errno = errno0 = 1 + rndn(&R, 130);
    picotm_begin
        begin_exec();
        int n = 1 + rndn(&R, 10);
        for (int i = 0; i < n; ++i) {
            op();
            if (aborts_left && rndp(&R, 15)) { --aborts_left; tr(" ABORT"); vf_conflict(); }
        }
        if (give_up) { tr(" GIVEUP"); expect_err = 77; picotm_recover_from_errno(77); }
        if (aborts_left && rndp(&R, 50)) { aborts_left = 0; tr(" ABORT"); vf_conflict(); }
        in_body = false;
        committed = true;
    picotm_commit
        in_body = false; committed = false;
        if (picotm_error_status() != PICOTM_ERRNO || picotm_error_as_errno() != expect_err)
            vf_viol("error", "recovery saw status %d errno %d, expected errno %d; ops:%s", (int)picotm_error_status(), picotm_error_as_errno(), expect_err, trace);
        vf_count("recoveries", 1);
        audit(com, cur, "in recovery"); audit_live(com, "in recovery");
        if (!give_up && rndp(&R, 60)) picotm_restart();
    picotm_end
    in_body = false;
    if (!committed && !exec_irrev) check_errno("after abort");
    if (committed) { memcpy(com, cur, sizeof(com)); audit(com, cur, "after commit"); audit_live(com, "after commit"); vf_count("committed", 1); }
    else { audit(com, cur, "after recovery"); audit_live(com, "after recovery"); }
    nmade = nfreed = 0;
}
static void seq_case(uint64_t c)
{
    R = vf_rng(vf_seed, c, 16); H = 0;
    memset(com, 0, sizeof(com)); memset(cur, 0, sizeof(cur));
    size_t base = vm_live;
    vf_txmon_register(&mon);
    int n = 1 + rndn(&R, 10);
    for (int i = 0; i < n && vf_more(); ++i) { tlen = 0; trace[0] = 0; one_tx(); }
    if (rndp(&R, 50)) {
        picotm_begin
            for (int i = 0; i < NS; ++i) free_tx(com[i].p);
        picotm_commit
            vf_viol("error", "free failed with status %d", (int)picotm_error_status());
        picotm_end
        for (int i = 0; i < NS; ++i) if (com[i].p && vm_is_live(com[i].p)) vf_viol("not-freed", "block is still allocated after a committed free");
    } else for (int i = 0; i < NS; ++i) free(com[i].p);
    picotm_release();
    if (c > vf_from && vm_live != base) vf_viol("residue", "%zd blocks more than before after the thread released its state", (ssize_t)(vm_live - base));
    if (n > 1) vf_distinct(H);
    if (c % 977 == 3) vf_sample("%d transactions, last:%s", n, trace);
}

/* ---- concurrent ---- */
#define NSL 12
struct cblk { uint32_t size, seed; unsigned char d[]; };
static struct cblk *slot[NSL];
static uint64_t stop_at;
struct thr { pthread_t t; struct rng r; int nt; struct vf_txmon mon; uint64_t commits, execs, h; };
static void c_verify(struct cblk *b, const char *what)
{
    uint32_t sz = load_uint_tx(&b->size), seed = load_uint_tx(&b->seed);
    if (sz > 2000 || sz < sizeof(*b)) { vf_viol("conc-header", "%s: block has size %u", what, sz); return; }
    unsigned char t[2000];
    load_tx(b->d, t, sz - sizeof(*b));
    for (size_t i = 0; i < sz - sizeof(*b); ++i) if (t[i] != cont(seed, i)) { vf_viol("conc-contents", "%s: byte %zu of a block of %u is %02x, expected %02x", what, i, sz, t[i], cont(seed, i)); return; }
}
static struct cblk *c_new(struct rng *r)
{
    size_t n = sizeof(struct cblk) + (rndp(r, 80) ? rndn(r, 100) : rndn(r, 1500));
    struct cblk *b;
    switch (rndn(r, 3)) {
    case 0: b = malloc_tx(n); break;
    case 1: b = calloc_tx(1, n); break;
    default: { void *v; posix_memalign_tm(&v, 32, n); b = v; }
    }
    uint32_t seed = (uint32_t)rnd(r);
    if (rndp(r, 50)) {
        b->size = n; b->seed = seed;
        for (size_t i = 0; i < n - sizeof(*b); ++i) b->d[i] = cont(seed, i);
    } else {
        unsigned char t[2000];
        struct cblk *x = (struct cblk*)t; x->size = n; x->seed = seed;
        for (size_t i = 0; i < n - sizeof(*b); ++i) x->d[i] = cont(seed, i);
        store_tx(b, t, n);
    }
    return b;
}
static void *worker(void *arg)
{
    struct thr *t = arg; struct rng *r = &t->r;
    vf_txmon_register(&t->mon);
    for (int i = 0; i < t->nt; ++i) {
        struct rng r0 = *r; rnd(r);
        volatile uint64_t ex = 0;
        picotm_begin
            ex++;
            struct rng q = r0; q.s ^= ex * 0x1234567;
            int n = 1 + rndn(&q, 4);
            for (int k = 0; k < n; ++k) {
                int s = rndn(&q, NSL), s2 = rndn(&q, NSL);
                struct cblk *b = load_ptr_tx(&slot[s]);
                vf_delay(&q, 3);
                switch (rndn(&q, 5)) {
                case 0: /* replace */
                    if (b) { c_verify(b, "replace"); free_tx(b); }
                    store_ptr_tx(&slot[s], c_new(&q)); break;
                case 1:
                    if (b) { c_verify(b, "clear"); free_tx(b); store_ptr_tx(&slot[s], NULL); } break;
                case 2: { struct cblk *b2 = load_ptr_tx(&slot[s2]); store_ptr_tx(&slot[s2], b); if (s != s2) store_ptr_tx(&slot[s], b2); break; }
                case 3:
                    if (b) {
                        c_verify(b, "resize");
                        uint32_t sz = load_uint_tx(&b->size), nsz = sizeof(*b) + rndn(&q, 300);
                        b = realloc_tx(b, nsz);
                        uint32_t seed = load_uint_tx(&b->seed);
                        unsigned char u[400];
                        for (size_t j = 0; j < nsz - sizeof(*b); ++j) u[j] = cont(seed, j);
                        store_uint_tx(&b->size, nsz);
                        if (nsz > sz) store_tx(b->d + (sz - sizeof(*b)), u + (sz - sizeof(*b)), nsz - sz);
                        store_ptr_tx(&slot[s], b);
                    } break;
                default: if (b) c_verify(b, "look");
                }
                if (rndp(&q, 4)) vf_conflict();
            }
        picotm_commit
            vf_viol("conc-error", "transaction failed with status %d errno %d", (int)picotm_error_status(), picotm_error_status() == PICOTM_ERRNO ? picotm_error_as_errno() : 0);
        picotm_end
        t->commits++; t->execs += ex; t->h = t->h * 31 + ex;
        vf_tick();
    }
    picotm_release();
    return NULL;
}
static void conc_case(uint64_t c)
{
    struct rng r = vf_rng(vf_seed, c, 17);
    static struct thr T[16];
    int nt = 2 + rndn(&r, vf_threads - 1);
    memset(slot, 0, sizeof(slot));
    size_t base = vm_live;
    memset(T, 0, sizeof(T));
    for (int i = 0; i < nt; ++i) { T[i].r = vf_rng(vf_seed, c, 100 + i); T[i].nt = 10 + rndn(&r, 40); }
    for (int i = 0; i < nt; ++i) pthread_create(&T[i].t, NULL, worker, &T[i]);
    uint64_t h = c, ex = 0, cm = 0;
    for (int i = 0; i < nt; ++i) { pthread_join(T[i].t, NULL); h = h * 31 + T[i].h; ex += T[i].execs; cm += T[i].commits; }
    size_t held = 0;
    for (int i = 0; i < NSL; ++i) if (slot[i]) {
        ++held;
        if (!vm_is_live(slot[i])) { vf_viol("conc-lost", "block in slot %d is not allocated", i); continue; }
        for (size_t k = 0; k < slot[i]->size - sizeof(*slot[i]); ++k)
            if (slot[i]->d[k] != cont(slot[i]->seed, k)) { vf_viol("conc-contents-after", "slot %d byte %zu differs", i, k); break; }
    }
#ifndef VM_NOLEDGER
    if (c > vf_from && vm_live != base + held) vf_viol("conc-residue", "%zd blocks live beyond the %zu in slots", (ssize_t)(vm_live - base - held), held);
    if (atomic_exchange(&vm_badfree, 0)) vf_viol("conc-double-free", "a block was released twice");
#endif
    for (int i = 0; i < NSL; ++i) free(slot[i]);
    vf_count("conc-commits", cm); vf_count("conc-aborted", ex - cm);
    if (ex > cm) vf_distinct(h);
}

int main(int argc, char **argv)
{
    vf_init(argc, argv);
    bool conc = !strcmp(vf_mode, "conc");
    single = !conc;
    vm_free_hook = free_hook;
    for (uint64_t c = vf_from; c < vf_from + vf_cases && vf_more(); ++c) {
        vf_case(c);
        if (conc) conc_case(c); else seq_case(c);
    }
    vf_finish(0);
}
