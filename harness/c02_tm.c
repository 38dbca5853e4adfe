/* C02/C03: sequences of transactional memory operations against a byte model.
 * mode commit: executions commit, possibly after aborted ones.
 * mode abort:  the transaction never commits; memory must come out unchanged
 *              and be available to another thread at once. */
#include "vf_tx.h"
#include <semaphore.h>
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/stdbool.h"
#include "picotm/stdint.h"
#include "picotm/stddef.h"
#include "picotm/stdlib.h"
#include "picotm/time.h"
#include "picotm/locale.h"
#include "picotm/sys/types.h"
#include "picotm/math.h"
#include "picotm/complex.h"
#include "picotm/pthread.h"
#include "c02_types.h"
struct own { unsigned char b[29]; };    /* an application's type */
PICOTM_TM_LOAD_TX(own, struct own)
PICOTM_TM_STORE_TX(own, struct own)
PICOTM_TM_PRIVATIZE_TX(own, struct own)

#define N 320
#define RAWSZ (N + 64)
static unsigned char raw0[RAWSZ] __attribute__((aligned(64)));
static unsigned char *raw = raw0;
static unsigned char *regions[16]; static int nregions;
/* memory in far-apart and boundary-crossing places of the address space */
static void make_regions(void)
{
    static const uintptr_t at[] = { 0x100000000ul, 0x7f0000000ul, 0x10007fff8000ul, 0x400000000000ul, 0x3ffffffff000ul,
                                    0x620000000000ul, 0x200000000ul, 0x90000000ul, 0x7e0000000000ul };
    regions[nregions++] = raw0;
    regions[nregions++] = malloc(RAWSZ);
    for (size_t i = 0; i < sizeof(at) / sizeof(at[0]); ++i) {
        void *p = mmap((void*)(at[i] - 4096), 8192, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == MAP_FAILED) continue;
        regions[nregions++] = (unsigned char*)p + 4096 - RAWSZ / 2;
        vf_count("address-regions", 1);
    }
}
static unsigned char *A;               /* N bytes under test, any alignment */
static unsigned char model[N], orig[N];
static unsigned char priv[N];          /* 1 = may read raw, 2 = may write raw */
static unsigned char gone[N];          /* discarded */
static bool aborting;
static struct rng R;
static uint64_t H;
static int nops_total;
static char trace[1400]; static size_t tlen;
static void tr(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    if (tlen < sizeof(trace) - 40) tlen += vsnprintf(trace + tlen, sizeof(trace) - tlen, fmt, ap);
    if (tlen >= sizeof(trace)) tlen = sizeof(trace) - 1;
    va_end(ap);
}
static bool any_gone(unsigned o, unsigned n) { return memchr(gone + o, 1, n) != NULL; }
static void range(unsigned *o, unsigned *n)
{
    unsigned mx = rndp(&R, 60) ? 12 : rndp(&R, 70) ? 40 : 200;
    *n = rndn(&R, mx + 1);
    *o = rndp(&R, 70) ? rndn(&R, 48) : rndn(&R, N);
    if (*o + *n > N) *n = N - *o;
}
static void fill(unsigned char *b, unsigned n) { for (unsigned i = 0; i < n; ++i) b[i] = rnd(&R); }
static void chk(const char *what, const unsigned char *got, unsigned o, unsigned n)
{
    if (memcmp(got, model + o, n)) {
        unsigned i = 0; while (got[i] == model[o + i]) ++i;
        char sig[64]; snprintf(sig, sizeof(sig), "%s-value", what);
        vf_viol(sig, "%s [%u,+%u): byte %u is %02x, plain memory would give %02x; ops:%s", what, o, n, o + i, got[i], model[o + i], trace);
    }
}
/* chk() without the padding [p0, p1) */
static void chkp(const char *what, const unsigned char *got, unsigned o, unsigned n, unsigned p0, unsigned p1)
{
    for (; n; ) {
        unsigned k = p1 && n >= p1 ? p1 : n, l = p1 && n >= p1 ? p0 : n;    /* a complex number pads twice */
        chk(what, got, o, l);
        got += k; o += k; n -= k;
    }
}
/* padding has no value: gives it one */
static void pad(unsigned o, unsigned n, unsigned p0, unsigned p1)
{
    unsigned char b[16];
    for (; p1 && n >= p1; o += p1, n -= p1) { fill(b, p1 - p0); store_tx(A + o + p0, b, p1 - p0); memcpy(model + o + p0, b, p1 - p0); }
}
static unsigned long tested[128];
#define TYPEN(name, type, p0, p1) TN_##name,
enum { TYPES(TYPEN) NTYPES };
#define TYPED(name, type, p0, p1) case TN_##name: { \
        _Static_assert(__builtin_types_compatible_p(__typeof__(load_##name##_tx), type (const type *)), #name); \
        _Static_assert(__builtin_types_compatible_p(__typeof__(store_##name##_tx), void (type *, type)), #name); \
        unsigned sz = sizeof(type); if (o + sz > N) break; \
        if (any_gone(o, sz)) break; \
        uintptr_t al = (uintptr_t)(A + o) % _Alignof(type); if (al) { if (o < al) break; o -= al; if (any_gone(o, sz)) break; } \
        int f = 1 + rndn(&R, 3), w = rndn(&R, 5); \
        if (w < 2) { if (isb && model[o] > 1) break; type v = load_##name##_tx((type*)(A + o)); tr(" ld_" #name "@%u", o); chkp("load_" #name "_tx", (unsigned char*)&v, o, sz, p0, p1); } \
        else if (w < 4) { type v; fill(b, sz); if (isb) b[0] &= 1; memcpy(&v, b, sz); store_##name##_tx((type*)(A + o), v); tr(" st_" #name "@%u", o); memcpy(model + o, &v, sz); pad(o, sz, p0, p1); } \
        else { privatize_##name##_tx((type*)(A + o), f); tr(" priv_" #name "%d@%u+%u", f, o, sz); for (unsigned i = 0; i < sz; ++i) priv[o + i] |= f; } \
        tested[ty]++; break; }

static void op(void)
{
    unsigned char b[N];
    unsigned o, n;
    range(&o, &n);
    int k = rndn(&R, 22);
    H = vf_hash(H, &k, sizeof(k)); H = vf_hash(H, &o, sizeof(o)); H = vf_hash(H, &n, sizeof(n));
    ++nops_total;
    if (k != 16 && any_gone(o, n)) { vf_count("skipped-discarded", 1); return; }
    switch (k) {
    case 0: case 1: case 2: case 3:
        load_tx(A + o, b, n); tr(" ld@%u+%u", o, n);
        chk("load_tx", b, o, n); break;
    case 4: case 5: case 6: case 7:
        fill(b, n); store_tx(A + o, b, n); tr(" st@%u+%u", o, n);
        memcpy(model + o, b, n); break;
    case 8: case 9: {
        unsigned d = rndn(&R, N - n + 1);
        if ((d < o + n && o < d + n) || any_gone(d, n)) break;
        loadstore_tx(A + o, A + d, n); tr(" ldst@%u->%u+%u", o, d, n);
        memmove(model + d, model + o, n); vf_count("op-loadstore", 1);
        break; }
    case 10: case 11: {
        int f = 1 + rndn(&R, 3);
        privatize_tx(A + o, n, f); tr(" priv%d@%u+%u", f, o, n);
        for (unsigned i = 0; i < n; ++i) priv[o + i] |= f;
        vf_count("op-privatize", 1);
        break; }
    case 12: case 13: {
        /* raw writes to bytes privatized for storing */
        unsigned c = 0;
        for (unsigned i = o; i < o + n; ++i)
            if (priv[i] & 2) { A[i] = model[i] = rnd(&R); ++c; }
        if (c) tr(" raw@%u+%u", o, n);
        vf_count("raw-bytes-written", c);
        break; }
    case 14: case 15: {
        /* privatize up to a character */
        int c = model[o < N ? o + rndn(&R, N - o) : 0];
        if (o >= N) break;
        unsigned char *p = memchr(model + o, c, N - o);
        if (!p) break;
        unsigned len = p - (model + o) + 1;
        if (any_gone(o, len)) break;
        int cc = rndp(&R, 30) ? (int)(signed char)c : c;
        int f = 1 + rndn(&R, 3);
        privatize_c_tx(A + o, cc, f); tr(" privc%d(%d)@%u+%u", f, cc, o, len);
        for (unsigned i = 0; i < len; ++i) priv[o + i] |= f;
        vf_count("op-privatize-c", 1);
        break; }
    case 16:
        if (!n || n > 16 || rndp(&R, 70)) break;
        if (any_gone(o, n)) break;
        privatize_tx(A + o, n, 0); tr(" discard@%u+%u", o, n);
        memset(gone + o, 1, n); memset(priv + o, 0, n);
        vf_count("op-discard", 1);
        break;
    case 17: case 18: case 19: case 20: {
        int ty = rndn(&R, NTYPES); bool isb = ty == TN_bool || ty == TN__Bool;
        switch (ty) { TYPES(TYPED) }
        break; }
    case 21: {
        void *p;
        if (o + 8 > N || any_gone(o, 8)) break;
        if (rndp(&R, 50)) { p = load_ptr_tx(A + o); tr(" ldp@%u", o); chk("load_ptr_tx", (unsigned char*)&p, o, 8); }
        else { p = (void*)rnd(&R); store_ptr_tx(A + o, p); memcpy(model + o, &p, 8); tr(" stp@%u", o); }
        break; }
    }
    if (rndp(&R, 25))
        for (unsigned i = 0; i < N; ++i)
            if ((priv[i] & 1) && !gone[i] && A[i] != model[i]) {
                vf_viol("privatized-value", "privatized byte %u is %02x in memory, expected %02x; ops:%s", i, A[i], model[i], trace);
                break;
            }
}

/* ---- helper thread: takes the memory while the first thread's transaction is over ---- */
static sem_t req, rsp;
static volatile bool helper_quit;
static void *helper(void *arg)
{
    for (;;) {
        while (sem_wait(&req)) ;
        if (helper_quit) break;
        unsigned char b[N];
        volatile unsigned long restarts = 0; volatile int execs = 0;
        picotm_begin
            execs++;
            load_tx(A, b, N);
            store_tx(A, b, N);
            restarts = picotm_number_of_restarts();
        picotm_commit
            vf_viol("helper-error", "second thread failed with status %d", picotm_error_status());
        picotm_end
        if (restarts || execs != 1)
            vf_viol("lock-leak", "memory was still locked after the transaction ended: second thread needed %d executions", execs);
        vf_count("handovers", 1);
        sem_post(&rsp);
    }
    picotm_release();
    return NULL;
}
static void expect_mem(const unsigned char *e, const char *sig, const char *when)
{
    for (unsigned i = 0; i < N; ++i)
        if (!gone[i] && A[i] != e[i]) {
            vf_viol(sig, "%s: byte %u is %02x instead of %02x; ops:%s", when, i, A[i], e[i], trace);
            return;
        }
    for (unsigned char *p = raw; p < raw + RAWSZ; ++p)
        if ((p < A || p >= A + N) && *p != 0x5a) {
            vf_viol("outside-write", "%s: byte at %td outside of the accessed memory changed; ops:%s", when, p - A, trace);
            return;
        }
}

static volatile int execs;
static volatile int nabort, kind, nops;
static void body(void)
{
    if (execs++) {
        /* previous execution was rolled back */
        memset(gone, 0, N);
        expect_mem(orig, "undo", "after an aborted execution");
        vf_count("aborted-executions", 1);
    }
    tlen = 0; trace[0] = 0;
    memcpy(model, orig, N); memset(priv, 0, N); memset(gone, 0, N);
    if (rndp(&R, 10)) picotm_irrevocable();
    int k = 1 + rndn(&R, nops);
    for (int i = 0; i < k; ++i) op();
    if (execs <= nabort && !picotm_is_irrevocable()) vf_conflict();
    if (kind == 1) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
    if (kind == 2) picotm_recover_from_errno(ENOSPC);
    if (kind == 3) {
        /* touching a discarded byte must fail, or any other operation abort */
        for (unsigned i = 0; i < N; ++i)
            if (gone[i]) {
                unsigned char x = 0;
                switch (rndn(&R, 3)) {
                case 0: load_tx(A + i, &x, 1); break;
                case 1: store_tx(A + i, &x, 1); break;
                case 2: privatize_tx(A + i, 1, 3); break;
                }
                vf_viol("discarded-access", "access to discarded byte %u did not fail; ops:%s", i, trace);
            }
        picotm_recover_from_error_code(PICOTM_OUT_OF_BOUNDS);
    }
}

int main(int argc, char **argv)
{
    vf_init(argc, argv);
    aborting = !strcmp(vf_mode, "abort");
    make_regions();
    sem_init(&req, 0, 0); sem_init(&rsp, 0, 0);
    pthread_t ht; pthread_create(&ht, NULL, helper, NULL);
    for (uint64_t ci = vf_from; ci < vf_from + vf_cases && vf_more(); ++ci) {
        vf_case(ci);
        R = vf_rng(vf_seed, 2, ci);
        H = ci * 0 + 77; nops_total = 0;
        raw = regions[rndp(&R, 50) ? 0 : rndn(&R, nregions)];
        memset(raw, 0x5a, RAWSZ);
        A = raw + 8 + rndn(&R, 48);
        fill(A, N);
        memcpy(orig, A, N);
        nops = rndp(&R, 50) ? 8 : 60;
        nabort = aborting ? rndn(&R, 2) : rndp(&R, 30) ? rndn(&R, 4) : 0;
        kind = aborting ? 1 + rndn(&R, 3) : 0;
        execs = 0;
        volatile int recovered = 0;
        picotm_begin
            body();
        picotm_commit
            memset(gone, 0, N);
            recovered = 1;
            expect_mem(orig, "undo", "in the recovery phase");
            enum picotm_error_status st = picotm_error_status();
            bool ok = kind == 1 ? st == PICOTM_ERROR_CODE && picotm_error_as_error_code() == PICOTM_GENERAL_ERROR :
                      kind == 2 ? st == PICOTM_ERRNO && picotm_error_as_errno() == ENOSPC :
                      kind == 3 ? st == PICOTM_ERROR_CODE && picotm_error_as_error_code() == PICOTM_OUT_OF_BOUNDS : false;
            if (!ok) vf_viol("wrong-error", "recovery reports status %d (kind %d); ops:%s", st, kind, trace);
        picotm_end
        if (aborting) {
            expect_mem(orig, "undo", "after the transaction ended without commit");
            if (!recovered) vf_viol("committed-error", "a transaction that failed has committed");
        } else
            expect_mem(model, "commit-value", "after commit");
        if (ci % 8 == 0) { sem_post(&req); while (sem_wait(&rsp)) ; }
        vf_count("operations", nops_total);
        if (nops_total > 3) vf_distinct(H);
        if (ci % 7 == 3) vf_sample("case %" PRIu64 "%s:%s", ci, aborting ? " (aborts)" : "", trace);
    }
    helper_quit = true; sem_post(&req); pthread_join(ht, NULL);
    picotm_release();
    free(regions[1]);
    for (int i = 0; i < NTYPES; ++i) vf_count("typed-operations", tested[i]);
    vf_finish(0);
}
