/* C33: the support library.  Lists, tables, pointer arithmetic, counters and
 * error objects run in lock-step with simple models; reference-counted objects
 * and spin locks run in threads, which check exclusion, and that initialisers
 * and finalisers alternate. */
#include "vf.h"
#include "picotm/picotm-lib-array.h"
#include "picotm/picotm-lib-slist.h"
#include "picotm/picotm-lib-tab.h"
#include "picotm/picotm-lib-ptr.h"
#include "picotm/picotm-lib-ref.h"
#include "picotm/picotm-lib-shared-ref-obj.h"
#include "picotm/picotm-lib-spinlock.h"
#include "picotm/picotm-error.h"

static struct rng R;
static char trace[400]; static size_t tl;
static void tr(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    if (tl < sizeof(trace) - 40) tl += vsnprintf(trace + tl, sizeof(trace) - tl, fmt, ap);
    if (tl >= sizeof(trace)) tl = sizeof(trace) - 1;
    va_end(ap);
}
static uint64_t H;
static void mixh(uint64_t x) { H = vf_mix(H ^ x); }

/* ---- lists ---- */
#define NI 24
struct item { int key, id; struct picotm_slist e; };
static struct item it[NI];
static struct item *of(const struct picotm_slist *e) { return picotm_containerof(e, struct item, e); }
static int m[NI], nm;       /* model: ids in order */
static int visits[200], nvis, step[NI], tags[2];
static _Bool t0(const struct picotm_slist *e) { visits[nvis++] = of(e)->id; return of(e)->key == 3; }
static _Bool t1(const struct picotm_slist *e, void *a) { visits[nvis++] = of(e)->id; return of(e)->key == *(int*)a; }
static _Bool t2(const struct picotm_slist *e, void *a, void *b) { visits[nvis++] = of(e)->id; return of(e)->key == *(int*)a + *(int*)b; }
static size_t w0(struct picotm_slist *e) { visits[nvis++] = of(e)->id; return step[of(e)->id]; }
static size_t w1(struct picotm_slist *e, void *a) { visits[nvis++] = of(e)->id; if (a != tags) vf_viol("slist-argument", "wrong argument of a call-back"); return step[of(e)->id]; }
static size_t w2(struct picotm_slist *e, void *a, void *b) { visits[nvis++] = of(e)->id; if (a != tags || b != tags + 1) vf_viol("slist-argument", "wrong arguments of a call-back"); return step[of(e)->id]; }
static void c0(struct picotm_slist *e) { visits[nvis++] = of(e)->id; if (picotm_slist_is_enqueued(e)) vf_viol("slist-cleanup", "an item is enqueued when it is cleaned up"); }
static void c1(struct picotm_slist *e, void *a) { c0(e); if (a != tags) vf_viol("slist-argument", "wrong argument of a call-back"); }
static void c2(struct picotm_slist *e, void *a, void *b) { c0(e); if (a != tags || b != tags + 1) vf_viol("slist-argument", "wrong arguments of a call-back"); }
static int cmp_up(struct picotm_slist *a, struct picotm_slist *b) { return (of(a)->key > of(b)->key) - (of(a)->key < of(b)->key); }
static int mpos(int id) { for (int i = 0; i < nm; ++i) if (m[i] == id) return i; return -1; }
static void mins(int pos, int id) { memmove(m + pos + 1, m + pos, (nm - pos) * sizeof(int)); m[pos] = id; ++nm; }
static void mdel(int pos) { --nm; memmove(m + pos, m + pos + 1, (nm - pos) * sizeof(int)); }
static bool list_ok(struct picotm_slist *h)
{
    int n = 0;
    for (struct picotm_slist *e = picotm_slist_begin(h); e != picotm_slist_end(h); e = picotm_slist_next(e), ++n) {
        if (n >= nm || of(e)->id != m[n]) { vf_viol("slist-order", "item %d at position %d of the list instead of %d of %d; ops:%s", of(e)->id, n, n < nm ? m[n] : -1, nm, trace); return false; }
        if (picotm_slist_next(picotm_slist_prev(e)) != e) { vf_viol("slist-prev", "wrong predecessor; ops:%s", trace); return false; }
    }
    if (n != nm) { vf_viol("slist-length", "%d items instead of %d; ops:%s", n, nm, trace); return false; }
    if (picotm_slist_is_empty(h) != !nm) vf_viol("slist-empty", "is_empty with %d items; ops:%s", nm, trace);
    struct picotm_slist *f = picotm_slist_front(h), *b = picotm_slist_back(h);
    if (nm ? (f != &it[m[0]].e || b != &it[m[nm - 1]].e) : (f || b)) { vf_viol("slist-ends", "wrong front or back; ops:%s", trace); return false; }
    for (int i = 0; i < NI; ++i) if (picotm_slist_is_enqueued(&it[i].e) != (mpos(i) >= 0)) { vf_viol("slist-enqueued", "is_enqueued is wrong; ops:%s", trace); return false; }
    vf_count("list-states", 1);
    return true;
}
static void visits_ok(const char *what, int n)    /* of a search: items up to n */
{
    if (nvis != n) { vf_viol("slist-visits", "%s visited %d items instead of %d; ops:%s", what, nvis, n, trace); return; }
    for (int i = 0; i < n; ++i) if (visits[i] != m[i]) { vf_viol("slist-visits", "%s visited item %d instead of %d; ops:%s", what, visits[i], m[i], trace); return; }
}
static void lists(void)
{
    struct picotm_slist lhead, *h = picotm_slist_init_head(&lhead);  /* C30 covers the static initialisers */
    nm = 0;
    for (int i = 0; i < NI; ++i) { it[i].id = i; it[i].key = rndn(&R, 8); step[i] = 1; if (picotm_slist_init_item(&it[i].e) != &it[i].e) vf_viol("slist-init", "init_item returns another item"); }
    bool sorted = rndp(&R, 30);
    for (int n = 5 + rndn(&R, 60); n && vf_more(); --n) {
        int id = rndn(&R, NI), p = mpos(id), q = nm ? (int)rndn(&R, nm) : -1;
        struct picotm_slist *e = &it[id].e;
        int op = rndn(&R, 12);
        mixh(op * 32 + id);
        switch (op) {
        case 0: case 1: case 2: case 3: case 4:
            if (p >= 0) break;
            if (sorted) {
                tr(" sorted(%d:%d)", id, it[id].key);
                picotm_slist_enqueue_sorted(h, e, cmp_up);
                /* where does not matter as long as the order is kept */
                int at = 0;
                for (struct picotm_slist *x = picotm_slist_begin(h); x != e && x != picotm_slist_end(h) && at <= nm; x = picotm_slist_next(x)) ++at;
                if (at > nm) { vf_viol("slist-lost", "enqueue_sorted lost the item; ops:%s", trace); return; }
                mins(at, id);
                int up = 0, down = 0;
                for (int i = 0; i + 1 < nm; ++i) { up |= it[m[i]].key < it[m[i + 1]].key; down |= it[m[i]].key > it[m[i + 1]].key; }
                if (up && down) vf_viol("slist-sorted", "the list is not sorted after enqueue_sorted; ops:%s", trace);
                vf_count("sorted-inserts", 1);
            }
            else if (op == 0) { tr(" front(%d)", id); picotm_slist_enqueue_front(h, e); mins(0, id); }
            else if (op == 1) { tr(" back(%d)", id); picotm_slist_enqueue_back(h, e); mins(nm, id); }
            else if (op == 2 && nm) { tr(" before(%d,%d)", m[q], id); picotm_slist_enqueue_before(&it[m[q]].e, e); mins(q, id); }
            else if (nm) { tr(" after(%d,%d)", m[q], id); picotm_slist_enqueue_after(&it[m[q]].e, e); mins(q + 1, id); }
            break;
        case 5: if (p >= 0) { tr(" dequeue(%d)", id); picotm_slist_dequeue(e); mdel(p); } break;
        case 6: if (nm) { tr(" dequeue_front"); picotm_slist_dequeue_front(h); mdel(0); } break;
        case 7: case 8: {
            int a = rndn(&R, 8), b = rndn(&R, 3) - 1, v = rndn(&R, 3), k = v == 0 ? 3 : v == 1 ? a : a + b, at = 0;
            while (at < nm && it[m[at]].key != k) ++at;
            nvis = 0;
            tr(" find%d(%d)", v, k);
            struct picotm_slist *r = v == 0 ? picotm_slist_find_0(h, t0) : v == 1 ? picotm_slist_find_1(h, t1, &a) : picotm_slist_find_2(h, t2, &a, &b);
            if (r != (at < nm ? &it[m[at]].e : picotm_slist_end(h))) vf_viol("slist-find", "find_%d gave a wrong item; ops:%s", v, trace);
            visits_ok("find", at < nm ? at + 1 : nm);
            vf_count("searches", 1);
            break; }
        case 9: case 10: {
            int v = rndn(&R, 3), want[NI + 1], nw = 0, at = 0;
            for (int i = 0; i < NI; ++i) step[i] = rndn(&R, 10) ? 1 + rndn(&R, 3) * rndn(&R, 2) : 0;
            while (at < nm) { want[nw++] = m[at]; int s = step[m[at]]; if (!s) break; at = at + s < nm ? at + s : nm; }
            nvis = 0;
            tr(" walk%d", v);
            struct picotm_slist *r = v == 0 ? picotm_slist_walk_0(h, w0) : v == 1 ? picotm_slist_walk_1(h, w1, tags) : picotm_slist_walk_2(h, w2, tags, tags + 1);
            if (r != (at < nm ? &it[m[at]].e : picotm_slist_end(h))) vf_viol("slist-walk", "walk_%d returned a wrong item; ops:%s", v, trace);
            if (nvis != nw || memcmp(visits, want, nw * sizeof(int))) vf_viol("slist-visits", "walk_%d visited %d items instead of %d or others; ops:%s", v, nvis, nw, trace);
            vf_count("walks", 1);
            break; }
        case 11:
            if (n > 3) break;
            { int v = rndn(&R, 3), k = nm; nvis = 0; tr(" cleanup%d", v);
              if (v == 0) picotm_slist_cleanup_0(h, c0); else if (v == 1) picotm_slist_cleanup_1(h, c1, tags); else picotm_slist_cleanup_2(h, c2, tags, tags + 1);
              visits_ok("cleanup", k); nm = 0; vf_count("clean-ups", 1); }
            break;
        }
        if (!list_ok(h)) return;
    }
    picotm_slist_cleanup_0(h, c0);
    for (int i = 0; i < NI; ++i) picotm_slist_uninit_item(&it[i].e);
    picotm_slist_uninit_head(h);
}

/* ---- tables ---- */
static unsigned char *tb; static size_t tn, tsz; static int nwalk, errat; static size_t wpos[600];
static size_t wstep(void *p, struct picotm_error *e)
{
    size_t off = (unsigned char*)p - tb;
    if (nwalk >= 600 || off % tsz || off / tsz >= tn) { vf_viol("tab-element", "walk visits offset %ld of a table of %lu elements of %lu bytes; ops:%s", (long)off, tn, tsz, trace); picotm_error_set_errno(e, EIO); return 1; }
    if (nwalk == errat) { picotm_error_set_errno(e, EDOM); return 1; }
    wpos[nwalk++] = off / tsz;
    return 1 + vf_mix(off) % 3 * (tsz & 1);
}
static size_t tw1(void *p, struct picotm_error *e) { return wstep(p, e); }
static size_t tw2(void *p, void *a, struct picotm_error *e) { if (a != tags) vf_viol("tab-argument", "wrong argument"); return wstep(p, e); }
static size_t tw3(void *p, void *a, void *b, struct picotm_error *e) { if (a != tags || b != tags + 1) vf_viol("tab-argument", "wrong arguments"); return wstep(p, e); }
static int tcmp(const void *a, const void *b) { return memcmp(a, b, tsz > 3 ? 3 : tsz); }
static void tables(void)
{
    unsigned char *mod = NULL; size_t cap = 0;
    tb = NULL; tn = 0; tsz = 1 + rndn(&R, 40);
    int range = 1 + rndn(&R, 6);
    for (int n = 3 + rndn(&R, 14); n && vf_more(); --n) {
        int op = rndn(&R, 8);
        mixh(op * 1000 + tn);
        struct picotm_error err = PICOTM_ERROR_INITIALIZER;
        switch (op) {
        case 0: case 1: case 2: case 3: {
            size_t nn = rndp(&R, 70) ? tn + 1 + rndn(&R, 9) : rndn(&R, 200);
            if (rndp(&R, 5)) nn = 0;
            tr(" resize(%lu->%lu)", tn, nn);
            if (!nn && !tn) break;
            void *p = picotm_tabresize(tb, tn, nn, tsz, &err);
            if (picotm_error_is_set(&err) || (nn && !p)) { vf_viol("tab-resize", "tabresize failed; ops:%s", trace); return; }
            tb = p;
            if (nn * tsz > cap) mod = realloc(mod, cap = nn * tsz);
            size_t keep = tn < nn ? tn : nn;
            if (keep && memcmp(tb, mod, keep * tsz)) { vf_viol("tab-content", "resizing changed the content; ops:%s", trace); }
            for (size_t i = keep * tsz; i < nn * tsz; ++i) tb[i] = mod[i] = rndn(&R, range);
            tn = nn;
            vf_count("table-resizes", 1);
            break; }
        case 4: case 5: {
            int v = rndn(&R, 3);
            nwalk = 0; errat = rndp(&R, 25) ? (int)rndn(&R, 10) : -1;
            tr(" walk%d(%d)", v + 1, errat);
            size_t r = v == 0 ? picotm_tabwalk_1(tb, tn, tsz, tw1, &err) : v == 1 ? picotm_tabwalk_2(tb, tn, tsz, tw2, tags, &err) : picotm_tabwalk_3(tb, tn, tsz, tw3, tags, tags + 1, &err);
            size_t at = 0; int k = 0;
            while (at < tn && k != errat) { if (k < nwalk && wpos[k] != at) { vf_viol("tab-walk", "walk visits element %lu instead of %lu; ops:%s", wpos[k], at, trace); break; } ++k; at += 1 + vf_mix(at * tsz) % 3 * (tsz & 1); }
            if (k != nwalk || r != at) vf_viol("tab-walk", "walk visited %d elements and returned %lu instead of %d and %lu; ops:%s", nwalk, r, k, at, trace);
            if (picotm_error_is_set(&err) != (at < tn)) vf_viol("tab-error", "walk %s the call-back's error; ops:%s", at < tn ? "lost" : "invented", trace);
            vf_count("table-walks", 1);
            break; }
        case 6: {
            int v = rndn(&R, 2);
            nwalk = 0; errat = rndp(&R, 25) ? (int)rndn(&R, 10) : -1;
            tr(" rwalk%d(%d)", v + 1, errat);
            size_t r = v == 0 ? picotm_tabrwalk_1(tb, tn, tsz, tw1, &err) : picotm_tabrwalk_2(tb, tn, tsz, tw2, tags, &err);
            long at = (long)tn - 1; int k = 0; size_t sum = 0;
            while (at >= 0 && k != errat) { if (k < nwalk && wpos[k] != (size_t)at) { vf_viol("tab-rwalk", "reverse walk visits element %lu instead of %ld; ops:%s", wpos[k], at, trace); break; } ++k; size_t s = 1 + vf_mix(at * tsz) % 3 * (tsz & 1); at -= s; sum += s; }
            if (k != nwalk || r != sum) vf_viol("tab-rwalk", "reverse walk visited %d elements and returned %lu instead of %d and %lu; ops:%s", nwalk, r, k, sum, trace);
            if (picotm_error_is_set(&err) != (at >= 0)) vf_viol("tab-error", "reverse walk %s the call-back's error; ops:%s", at >= 0 ? "lost" : "invented", trace);
            vf_count("table-reverse-walks", 1);
            break; }
        case 7: {
            if (!tn) break;
            if (rndp(&R, 50)) { /* sort, so that all duplicates are neighbours */
                size_t z = tsz; qsort(tb, tn, z, tcmp); }
            memcpy(mod, tb, tn * tsz);
            tr(" uniq(%lu)", tn);
            size_t r = picotm_tabuniq(tb, tn, tsz, tcmp), u = 0;
            for (size_t i = 0; i < tn; ++i) if (!u || tcmp(mod + (u - 1) * tsz, mod + i * tsz)) { memmove(mod + u * tsz, mod + i * tsz, tsz); ++u; }
            if (r != u) { vf_viol("tab-uniq", "tabuniq left %lu elements instead of %lu; ops:%s", r, u, trace); return; }
            for (size_t i = 0; i < u; ++i) if (tcmp(tb + i * tsz, mod + i * tsz)) { vf_viol("tab-uniq", "tabuniq: element %lu is wrong; ops:%s", i, trace); break; }
            /* either of the equal elements may remain */
            memcpy(mod, tb, tn * tsz);
            vf_count("table-uniqs", 1);
            break; }
        }
    }
    picotm_tabfree(tb);
    free(mod);
}

/* ---- pointers, counters, errors ---- */
static void misc(void)
{
    for (int n = 40; n; --n) {
        size_t al = rndp(&R, 60) ? (size_t)1 << rndn(&R, 13) : 1 + rndn(&R, 3000);
        uintptr_t a = rnd(&R) >> (4 + rndn(&R, 50));
        uintptr_t f = picotm_address_floor(a, al), c = picotm_address_ceil(a, al);
        mixh(a);
        if (f > a || a - f >= al || f % al) vf_viol("address-floor", "floor of %lx to %lx is %lx", (long)a, (long)al, (long)f);
        if (c < a || c - a >= al || c % al) vf_viol("address-ceil", "ceil of %lx to %lx is %lx", (long)a, (long)al, (long)c);
        if ((uintptr_t)picotm_ptr_floor((void*)a, al) != f || (uintptr_t)picotm_ptr_ceil((void*)a, al) != c) vf_viol("ptr-align", "pointer and address alignment differ for %lx", (long)a);
        static char buf[100]; size_t x = rndn(&R, 100), y = rndn(&R, 100);
        if (picotm_ptr_diff(buf + x, buf + y) != (long)x - (long)y) vf_viol("ptr-diff", "difference of %lu and %lu is wrong", x, y);
    }
    struct { int a; double d[5]; char c; } s, *sp = picotm_containerof(&s.c, __typeof__(s), c);
    if (sp != &s) vf_viol("containerof", "containerof is wrong");
    int arr[7];
    if (picotm_arraylen(arr) != 7 || picotm_arraybeg(arr) != arr || picotm_arrayend(arr) != arr + 7 || picotm_arrayat(arr, 3) != arr + 3 || picotm_arrayfirst(arr) != arr || picotm_arraylast(arr) != arr + 6) vf_viol("array", "array helpers are wrong");
    if (picotm_sizeof_align(double) != sizeof(double) + _Alignof(double) - 1) vf_viol("sizeof-align", "sizeof_align is wrong");
    /* counters */
    unsigned c0 = rndn(&R, 3);
    struct picotm_ref16 r = PICOTM_REF_INITIALIZER(0); struct picotm_shared_ref16 q = PICOTM_SHARED_REF_INITIALIZER(0);
    picotm_ref_init(&r, c0); picotm_ref_init(&q, c0);
    unsigned v = c0;
    for (int n = 60; n; --n) {
        bool up = !v || rndp(&R, 50);
        bool a = up ? picotm_ref_up(&r) : picotm_ref_down(&r), b = up ? picotm_ref_up(&q) : picotm_ref_down(&q);
        bool w = up ? v == 0 : v == 1;
        v += up ? 1 : -1;
        if (a != w || b != w) vf_viol("ref-edge", "%s of a counter at %u returned %d and %d", up ? "up" : "down", v, a, b);
        if (picotm_ref_count(&r) != v || picotm_ref_count(&q) != v) vf_viol("ref-count", "counters are %u and %u instead of %u", (unsigned)picotm_ref_count(&r), (unsigned)picotm_ref_count(&q), v);
    }
    vf_count("counter-steps", 60);
    /* errors */
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    int st = 0; bool nr = false; const char *d = NULL; int val = 0; struct picotm_rwlock *lk = NULL;
    static const char *const str = "text";
    for (int n = 40; n; --n) {
        int op = rndn(&R, 9);
        mixh(op);
        switch (op) {
        case 0: picotm_error_clear(&e); st = 0; nr = false; d = NULL; break;
        case 1: lk = rndp(&R, 50) ? (void*)&val : NULL; picotm_error_set_conflicting(&e, lk); st = PICOTM_CONFLICTING; nr = false; d = NULL; break;
        case 2: picotm_error_set_revocable(&e); st = PICOTM_REVOCABLE; nr = false; d = NULL; break;
        case 3: val = rndn(&R, 6); picotm_error_set_error_code(&e, val); st = PICOTM_ERROR_CODE; nr = false; d = NULL; break;
        case 4: val = rndn(&R, 200); picotm_error_set_errno(&e, val); st = PICOTM_ERRNO; nr = false; d = NULL; break;
        case 5: { siginfo_t si; memset(&si, 0, sizeof(si)); si.si_signo = val = 1 + rndn(&R, 20); picotm_error_set_siginfo_t(&e, &si); st = PICOTM_SIGINFO_T; nr = false; d = NULL; break; }
        case 6: if (st) { picotm_error_mark_as_non_recoverable(&e); nr = true; } break;
        case 7: d = rndp(&R, 70) ? str : NULL; picotm_error_set_description(&e, d); break;
        case 8: break;
        }
        if (picotm_error_is_set(&e) != (st != 0) || (st && e.status != (enum picotm_error_status)st)) vf_viol("error-status", "error status is %d instead of %d", e.status, st);
        if (picotm_error_is_conflicting(&e) != (st == PICOTM_CONFLICTING)) vf_viol("error-kind", "is_conflicting is wrong for status %d", st);
        if (picotm_error_is_revocable(&e) != (st == PICOTM_REVOCABLE)) vf_viol("error-kind", "is_revocable is wrong for status %d", st);
        if (st != PICOTM_REVOCABLE && picotm_error_is_error(&e) != (st && st != PICOTM_CONFLICTING)) vf_viol("error-kind", "is_error is wrong for status %d", st);
        if (e.is_non_recoverable != nr) vf_viol("error-recoverable", "is_non_recoverable is not %d", nr);
        if (picotm_error_get_description(&e) != d) vf_viol("error-description", "wrong description");
        if ((st == PICOTM_CONFLICTING && e.value.conflicting_lock != lk) || (st == PICOTM_ERROR_CODE && (int)e.value.error_hint != val) || (st == PICOTM_ERRNO && e.value.errno_hint != val) || (st == PICOTM_SIGINFO_T && e.value.siginfo_t_info.si_signo != val))
            vf_viol("error-value", "wrong value for status %d", st);
        vf_count("error-states", 1);
    }
}

/* ---- threads ---- */
struct robj { struct picotm_shared_ref16_obj ref; int live, inits, finis; long plain; _Atomic int users; };
static struct robj ro[3];
static struct picotm_spinlock spin[2] = { PICOTM_SPINLOCK_INITIALIZER, PICOTM_SPINLOCK_INITIALIZER };
static long prot[2]; static _Atomic long expect_prot[2];
static _Atomic int inside[2];
static pthread_barrier_t bar;
static int rounds;
struct cb { int refuse, fail, mode; bool called; };
static bool cond(struct picotm_shared_ref16_obj *o, void *d, struct picotm_error *e)
{
    struct cb *c = d;
    if (c->refuse == 2) { picotm_error_set_errno(e, EAGAIN); return false; }
    return !c->refuse;
}
static void first(struct picotm_shared_ref16_obj *o, void *d, struct picotm_error *e)
{
    struct robj *r = picotm_containerof(o, struct robj, ref);
    struct cb *c = d;
    if (r->live) vf_viol("ref-first-twice", "the initialiser runs on an initialised object");
    if (c->fail) { picotm_error_set_errno(e, ENOSPC); return; }
    r->live = 1; ++r->inits; c->called = true;
}
static void final(struct picotm_shared_ref16_obj *o, void *d, struct picotm_error *e)
{
    struct robj *r = picotm_containerof(o, struct robj, ref);
    if (!r->live) vf_viol("ref-final-twice", "the finaliser runs on an object that is not initialised");
    if (atomic_load(&r->users)) vf_viol("ref-final-early", "the finaliser runs with %d users", atomic_load(&r->users));
    r->live = 0; ++r->finis;
}
static void *thread(void *arg)
{
    struct rng r = vf_rng(vf_seed, *vf_cur, 3300 + (long)arg);
    int held[3] = { 0 };
    pthread_barrier_wait(&bar);
    for (int n = 0; n < rounds && vf_more(); ++n) {
        int i = rndn(&r, 3); struct robj *o = &ro[i];
        switch (rndn(&r, 5)) {
        case 0: case 1: {
            struct cb c = { .refuse = rndp(&r, 20) ? 1 + rndn(&r, 2) : 0, .fail = rndp(&r, 15) };
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            bool fast = held[i] && rndp(&r, 30), nocond = rndp(&r, 50);
            if (nocond) c.refuse = 0;
            if (fast) c.refuse = c.fail = 0, picotm_shared_ref16_obj_up(&o->ref, NULL, NULL, NULL, &e);
            else picotm_shared_ref16_obj_up(&o->ref, &c, nocond ? NULL : cond, first, &e);
            if (c.refuse == 2) { if (!picotm_error_is_set(&e) || e.value.errno_hint != EAGAIN) vf_viol("ref-cond-error", "the condition's error was lost"); break; }
            if (c.refuse) { if (picotm_error_is_set(&e)) vf_viol("ref-error", "an error without reason"); vf_count("references-refused", 1); break; }
            if (picotm_error_is_set(&e)) { if (!c.fail || e.value.errno_hint != ENOSPC || c.called) vf_viol("ref-error", "unexpected error"); vf_count("initialisers-failed", 1); break; }
            ++held[i]; atomic_fetch_add(&o->users, 1);
            if (!o->live) vf_viol("ref-not-initialised", "a reference to an object that is not initialised");
            if (picotm_shared_ref16_obj_count(&o->ref) < held[i]) vf_viol("ref-count", "the counter is below the number of references of one thread");
            vf_count("references-acquired", 1);
            break; }
        case 2: case 3: {
            if (!held[i]) break;
            struct cb c = { .refuse = rndp(&r, 15) };
            if (!o->live) vf_viol("ref-not-initialised", "the object vanished while it is referenced");
            atomic_fetch_sub(&o->users, 1);
            picotm_shared_ref16_obj_down(&o->ref, &c, c.refuse || rndp(&r, 30) ? cond : NULL, final);
            if (c.refuse) { atomic_fetch_add(&o->users, 1); break; }
            --held[i];
            break; }
        case 4: {
            int s = rndn(&r, 2); long k = 1 + rndn(&r, 5);
            if (rndp(&r, 40)) { if (!picotm_spinlock_try_lock(&spin[s])) { vf_count("try-locks-failed", 1); break; } }
            else picotm_spinlock_lock(&spin[s]);
            if (atomic_fetch_add(&inside[s], 1)) vf_viol("spinlock", "two threads within a critical section");
            prot[s] += k; if (rndp(&r, 2)) sched_yield();
            atomic_fetch_sub(&inside[s], 1);
            picotm_spinlock_unlock(&spin[s]);
            atomic_fetch_add_explicit(&expect_prot[s], k, memory_order_relaxed);
            vf_count("critical-sections", 1);
            break; }
        }
        if (n % 64 == 0) vf_tick();
    }
    for (int i = 0; i < 3; ++i) while (held[i]--) { atomic_fetch_sub(&ro[i].users, 1); picotm_shared_ref16_obj_down(&ro[i].ref, NULL, NULL, final); }
    return NULL;
}
static void threads(void)
{
    pthread_t t[16]; int nt = vf_threads > 16 ? 16 : vf_threads;
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    memset(ro, 0, sizeof(ro)); memset(prot, 0, sizeof(prot));
    for (int i = 0; i < 2; ++i) { atomic_store(&expect_prot[i], 0); picotm_spinlock_init(&spin[i]); }
    for (int i = 0; i < 3; ++i) picotm_shared_ref16_obj_init(&ro[i].ref, &e);
    rounds = 600;
    pthread_barrier_init(&bar, NULL, nt);
    for (long i = 0; i < nt; ++i) pthread_create(&t[i], NULL, thread, (void*)i);
    for (int i = 0; i < nt; ++i) pthread_join(t[i], NULL);
    pthread_barrier_destroy(&bar);
    for (int i = 0; i < 3; ++i) {
        if (picotm_shared_ref16_obj_count(&ro[i].ref) || ro[i].live || ro[i].inits != ro[i].finis) vf_viol("ref-balance", "object %d: count %d, %d initialisations, %d finalisations", i, (int)picotm_shared_ref16_obj_count(&ro[i].ref), ro[i].inits, ro[i].finis);
        vf_count("initialisations", ro[i].inits); mixh(ro[i].inits);
        picotm_shared_ref16_obj_uninit(&ro[i].ref);
    }
    for (int i = 0; i < 2; ++i) { if (prot[i] != expect_prot[i]) vf_viol("spinlock-lost", "protected counter is %ld instead of %ld", prot[i], (long)expect_prot[i]); picotm_spinlock_uninit(&spin[i]); }
}
int main(int argc, char **argv)
{
    vf_init(argc, argv);
    bool th = !strcmp(vf_mode, "threads");
    for (uint64_t i = vf_from; i < vf_from + vf_cases && vf_more(); ++i) {
        vf_case(i); R = vf_rng(vf_seed, i, 33); tl = 0; trace[0] = 0; H = i % 8;
        if (th) threads();
        else switch (i % 8) {
        case 0: case 1: case 2: case 3: lists(); break;
        case 4: case 5: case 6: tables(); break;
        case 7: misc(); break;
        }
        vf_distinct(H);
        if (i < 6) vf_sample("%s", trace);
    }
    vf_finish(atomic_load(&vf_nviol) ? 1 : 0);
}
