/* C10: tree maps.  C11: shared reference-counted objects.
 * modes: map, smap, ref */
#include "vf.h"
#include "picotm/picotm-error.h"
#include "picotm/picotm-lib-treemap.h"
#include "picotm/picotm-lib-shared-treemap.h"
#include "picotm/picotm-lib-shared-ref-obj.h"
#include "picotm/picotm-lib-shared-state.h"
#include "picotm/picotm-lib-global-state.h"
#include "picotm/picotm-lib-state.h"
#include "picotm/picotm-lib-thread-state.h"
#include "picotm/picotm-lib-state.h"
#include "picotm/picotm-lib-ptr.h"

#define NK 64
#define MAXT 16
struct val { unsigned long long key; uint64_t magic; void *map; };
static unsigned long long keys[NK]; static int nk;
static _Atomic long created, destroyed, failedcreate;
static __thread struct rng *tr; static __thread int failpct;
static __thread unsigned long long lookup_key; static __thread int ncreate;

static uintptr_t mkval(unsigned long long key, void *map, struct picotm_error *e)
{
    ncreate++;
    if (key != lookup_key) vf_viol("creator-key", "creator called for key %llx instead of %llx", key, lookup_key);
    if (rndp(tr, failpct)) { picotm_error_set_errno(e, ENOMEM); failedcreate++; return 0; }
    struct val *v = malloc(sizeof(*v));
    v->key = key; v->magic = 0x1122334455667788ull; v->map = map;
    created++;
    return (uintptr_t)v;
}
static void rmval(uintptr_t x, void *map)
{
    struct val *v = (struct val*)x;
    if (v->magic != 0x1122334455667788ull || v->map != map) vf_viol("destroy-value", "destroy called with a wrong value or map");
    v->magic = 0; destroyed++;
    free(v);
}
static uintptr_t tm_create(unsigned long long k, struct picotm_treemap *m, struct picotm_error *e) { return mkval(k, m, e); }
static void tm_destroy(uintptr_t v, struct picotm_treemap *m) { rmval(v, m); }
static uintptr_t st_create(unsigned long long k, struct picotm_shared_treemap *m, struct picotm_error *e) { return mkval(k, m, e); }
static void st_destroy(uintptr_t v, struct picotm_shared_treemap *m) { rmval(v, m); }

static unsigned long long mkkey(struct rng *r, unsigned bits)
{
    if (!bits) return 0;
    unsigned long long k;
    switch (rndn(r, 5)) {
    case 0: k = rndn(r, 8); break;
    case 1: k = 1ull << rndn(r, bits); k += (long long)rndn(r, 3) - 1; break;
    case 2: k = ~0ull - rndn(r, 4); break;
    case 3: k = rnd(r) & rnd(r); break;
    default: k = rnd(r) >> rndn(r, 64);
    }
    return bits >= 64 ? k : k & ((1ull << bits) - 1);
}
static void mkkeys(struct rng *r, unsigned bits)
{
    nk = 1 + rndn(r, NK);
    for (int i = 0; i < nk; ++i) {
        keys[i] = i && rndp(r, 30) ? keys[rndn(r, i)] ^ (1ull << rndn(r, bits ? bits : 1)) : mkkey(r, bits);
        if (bits < 64) keys[i] &= (1ull << bits) - 1;
        for (int j = 0; j < i; ++j) if (keys[j] == keys[i]) { --i; --nk; break; }
    }
    if (nk < 1) nk = 1;
}

/* ---- plain map ---- */
struct walk { int n; unsigned long long k[NK + 1]; uintptr_t v[NK + 1]; void *map; int stop; };
static void wcb(uintptr_t v, unsigned long long k, struct picotm_treemap *m, void *d, struct picotm_error *e)
{
    struct walk *w = d;
    if (m != w->map) vf_viol("walk-map", "walk call-back got a wrong map");
    if (w->n <= NK) { w->k[w->n] = k; w->v[w->n] = v; }
    w->n++;
    if (w->stop && w->n == w->stop) picotm_error_set_errno(e, EINTR);
}
static int cmpk(const void *a, const void *b)
{
    unsigned long long x = *(unsigned long long*)a, y = *(unsigned long long*)b;
    return x < y ? -1 : x > y;
}
static void map(uint64_t ci)
{
    struct rng r = vf_rng(vf_seed, 10, ci); tr = &r;
    unsigned nb = rndp(&r, 40) ? (unsigned[]){ 4, 8, 2, 16 }[rndn(&r, rndp(&r, 20) ? 4 : 3)] : 1 + rndn(&r, rndp(&r, 15) ? 13 : 7);
    unsigned bits = rndp(&r, 50) ? 64 : 1 + rndn(&r, 64);
    mkkeys(&r, bits);
    if (nb > 8 && nk > (1 << (17 - nb))) nk = 1 << (17 - nb);
    failpct = rndp(&r, 30) ? 30 : 0;
    created = destroyed = 0;
    struct picotm_treemap m;
    picotm_treemap_init(&m, nb);
    uintptr_t v[NK] = {};
    uint64_t h = nb;
    int nops = 1 + rndn(&r, 120);
    for (int i = 0; i < nops; ++i) {
        int k = rndn(&r, nk), op = rndn(&r, 10);
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        lookup_key = keys[k]; ncreate = 0;
        h = vf_hash(h, &keys[k], 8) * 11 + op;
        if (op < 5) {
            uintptr_t x = picotm_treemap_find_value(&m, keys[k], tm_create, &e);
            if (v[k]) {
                if (x != v[k] || ncreate || picotm_error_is_set(&e)) vf_viol("unstable", "key %llx with %u bits per level: lookup returned another value (%d creations)", keys[k], nb, ncreate);
            } else {
                if (ncreate != 1) vf_viol("creations", "key %llx: %d creations", keys[k], ncreate);
                if (picotm_error_is_set(&e)) { if (x) vf_viol("error-value", "value returned with error"); }
                else {
                    if (!x) vf_viol("no-value", "key %llx: no value", keys[k]);
                    v[k] = x;
                }
            }
            if (v[k] && x && ((struct val*)x)->key != keys[k]) vf_viol("wrong-key", "key %llx: value of key %llx", keys[k], ((struct val*)x)->key);
        } else if (op < 8) {
            uintptr_t x = picotm_treemap_find_value(&m, keys[k], NULL, &e);
            if (x != v[k] || picotm_error_is_set(&e)) vf_viol("lookup", "key %llx with %u bits per level: lookup without creator returned %s", keys[k], nb, x ? "a wrong value" : "no value");
        } else {
            struct walk w = { .map = &m };
            unsigned long long s[NK]; int n = 0;
            for (int j = 0; j < nk; ++j) if (v[j]) s[n++] = keys[j];
            qsort(s, n, sizeof(s[0]), cmpk);
            if (n && rndp(&r, 20)) w.stop = 1 + rndn(&r, n);
            picotm_treemap_for_each_value(&m, &w, wcb, &e);
            if (!!w.stop != picotm_error_is_set(&e)) vf_viol("walk-error", "error of the call-back %s", w.stop ? "lost" : "invented");
            if (w.n != (w.stop ? w.stop : n)) vf_viol("walk-count", "walk visited %d of %d values (%u bits per level)", w.n, n, nb);
            else for (int j = 0; j < w.n; ++j) {
                if (w.k[j] != s[j]) { vf_viol("walk-order", "walk step %d has key %llx instead of %llx (%u bits per level)", j, w.k[j], s[j], nb); break; }
                if (((struct val*)w.v[j])->key != s[j]) { vf_viol("walk-value", "walk has value of another key"); break; }
            }
            vf_count("walks", 1);
        }
    }
    long n = 0; for (int j = 0; j < nk; ++j) n += !!v[j];
    picotm_treemap_uninit(&m, tm_destroy);
    if (created != n || destroyed != n) vf_viol("tear-down", "%ld values created, %ld destroyed, %ld known (%u bits per level)", (long)created, (long)destroyed, n, nb);
    vf_count("map-operations", nops);
    vf_distinct(h);
    vf_sample("map case %" PRIu64 ": %d keys of %u bits, %u bits per level, %d operations", ci, nk, bits, nb, nops);
}

/* ---- shared map ---- */
static struct picotm_shared_treemap sm;
static struct th { pthread_t pt; struct rng r; uintptr_t v[NK]; int fp, nops; uint64_t h; long lost; } ths[MAXT];
static pthread_barrier_t bar;
static void *smrun(void *a)
{
    struct th *t = a;
    tr = &t->r; failpct = t->fp;
    pthread_barrier_wait(&bar);
    for (int i = 0; i < t->nops; ++i) {
        int k = rndp(&t->r, 60) ? i % nk : rndn(&t->r, nk);
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        lookup_key = keys[k]; ncreate = 0;
        bool c = rndp(&t->r, 70);
        uintptr_t x = picotm_shared_treemap_find_value(&sm, keys[k], c ? st_create : NULL, c || rndp(&t->r, 50) ? st_destroy : NULL, &e);
        if (picotm_error_is_set(&e)) { if (x) vf_viol("error-value", "value returned with error"); if (!failpct) vf_viol("error", "lookup failed"); if (!ncreate) vf_viol("error", "error without creation"); continue; }
        if (c && !x) vf_viol("no-value", "key %llx: no value", keys[k]);
        if (!c && ncreate) vf_viol("creations", "created without creator?");
        if (ncreate > 1) vf_viol("creations", "%d creations in one lookup", ncreate);
        if (t->v[k] && x != t->v[k]) vf_viol("unstable", "key %llx: another value", keys[k]);
        if (x) {
            if (((struct val*)x)->key != keys[k] || ((struct val*)x)->magic != 0x1122334455667788ull) vf_viol("wrong-key", "key %llx: wrong or destroyed value", keys[k]);
            t->v[k] = x;
        }
        t->h = t->h * 3 + ncreate;
        vf_delay(&t->r, 1);
    }
    return NULL;
}
static void smap(uint64_t ci)
{
    struct rng r = vf_rng(vf_seed, 11, ci);
    int nth = 1 + rndn(&r, vf_threads);
    unsigned bits = rndp(&r, 30) ? 64 : 1 + rndn(&r, 64), nb = rndp(&r, 40) ? (unsigned[]){ 4, 8, 2, 16 }[rndn(&r, rndp(&r, 20) ? 4 : 3)] : 1 + rndn(&r, rndp(&r, 15) ? 13 : 7);
    mkkeys(&r, bits);
    if (nb > 8 && nk > (1 << (17 - nb))) nk = 1 << (17 - nb);
    created = destroyed = 0;
    picotm_shared_treemap_init(&sm, bits, nb);
    pthread_barrier_init(&bar, NULL, nth);
    int fp = rndp(&r, 30) ? 20 : 0, nops = 1 + rndn(&r, 150);
    for (int i = 0; i < nth; ++i) { memset(&ths[i], 0, sizeof(ths[i])); ths[i].r = vf_rng(vf_seed, ci, i + 9); ths[i].fp = fp; ths[i].nops = nops; }
    for (int i = 0; i < nth; ++i) if (pthread_create(&ths[i].pt, NULL, smrun, &ths[i])) exit(2);
    for (int i = 0; i < nth; ++i) pthread_join(ths[i].pt, NULL);
    uint64_t h = ci; long known = 0;
    for (int k = 0; k < nk; ++k) {
        uintptr_t v = 0;
        for (int i = 0; i < nth; ++i) if (ths[i].v[k]) { if (v && v != ths[i].v[k]) vf_viol("disagree", "threads got different values for key %llx", keys[k]); v = ths[i].v[k]; }
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        uintptr_t x = picotm_shared_treemap_find_value(&sm, keys[k], NULL, NULL, &e);
        if (v && x != v) vf_viol("disagree", "value of key %llx changed", keys[k]);
        if (x && ((struct val*)x)->key != keys[k]) vf_viol("wrong-key", "key %llx: value of key %llx", keys[k], ((struct val*)x)->key);
        if (x && !v) vf_viol("disagree", "key %llx has a value nobody created", keys[k]);
        known += !!x;
    }
    for (int i = 0; i < nth; ++i) h = h * 1000003 + ths[i].h;
    vf_count("lost-creations", destroyed);
    if (created - destroyed != known) vf_viol("loser-leak", "%ld values for %ld keys", (long)(created - destroyed), known);
    picotm_shared_treemap_uninit(&sm, st_destroy);
    if (created != destroyed) vf_viol("tear-down", "%ld values created, %ld destroyed", (long)created, (long)destroyed);
    vf_count("shared-lookups", (uint64_t)nops * nth);
    vf_distinct(h);
    vf_sample("shared-map case %" PRIu64 ": %d threads, %d keys of %u bits, %u bits per level, %d lookups each", ci, nth, nk, bits, nb, nops);
    pthread_barrier_destroy(&bar);
}

/* ---- reference-counted objects ---- */
struct obj { struct picotm_shared_ref16_obj ref; char *data; long gen; _Atomic int in; _Atomic long inits, fins; };
static struct obj ob;
struct cbd { struct rng *r; int cond; bool condcalled, condres; int fail; bool first, final; };
static void excl(struct obj *o) { if (atomic_fetch_add(&o->in, 1)) vf_viol("overlap", "two call-backs of an object run at once"); for (volatile int i = 0; i < 50; ++i) ; }
static void excl_end(struct obj *o) { atomic_fetch_sub(&o->in, 1); }
static bool rcond(struct picotm_shared_ref16_obj *x, void *d, struct picotm_error *e)
{
    struct obj *o = picotm_containerof(x, struct obj, ref); struct cbd *c = d;
    excl(o);
    c->condcalled = true;
    c->condres = c->cond == 1 ? picotm_shared_ref16_obj_count(x) > 0 : c->cond == 2 ? false : true;
    if (c->cond == 1 && c->condres && !o->data) vf_viol("half-dead", "references exist but the object is not initialised");
    if (c->cond == 4) picotm_error_set_errno(e, EPERM);
    excl_end(o);
    return c->condres;
}
static void rfirst(struct picotm_shared_ref16_obj *x, void *d, struct picotm_error *e)
{
    struct obj *o = picotm_containerof(x, struct obj, ref); struct cbd *c = d;
    excl(o);
    c->first = true;
    if (o->data) vf_viol("double-init", "initialiser runs on an initialised object");
    if (c->fail) picotm_error_set_errno(e, ENOSPC);
    else { o->data = malloc(16); memset(o->data, 0x42, 16); o->gen++; o->inits++; }
    excl_end(o);
}
static void rfinal(struct picotm_shared_ref16_obj *x, void *d, struct picotm_error *e)
{
    struct obj *o = picotm_containerof(x, struct obj, ref); struct cbd *c = d;
    excl(o);
    c->final = true;
    if (!o->data) vf_viol("double-final", "finaliser runs on an object that is not initialised");
    free(o->data); o->data = NULL; o->fins++;
    excl_end(o);
}
struct ss { char *p; };
static _Atomic long ss_inits, ss_uninits; static _Atomic int ss_fail;
static void ss_init(struct ss *s, struct picotm_error *e)
{
    if (ss_fail && ss_inits % 3 == 1) { ss_fail--; picotm_error_set_errno(e, ENOMEM); return; }
    s->p = malloc(8); memset(s->p, 7, 8); ss_inits++;
}
static void ss_uninit(struct ss *s) { if (s->p[3] != 7) vf_viol("shared-state", "shared state damaged"); free(s->p); s->p = NULL; ss_uninits++; }
PICOTM_SHARED_STATE(ss, struct ss)
PICOTM_SHARED_STATE_STATIC_IMPL(ss, struct ss, ss_init, ss_uninit)
static PICOTM_SHARED_STATE_TYPE(ss) gss = PICOTM_SHARED_STATE_INITIALIZER;
PICOTM_GLOBAL_STATE_STATIC_IMPL(ss)
static bool sglob;    /* the case uses the global instance */
static struct ss *ss_ref(struct picotm_error *e) { return sglob ? PICOTM_GLOBAL_STATE_REF(ss, e) : PICOTM_SHARED_STATE_REF(ss, &gss, e); }
static void ss_unref(void) { if (sglob) PICOTM_GLOBAL_STATE_UNREF(ss); else PICOTM_SHARED_STATE_UNREF(ss, &gss); }
/* thread-local state */
struct ts { char *p; long gen; };
static __thread long ts_inits, ts_uninits; static __thread bool ts_fail;
static void ts_init(struct ts *s, struct picotm_error *e)
{
    if (ts_fail) { picotm_error_set_errno(e, EDOM); return; }
    s->p = malloc(8); memset(s->p, 9, 8); s->gen = ++ts_inits;
}
static void ts_uninit(struct ts *s) { if (s->p[3] != 9) vf_viol("thread-state", "thread state damaged"); free(s->p); s->p = NULL; ts_uninits++; }
PICOTM_STATE(ts, struct ts);
PICOTM_STATE_STATIC_DECL(ts, struct ts)
PICOTM_THREAD_STATE_STATIC_DECL(ts)
PICOTM_STATE_STATIC_IMPL(ts, struct ts, ts_init, ts_uninit)
PICOTM_THREAD_STATE_STATIC_IMPL(ts)

static void *refrun(void *a)
{
    struct th *t = a; int held = 0, sheld = 0; struct ss *sp = NULL;
    PICOTM_STATE_TYPE(ts) local = PICOTM_STATE_INITIALIZER; bool tup = false, lup = false; struct ts *towner = NULL;
    pthread_barrier_wait(&bar);
    for (int i = 0; i < t->nops; ++i) {
        struct picotm_error e = PICOTM_ERROR_INITIALIZER;
        struct cbd c = { .r = &t->r, .fail = rndp(&t->r, 20) };
        int op = rndn(&t->r, 12);
        if (op < 5 && held < 20) {
            if (held && rndp(&t->r, 30)) {          /* fast path */
                picotm_shared_ref16_obj_up(&ob.ref, &c, NULL, NULL, &e);
                held++;
            } else {
                c.cond = rndn(&t->r, 5);            /* 0: none; 1: if alive; 2: never; 3: always; 4: error */
                bool nofirst = c.cond == 1 && rndp(&t->r, 50);
                picotm_shared_ref16_obj_up(&ob.ref, &c, c.cond ? rcond : NULL, nofirst ? NULL : rfirst, &e);
                bool err = picotm_error_is_set(&e);
                if (c.cond && !c.condcalled) vf_viol("no-condition", "condition not evaluated");
                if (held && c.first) vf_viol("init-while-ref", "initialiser ran although a reference exists");
                if (c.first && c.fail && !err) vf_viol("lost-error", "failed initialisation not reported");
                if (c.cond == 4 && !err) vf_viol("lost-error", "failed condition not reported");
                if (err && !(c.first && c.fail) && c.cond != 4) vf_viol("error", "error out of nothing");
                if (c.cond && !c.condres && c.first) vf_viol("init-unmet", "initialised although the condition is false");
                if (!err && (!c.cond || c.condres)) held++;
            }
        } else if (op < 9 && held) {
            c.cond = rndp(&t->r, 30) ? 1 + rndn(&t->r, 3) : 0;
            picotm_shared_ref16_obj_down(&ob.ref, &c, c.cond ? rcond : NULL, rfinal);
            if (c.cond && !c.condcalled) vf_viol("no-condition", "condition not evaluated");
            if (c.cond && !c.condres) { if (c.final) vf_viol("final-unmet", "finalised although the condition is false"); }
            else held--;
            if (held && c.final) vf_viol("final-while-ref", "finaliser ran although a reference exists");
        } else if (op == 9) {
            if (sheld && rndp(&t->r, 50)) { ss_unref(); sheld--; }
            else {
                struct ss *s = ss_ref(&e);
                if (s) { sheld++; if (sp && s != sp) vf_viol("shared-state", "two instances"); sp = s; if (picotm_error_is_set(&e)) vf_viol("shared-state", "state returned with error"); }
                else if (!picotm_error_is_set(&e)) vf_viol("shared-state", "no state and no error");
            }
            if (sheld && (sp != (sglob ? PICOTM_GLOBAL_STATE_GET(ss) : &gss.ss) || sp->p[1] != 7)) vf_viol("shared-state", "shared state damaged");
        } else if (op > 9) {
            /* the thread's own state and an instance on the stack */
            bool own = op == 10, up = own ? tup : lup, want = rndp(&t->r, 60);
            if (rndp(&t->r, 30)) {
                long u = ts_uninits;
                if (own) PICOTM_THREAD_STATE_RELEASE(ts); else PICOTM_STATE_RELEASE(ts, &local);
                if (ts_uninits - u != up) vf_viol("thread-state", "%ld finalisations on release of state that was%s initialised", ts_uninits - u, up ? "" : " not");
                up = false;
            } else {
                ts_fail = rndp(&t->r, 20);
                long n = ts_inits;
                struct ts *s = own ? PICOTM_THREAD_STATE_ACQUIRE(ts, want, &e) : PICOTM_STATE_ACQUIRE(ts, &local, want, &e);
                bool mk = !up && want && !ts_fail, err = !up && want && ts_fail;
                if (picotm_error_is_set(&e) != err) vf_viol("thread-state", "error reported: %d, expected: %d", picotm_error_is_set(&e), err);
                if (ts_inits - n != mk) vf_viol("thread-state", "%ld initialisations, expected %d", ts_inits - n, mk);
                up = up || mk;
                if (!s == up) vf_viol("thread-state", "state %s", s ? "returned without initialisation" : "not returned");
                if (s && (s->p[2] != 9 || (own && towner && towner != s))) vf_viol("thread-state", "wrong state");
                if (s && own) { towner = s; }
                vf_count("thread-states", 1);
            }
            if (own) tup = up; else lup = up;
        }
        if (held) {
            for (int k = 0; k < 16; ++k) if (!ob.data || ob.data[k] != 0x42) { vf_viol("dead-object", "object is not initialised while a reference is held"); break; }
            if (picotm_shared_ref16_obj_count(&ob.ref) < held) vf_viol("count", "counter below the references of one thread");
        }
        t->h = t->h * 5 + c.first + 2 * c.final;
        vf_delay(&t->r, 2);
    }
    while (held) { struct cbd c = {}; picotm_shared_ref16_obj_down(&ob.ref, &c, NULL, rfinal); held--; if (held && c.final) vf_viol("final-while-ref", "finaliser ran although a reference exists"); }
    while (sheld--) ss_unref();
    PICOTM_STATE_RELEASE(ts, &local); PICOTM_THREAD_STATE_RELEASE(ts); PICOTM_THREAD_STATE_RELEASE(ts);
    if (ts_inits != ts_uninits) vf_viol("thread-state", "%ld initialisations, %ld finalisations", ts_inits, ts_uninits);
    return NULL;
}
static void refs_(uint64_t ci)
{
    struct rng r = vf_rng(vf_seed, 14, ci);
    int nth = 1 + rndn(&r, vf_threads);
    memset(&ob, 0, sizeof(ob));
    struct picotm_error e = PICOTM_ERROR_INITIALIZER;
    picotm_shared_ref16_obj_init(&ob.ref, &e);
    ss_inits = ss_uninits = 0; ss_fail = 3; sglob = ci & 1;
    pthread_barrier_init(&bar, NULL, nth);
    for (int i = 0; i < nth; ++i) { memset(&ths[i], 0, sizeof(ths[i])); ths[i].r = vf_rng(vf_seed, ci, i + 77); ths[i].nops = 20 + rndn(&r, 200); }
    for (int i = 0; i < nth; ++i) if (pthread_create(&ths[i].pt, NULL, refrun, &ths[i])) exit(2);
    uint64_t h = ci;
    for (int i = 0; i < nth; ++i) { pthread_join(ths[i].pt, NULL); h = h * 1000003 + ths[i].h; }
    if (picotm_shared_ref16_obj_count(&ob.ref)) vf_viol("count", "counter is %d after the last reference", picotm_shared_ref16_obj_count(&ob.ref));
    if (ob.inits != ob.fins || ob.data) vf_viol("balance", "%ld initialisations, %ld finalisations", (long)ob.inits, (long)ob.fins);
    if (ss_inits != ss_uninits) vf_viol("shared-state", "%ld initialisations, %ld finalisations", (long)ss_inits, (long)ss_uninits);
    picotm_shared_ref16_obj_uninit(&ob.ref);
    vf_count("object-lives", ob.inits); vf_count("state-lives", ss_inits);
    vf_distinct(h);
    vf_sample("ref case %" PRIu64 ": %d threads, %ld object lives", ci, nth, (long)ob.inits);
    pthread_barrier_destroy(&bar);
}
int main(int argc, char **argv)
{
    vf_init(argc, argv);
    for (uint64_t ci = vf_from; ci < vf_from + vf_cases && vf_more(); ++ci) {
        vf_case(ci);
        if (!strcmp(vf_mode, "map")) map(ci); else if (!strcmp(vf_mode, "smap")) smap(ci); else refs_(ci);
    }
    vf_finish(0);
}
