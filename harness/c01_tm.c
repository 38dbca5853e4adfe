/* C01/C03/C05/C29: concurrent transactions on shared memory, checked off-line
 * for serializability, opacity of aborted executions, and exclusivity of
 * irrevocable ones. */
#include "vf_tx.h"
#include "picotm/picotm-tm.h"

#define MAXTH 32
#define MAXVAR 48
#define MAXACC 24
#define MAXATT 6000

struct acc { uint32_t ver; uint16_t var; bool write; };
struct att {
    uint64_t ticket, tstart;
    uint32_t nacc;
    uint16_t th;
    bool irrev, errout;
    struct acc acc[MAXACC];
};
struct th {
    pthread_t t;
    int id;
    struct rng r;
    struct vf_txmon mon;
    struct att *att; uint32_t natt;
    uint32_t nver;
    uint32_t own[MAXVAR];          /* own writes of the current attempt */
    volatile int ntx;
    volatile uint32_t restarts_in_tx, maxrestarts;
    bool wantirrev;
    bool over;
};
static struct th ths[MAXTH];
static struct { uint32_t off, len; bool str; } var[MAXVAR];
static int nvar, nth, txlen, delaypct, ntxs;
static unsigned char *arena; static size_t arenasz;
static uint32_t *mem_expect;
static _Atomic int in_tx, irrev_in;       /* exclusivity monitor for C05 */
static _Atomic uint64_t overlap_seen;
static pthread_barrier_t bar;

/* Strings carry their version in bytes with the highest bit set and end with
 * the only zero byte. */
static void pattern(int v, uint32_t ver, unsigned char *b)
{
    uint32_t n = var[v].len, i = 0;
    uint64_t x = vf_mix(ver);
    if (var[v].str)
        for (; i < 5; ++i) b[i] = 0x80 | ((uint64_t)ver >> (7 * i) & 0x7f);
    else
        for (; i < 4; ++i) b[i] = ver >> (8 * i);
    for (; i < n; ++i) b[i] = (unsigned char)(x >> (8 * (i % 8))) ^ (unsigned char)(i * 7);
    if (var[v].str) {
        for (i = 5; i < n; ++i) b[i] |= 0x80;
        b[n - 1] = 0;
    }
}
static uint32_t check_pattern(int v, const unsigned char *b, bool *torn)
{
    unsigned char e[256]; uint64_t ver = 0;
    if (var[v].str)
        for (int i = 0; i < 5; ++i) ver |= (uint64_t)(b[i] & 0x7f) << (7 * i);
    else
        for (int i = 0; i < 4; ++i) ver |= (uint64_t)b[i] << (8 * i);
    pattern(v, (uint32_t)ver, e);
    *torn = memcmp(e, b, var[v].len) != 0;
    return (uint32_t)ver;
}

static struct att *new_att(struct th *t)
{
    if (t->natt >= MAXATT) { t->natt = MAXATT - 1; t->over = true; }
    struct att *a = &t->att[t->natt++];
    memset(a, 0, offsetof(struct att, acc));
    a->th = t->id;
    a->tstart = atomic_load(&vf_ticket_ctr);
    memset(t->own, 0, sizeof(uint32_t) * nvar);
    return a;
}

static void rd(struct th *t, struct att *a, int v)
{
    unsigned char b[256];
    uint32_t n = var[v].len; unsigned char *p = arena + var[v].off;
    switch (rndn(&t->r, var[v].str ? 7 : 5)) {
    case 0: case 1: load_tx(p, b, n); break;
    case 2: {
        uint32_t k = rndn(&t->r, n);
        load_tx(p, b, k);
        vf_delay(&t->r, delaypct);
        load_tx(p + k, b + k, n - k);
        break; }
    case 3:
        privatize_tx(p, n, PICOTM_TM_PRIVATIZE_LOAD);
        memcpy(b, p, n);
        break;
    case 4:
        privatize_tx(p, n, PICOTM_TM_PRIVATIZE_LOADSTORE);
        memcpy(b, p, n);
        break;
    default:
        privatize_c_tx(p, 0, rndp(&t->r, 70) ? PICOTM_TM_PRIVATIZE_LOAD : PICOTM_TM_PRIVATIZE_LOADSTORE);
        if (rndp(&t->r, 50)) vf_delay(&t->r, delaypct);
        for (uint32_t i = 0; i < n; ++i) {
            b[i] = p[i];
            if (!b[i] && i + 1 < n) { b[n - 1] = 1; break; }     /* torn */
        }
        vf_count("strings-privatized", 1);
        break;
    }
    bool torn;
    uint32_t ver = check_pattern(v, b, &torn);
    if (torn) {
        vf_viol("torn-read", "thread %d read a torn value of variable %d (%u bytes at +%u): version word %x",
                t->id, v, n, var[v].off, ver);
        return;
    }
    if (t->own[v]) {
        if (ver != t->own[v])
            vf_viol("own-write-lost", "thread %d wrote version %x to variable %d but then read %x in the same transaction",
                    t->id, t->own[v], v, ver);
        return;
    }
    a->acc[a->nacc++] = (struct acc){ ver, v, false };
}
static void wr(struct th *t, struct att *a, int v)
{
    unsigned char b[256];
    uint32_t n = var[v].len; unsigned char *p = arena + var[v].off;
    uint32_t ver = ((uint32_t)(t->id + 1) << 24) | ++t->nver;
    pattern(v, ver, b);
    switch (rndn(&t->r, var[v].str ? 6 : 5)) {
    case 0: case 1: store_tx(p, b, n); break;
    case 2: {
        uint32_t k = rndn(&t->r, n);
        store_tx(p, b, k);
        vf_delay(&t->r, delaypct);
        store_tx(p + k, b + k, n - k);
        break; }
    case 3:
        privatize_tx(p, n, PICOTM_TM_PRIVATIZE_LOADSTORE);
        memcpy(p, b, n / 2);
        vf_delay(&t->r, delaypct);
        memcpy(p + n / 2, b + n / 2, n - n / 2);
        break;
    case 4:
        privatize_tx(p, n, PICOTM_TM_PRIVATIZE_STORE);
        memcpy(p, b, n);
        break;
    case 5:
        privatize_c_tx(p, 0, PICOTM_TM_PRIVATIZE_LOADSTORE);
        memcpy(p, b, n);
        break;
    }
    t->own[v] = ver;
    a->acc[a->nacc++] = (struct acc){ ver, v, true };
}
static void becomes_irrev(struct th *t, struct att *a)
{
    if (a->irrev) return;
    a->irrev = true;
}

static void body(struct th *t)
{
    struct att *a = new_att(t);
    if (t->wantirrev && rndp(&t->r, 70)) picotm_irrevocable();
    int n = 1 + rndn(&t->r, txlen);
    for (int i = 0; i < n && a->nacc < MAXACC - 2; ++i) {
        int v = rndn(&t->r, nvar);
        switch (rndn(&t->r, 10)) {
        case 0: case 1: case 2: case 3: rd(t, a, v); break;
        case 4: case 5: wr(t, a, v); break;
        default: rd(t, a, v); vf_delay(&t->r, delaypct); wr(t, a, v); break;
        }
        if (rndp(&t->r, 30)) rd(t, a, rndn(&t->r, nvar));
        vf_delay(&t->r, delaypct);
        if (t->wantirrev && rndp(&t->r, 20)) picotm_irrevocable();
        if (!picotm_is_irrevocable()) {
            if (rndp(&t->r, 1)) vf_conflict();
            if (rndp(&t->r, 1)) picotm_recover_from_error_code(PICOTM_GENERAL_ERROR);
        }
    }
    a->irrev = picotm_is_irrevocable();
    if (t->over) vf_viol("runaway", "more than %d executions for %d transactions", MAXATT, ntxs);
}

static void *run(void *arg)
{
    struct th *t = arg;
    vf_txmon_register(&t->mon);
    pthread_barrier_wait(&bar);
    for (t->ntx = 0; t->ntx < ntxs; ++t->ntx) {
        t->wantirrev = rndp(&t->r, 3);
        uint32_t before = t->natt;
        picotm_begin
            body(t);
        picotm_commit
            t->att[t->natt - 1].errout = true;
            if (picotm_error_status() != PICOTM_ERROR_CODE ||
                picotm_error_as_error_code() != PICOTM_GENERAL_ERROR)
                vf_viol("wrong-error", "recovery reports status %d", picotm_error_status());
            if (rndp(&t->r, 50)) picotm_restart();
        picotm_end
        struct att *a = &t->att[t->natt - 1];
        if (!a->errout) {
            a->ticket = t->mon.ticket;
            if (!a->ticket) vf_viol("no-commit", "transaction returned normally without having been applied");
        } else if (t->mon.ticket) {
            vf_viol("commit-after-error", "transaction left through recovery but was applied");
        }
        if (t->natt - before > t->maxrestarts) t->maxrestarts = t->natt - before;
        vf_tick();
        vf_delay(&t->r, delaypct / 2);
    }
    picotm_release();
    return NULL;
}

/* ---- off-line check ---- */
struct ver { uint64_t from, to; };
static int cmp_att(const void *x, const void *y)
{
    const struct att *a = *(struct att*const*)x, *b = *(struct att*const*)y;
    return a->ticket < b->ticket ? -1 : a->ticket > b->ticket;
}
static void verify(uint64_t ci)
{
    static struct att *list[MAXTH * MAXATT];
    static struct ver *vers[MAXTH + 1];
    size_t n = 0;
    for (int i = 0; i <= nth; ++i) {
        uint32_t m = (i ? ths[i - 1].nver : (uint32_t)nvar) + 2;
        vers[i] = calloc(m, sizeof(struct ver));
    }
    for (int i = 0; i < nth; ++i)
        for (uint32_t k = 0; k < ths[i].natt; ++k)
            if (ths[i].att[k].ticket) list[n++] = &ths[i].att[k];
    qsort(list, n, sizeof(*list), cmp_att);
    uint32_t state[MAXVAR];
    uint64_t h = 14695981039346656037ull;
    for (int v = 0; v < nvar; ++v) { state[v] = v + 1; vers[0][v + 1] = (struct ver){ 1, UINT64_MAX }; }
    for (size_t i = 0; i < n; ++i) {
        struct att *a = list[i];
        h = vf_hash(h, &a->th, 2);
        for (uint32_t k = 0; k < a->nacc; ++k) {
            struct acc *c = &a->acc[k];
            if (!c->write && state[c->var] != c->ver)
                vf_viol("not-serializable", "thread %d's transaction (commit %" PRIu64 ", %s) read version %x of variable %d, "
                        "but the committed value at its place in the commit order is %x",
                        a->th, a->ticket, a->irrev ? "irrevocable" : "revocable", c->ver, c->var, state[c->var]);
        }
        for (uint32_t k = 0; k < a->nacc; ++k) {
            struct acc *c = &a->acc[k];
            if (!c->write) continue;
            uint32_t o = state[c->var];
            if (o == c->ver) continue;
            vers[o >> 24][o & 0xffffff].to = a->ticket;
            state[c->var] = c->ver;
        }
        for (uint32_t k = 0; k < a->nacc; ++k) {
            struct acc *c = &a->acc[k];
            if (c->write && state[c->var] == c->ver)
                vers[c->ver >> 24][c->ver & 0xffffff] = (struct ver){ a->ticket + 1, UINT64_MAX };
        }
        vf_count("committed", 1);
        if (a->irrev) vf_count("irrevocable", 1);
    }
    /* aborted executions: the values read must have been committed and valid at one moment */
    for (int i = 0; i < nth; ++i)
        for (uint32_t k = 0; k < ths[i].natt; ++k) {
            struct att *a = &ths[i].att[k];
            if (a->ticket) continue;
            uint64_t lo = 1, hi = UINT64_MAX; int nr = 0;
            for (uint32_t q = 0; q < a->nacc; ++q) {
                struct acc *c = &a->acc[q];
                if (c->write) continue;
                uint32_t w = c->ver >> 24;
                struct ver z = { 0, 0 };
                if (w <= (uint32_t)nth && (c->ver & 0xffffff) <= (w ? ths[w - 1].nver : (uint32_t)nvar))
                    z = vers[w][c->ver & 0xffffff];
                if (!z.to) {
                    vf_viol("dirty-read", "an execution of thread %d read version %x of variable %d, which was never committed",
                            i, c->ver, c->var);
                    continue;
                }
                if (z.from > lo) lo = z.from;
                if (z.to < hi) hi = z.to;
                ++nr;
            }
            if (lo > hi)
                vf_viol("inconsistent-view", "an aborted execution of thread %d read %d values that never existed together", i, nr);
            vf_count("aborted-executions", 1);
            if (nr > 1) vf_count("aborted-multi-reads", 1);
        }
    /* memory itself */
    unsigned char *e = malloc(arenasz);
    memset(e, 0xa5, arenasz);
    for (int v = 0; v < nvar; ++v) pattern(v, state[v], e + var[v].off);
    if (memcmp(e, arena, arenasz)) {
        size_t o = 0; while (e[o] == arena[o]) ++o;
        vf_viol("final-memory", "after all transactions, byte +%zu is %02x instead of %02x", o, arena[o], e[o]);
    }
    free(e);
    for (int i = 0; i <= nth; ++i) free(vers[i]);
    uint32_t mx = 0, na = 0;
    for (int i = 0; i < nth; ++i) { if (ths[i].maxrestarts > mx) mx = ths[i].maxrestarts; na += ths[i].natt; }
    if (na > n) vf_distinct(h ^ ci);
    vf_sample("case %" PRIu64 ": %d threads, %d variables, %zu commits, %u executions, at most %u executions of one transaction",
              ci, nth, nvar, n, na, mx);
    vf_count("executions", na);
}

int main(int argc, char **argv)
{
    vf_init(argc, argv);
    for (uint64_t ci = vf_from; ci < vf_from + vf_cases && vf_more(); ++ci) {
        vf_case(ci);
        struct rng r = vf_rng(vf_seed, 1, ci);
        nth = 2 + rndn(&r, vf_threads - 1);
        nvar = 2 + rndn(&r, rndp(&r, 50) ? 6 : MAXVAR - 2);
        txlen = 1 + rndn(&r, 6);
        delaypct = rndn(&r, 40);
        ntxs = 20 + rndn(&r, 60);
        /* layout */
        size_t off = rndn(&r, 64); unsigned gap = rndn(&r, 3); bool page = rndp(&r, 20);
        for (int v = 0; v < nvar; ++v) {
            var[v].len = rndp(&r, 60) ? 4 + rndn(&r, 9) : 4 + rndn(&r, 60);
            var[v].str = var[v].len >= 8 && rndp(&r, 60);
            var[v].off = off;
            off += var[v].len + (gap == 0 ? 0 : gap == 1 ? rndn(&r, 4) : rndn(&r, 64));
            if (page && rndp(&r, 30)) off += 4096;
        }
        arenasz = off + 64;
        arena = malloc(arenasz);
        memset(arena, 0xa5, arenasz);
        for (int v = 0; v < nvar; ++v) pattern(v, v + 1, arena + var[v].off);
        atomic_store(&vf_ticket_ctr, 0);
        pthread_barrier_init(&bar, NULL, nth);
        for (int i = 0; i < nth; ++i) {
            struct th *t = &ths[i];
            struct att *keep = t->att;
            memset(t, 0, sizeof(*t));
            t->att = keep ? keep : malloc(sizeof(struct att) * MAXATT);
            t->id = i;
            t->r = vf_rng(vf_seed, ci, i + 100);
        }
        for (int i = 0; i < nth; ++i) if (pthread_create(&ths[i].t, NULL, run, &ths[i])) exit(2);
        for (int i = 0; i < nth; ++i) pthread_join(ths[i].t, NULL);
        verify(ci);
        pthread_barrier_destroy(&bar);
        free(arena);
    }
    for (int i = 0; i < MAXTH; ++i) free(ths[i].att);
    vf_finish(0);
}
