/* C19: concurrent transactions on shared files.  Every execution is recorded;
 * the committed ones are replayed in commit-ticket order on byte-array models
 * and every read, size, offset and the final files are compared.  Executions
 * that aborted must have read a state that existed during their run. */
#include "vf_tx.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include "picotm/sys/stat.h"
#include "picotm/sys/stat-tm.h"
#include "picotm/picotm-libc.h"
#include "picotm/picotm-tm.h"

#define MAXTH 8
#define NF 4
#define MAXOP 14
#define MAXATT 4000
#define FMAX 40000
#define DATASZ (1 << 20)

enum { OP_READ, OP_WRITE, OP_SIZE, OP_SEEKSET, OP_APPEND, OP_OPEN };
struct op { uint8_t k, file; bool rel; int32_t res; uint32_t off, len, data; };
struct att { uint64_t ticket, t0, t1; uint16_t th; uint16_t nop; bool done; struct op op[MAXOP]; };
struct th {
    pthread_t t; int id; struct rng r; struct vf_txmon mon;
    struct att *att; uint32_t natt; unsigned char *data; uint32_t ndata; bool over;
    volatile int ntx; volatile uint32_t stamp; unsigned char buf[400] __attribute__((aligned(64))), wbuf[448] __attribute__((aligned(64)));
};
static struct th ths[MAXTH];
static int nth, nf, fmode, ntxs, delaypct;
static char root[160], path[NF][200];
static int sfd[NF];
static size_t isz[NF];
static unsigned char *init_img[NF], *img[NF];
static size_t sz[NF]; static size_t foff[NF];
static pthread_barrier_t bar;

static struct att *new_att(struct th *t)
{
    if (t->natt + 1 >= MAXATT || t->ndata > DATASZ - 20000) { t->over = true; if (t->natt + 1 >= MAXATT) t->natt--; if (t->ndata > DATASZ - 20000) t->ndata = DATASZ - 20000; }
    struct att *a = &t->att[t->natt++];
    memset(a, 0, sizeof(*a));
    a->th = t->id; a->t0 = atomic_load(&vf_ticket_ctr);
    return a;
}
static struct op *new_op(struct th *t, struct att *a, int k, int file, uint32_t off, uint32_t len)
{
    struct op *o = &a->op[a->nop];
    *o = (struct op){ .k = k, .file = file, .off = off, .len = len, .data = t->ndata };
    return o;
}
static void op_done(struct th *t, struct att *a, struct op *o, ssize_t res)
{
    o->res = res; t->ndata += o->len; a->nop++;
    a->t1 = atomic_load(&vf_ticket_ctr);
    vf_tick();
    vf_delay(&t->r, delaypct);
}
static uint32_t hot(struct th *t, int f)
{
    struct rng *r = &t->r;
    switch (rndn(r, 6)) {
    case 0: return 16384 - 48 + rndn(r, 96);
    case 1: return isz[f] > 40 ? isz[f] - 40 + rndn(r, 60) : rndn(r, 60);
    default: return rndn(r, 140);
    }
}
static uint32_t rlen(struct th *t) { return rndp(&t->r, 60) ? 1 + rndn(&t->r, 12) : rndp(&t->r, 80) ? 1 + rndn(&t->r, 70) : 1 + rndn(&t->r, 300); }
static void stampdata(struct th *t, unsigned char *b, uint32_t n)
{
    uint64_t x = vf_mix(((uint64_t)t->id << 32) | ++t->stamp);
    for (uint32_t i = 0; i < n; ++i) { if (i % 8 == 0) x = vf_mix(x); b[i] = x >> (8 * (i % 8)); }
}
static void body(struct th *t)
{
    struct att *a = new_att(t);
    if (t->over) return;
    if (rndp(&t->r, 2)) picotm_irrevocable();
    int fd[NF], used = 0;
    for (int i = 0; i < NF; ++i) fd[i] = -1;
    int n = 1 + rndn(&t->r, MAXOP - 4), at = rndp(&t->r, 12) ? (int)rndn(&t->r, n) : -1;
    bool shared = fmode == 0 || fmode == 2;
    bool append = fmode == 3;
    int mainf = rndn(&t->r, nf);
    for (int i = 0; i < n && a->nop < MAXOP - 2; ++i) {
        if (i == at && !picotm_is_irrevocable()) vf_conflict();
        int f = rndp(&t->r, 70) ? mainf : rndn(&t->r, nf);
        if (shared) fd[f] = sfd[f];
        else if (fd[f] < 0) {
            int fl = O_RDWR | (append && rndp(&t->r, 60) ? O_APPEND : 0);
            struct op *o = new_op(t, a, OP_OPEN, f, fl & O_APPEND ? 1 : 0, 0);
            fd[f] = rndp(&t->r, 50) ? open_tx(path[f], fl) : open_tm(path[f], fl);
            op_done(t, a, o, fd[f]);
            used |= 1 << f;
        }
        uint32_t off = hot(t, f), len = rlen(t);
        unsigned char *b = t->data + t->ndata;
        bool positional = fmode == 0 || rndp(&t->r, fmode == 2 ? 30 : 40);
        struct op *o; ssize_t r;
        switch (rndn(&t->r, 10)) {
        case 0: case 1: case 2: case 3: {
            o = new_op(t, a, OP_READ, f, off, len); o->rel = !positional;
            memset(b, 0xa5, len); bool tx = rndp(&t->r, 50);
            r = positional ? (tx ? pread_tx(fd[f], t->buf, len, off) : pread_tm(fd[f], b, len, off))
                           : (tx ? read_tx(fd[f], t->buf, len) : read_tm(fd[f], b, len));
            if (tx) memcpy(b, t->buf, len);    /* privatized; an abort restores it */
            op_done(t, a, o, r);
            break; }
        case 4: case 5: case 6: case 7: {
            if (append && positional) positional = false;
            o = new_op(t, a, OP_WRITE, f, off, len); o->rel = !positional;
            stampdata(t, b, len); store_tx(t->wbuf, b, len);
            r = positional ? (rndp(&t->r, 50) ? pwrite_tm(fd[f], b, len, off) : pwrite_tx(fd[f], t->wbuf, len, off))
                           : (rndp(&t->r, 50) ? write_tm(fd[f], b, len) : write_tx(fd[f], t->wbuf, len));
            op_done(t, a, o, r);
            break; }
        case 8: {
            if (fmode == 0) break;
            o = new_op(t, a, OP_SEEKSET, f, off, 0);
            r = lseek_tx(fd[f], off, SEEK_SET);
            op_done(t, a, o, r);
            break; }
        case 9: {
            struct stat st;
            o = new_op(t, a, OP_SIZE, f, 0, 0);
            if (fstat_tm(fd[f], &st)) break;
            op_done(t, a, o, st.st_size);
            break; }
        }
    }
    for (int f = 0; f < nf; ++f) if (used & 1 << f) close_tx(fd[f]);
    a->done = true;
}
static void *thread(void *arg)
{
    struct th *t = arg;
    vf_storm_here();
    pthread_barrier_wait(&bar);
    for (t->ntx = 0; t->ntx < ntxs && !t->over; t->ntx++) {
        vf_txmon_register(&t->mon);
        volatile bool failed = false;
        picotm_begin
            body(t);
        picotm_commit
            failed = true;
            vf_viol("error", "a file transaction failed with status %d, errno %d", picotm_error_status(),
                    picotm_error_status() == PICOTM_ERRNO ? (int)picotm_error_as_errno() : 0);
        picotm_end
        if (failed) break;
        t->att[t->natt - 1].ticket = t->mon.ticket;
        vf_tick();
    }
    pthread_barrier_wait(&bar);
    picotm_release();
    return NULL;
}
/* ---- replay ---- */
struct view { unsigned char *img[NF]; size_t sz[NF], off[NF]; bool app[NF]; };
static unsigned char *undo_b; static struct undo { int f; size_t off, len, pos; size_t osz; } undo[MAXOP]; static int nundo; static size_t undo_n;
/* returns the index of the first operation that does not fit, or -1 */
static int replay(const struct att *a, char *why, size_t n)
{
    size_t off[NF]; bool app[NF] = { 0 };
    nundo = 0; undo_n = 0;
    for (int f = 0; f < NF; ++f) off[f] = fmode == 2 ? foff[f] : 0;
    int bad = -1;
    for (int i = 0; i < a->nop && bad < 0; ++i) {
        const struct op *o = &a->op[i]; int f = o->file;
        const unsigned char *d = ths[a->th].data + o->data;
        switch (o->k) {
        case OP_OPEN: off[f] = 0; app[f] = o->off; if (o->res < 0) { bad = i; snprintf(why, n, "open failed"); } break;
        case OP_SEEKSET: off[f] = o->off; if (o->res != (int)o->off) { bad = i; snprintf(why, n, "lseek(%u) returned %d", o->off, o->res); } break;
        case OP_SIZE: if (o->res != (int)sz[f]) { bad = i; snprintf(why, n, "fstat of file %d reported size %d instead of %zu", f, o->res, sz[f]); } break;
        case OP_READ: {
            size_t p = o->rel ? off[f] : o->off, e = p >= sz[f] ? 0 : sz[f] - p < o->len ? sz[f] - p : o->len;
            if (o->res != (int)e) { bad = i; snprintf(why, n, "read of %u bytes at %zu of file %d returned %d instead of %zu", o->len, p, f, o->res, e); }
            else if (memcmp(d, img[f] + p, e)) { size_t j = 0; while (d[j] == img[f][p + j]) ++j;
                bad = i; snprintf(why, n, "read of %u bytes at %zu of file %d: byte %zu is %02x instead of %02x", o->len, p, f, j, d[j], img[f][p + j]); }
            if (o->rel) off[f] += e;
            break; }
        case OP_WRITE: {
            if (o->res != (int)o->len) { bad = i; snprintf(why, n, "write of %u bytes returned %d", o->len, o->res); break; }
            if (o->rel && app[f]) off[f] = sz[f];
            size_t p = o->rel ? off[f] : o->off;
            if (p + o->len > FMAX) { bad = -2; break; }
            struct undo *u = &undo[nundo++]; *u = (struct undo){ f, p, o->len, undo_n, sz[f] };
            memcpy(undo_b + undo_n, img[f] + p, o->len); undo_n += o->len;
            memcpy(img[f] + p, d, o->len);
            if (p + o->len > sz[f]) sz[f] = p + o->len;
            if (o->rel) off[f] += o->len;
            break; }
        }
    }
    if (bad == -1 && a->done && a->ticket && fmode == 2) memcpy(foff, off, sizeof(foff));
    return bad;
}
static void replay_undo(void)
{
    while (nundo) { struct undo *u = &undo[--nundo]; memcpy(img[u->f] + u->off, undo_b + u->pos, u->len); sz[u->f] = u->osz; }
}
static int by_ticket(const void *x, const void *y)
{
    const struct att *a = *(struct att *const *)x, *b = *(struct att *const *)y;
    return a->ticket < b->ticket ? -1 : a->ticket > b->ticket;
}
static int ab_cmp(const void *x, const void *y)
{
    const struct att *a = *(struct att *const *)x, *b = *(struct att *const *)y;
    return a->t0 < b->t0 ? -1 : a->t0 > b->t0;
}
static void one_case(uint64_t ci)
{
    struct rng R = vf_rng(vf_seed, ci, 19);
    nth = 2 + rndn(&R, vf_threads - 1);
    nf = 1 + rndn(&R, 3);
    fmode = rndn(&R, 4);
    ntxs = 4 + rndn(&R, 36);
    delaypct = rndn(&R, 4) * 10;
    uint64_t H = vf_hash(1, &fmode, sizeof(fmode));
    for (int f = 0; f < nf; ++f) {
        snprintf(path[f], sizeof(path[f]), "%s/f%d", root, f);
        isz[f] = rndp(&R, 30) ? 16384 + rndn(&R, 200) : rndn(&R, 400);
        memset(init_img[f], 0, FMAX); memset(img[f], 0, FMAX);
        for (size_t i = 0; i < isz[f]; ++i) img[f][i] = rnd(&R);
        sz[f] = isz[f]; foff[f] = 0;
        unlink(path[f]);
        sfd[f] = open(path[f], O_RDWR | O_CREAT, 0600);
        if (sfd[f] < 0 || pwrite(sfd[f], img[f], sz[f], 0) != (ssize_t)sz[f]) { perror(path[f]); exit(2); }
        lseek(sfd[f], 0, SEEK_SET);
        if (fmode == 1 || fmode == 3) { close(sfd[f]); sfd[f] = -1; }
    }
    atomic_store(&vf_ticket_ctr, 0);
    pthread_barrier_init(&bar, NULL, nth);
    vf_storm_begin(rndp(&R, 40) ? 1 + rndn(&R, 500) : 0, rnd(&R));
    for (int i = 0; i < nth; ++i) {
        struct th *t = &ths[i];
        t->id = i; t->r = vf_rng(vf_seed, ci, 1900 + i); t->natt = t->ndata = 0; t->over = false;
        memset(&t->mon, 0, sizeof(t->mon));
        if (pthread_create(&t->t, NULL, thread, t)) { perror("pthread_create"); exit(2); }
    }
    for (int i = 0; i < nth; ++i) pthread_join(ths[i].t, NULL);
    vf_storm_end();
    pthread_barrier_destroy(&bar);
    /* collect */
    static struct att *com[MAXTH * MAXATT], *ab[MAXTH * MAXATT];
    size_t nc = 0, na = 0; bool over = false;
    for (int i = 0; i < nth; ++i) {
        over |= ths[i].over;
        for (uint32_t j = 0; j < ths[i].natt; ++j) { struct att *a = &ths[i].att[j]; if (a->ticket) com[nc++] = a; else if (a->nop) ab[na++] = a; }
    }
    qsort(com, nc, sizeof(*com), by_ticket);
    qsort(ab, na, sizeof(*ab), ab_cmp);
    char why[300] = "";
    bool bad = over || !vf_more();
    static const char *mn[] = { "shared descriptors, positional", "own descriptors", "shared descriptors", "own descriptors, appending" };
    size_t apos = 0; static unsigned char adone[MAXTH * MAXATT]; memset(adone, 0, na);
    for (size_t k = 0; !bad && k <= nc; ++k) {
        /* aborted executions that ran while k transactions had committed */
        while (apos < na && (adone[apos] || ab[apos]->t1 < k)) { 
            if (!adone[apos]) { vf_viol("inconsistent-view", "an aborted execution saw files in a state that never existed (%s): %s", mn[fmode], why); bad = true; break; }
            ++apos; }
        if (bad) break;
        for (size_t j = apos; j < na && ab[j]->t0 <= k; ++j) {
            if (adone[j]) continue;
            char w[300];
            int r = replay(ab[j], w, sizeof(w));
            replay_undo();
            if (r == -1 || r == -2) { adone[j] = 1; vf_count("aborted-checked", 1); }
            else if (ab[j]->t1 <= k) {
                vf_viol("inconsistent-view", "an aborted execution of thread %d saw files in a state that never existed (%s; op %d): %s", ab[j]->th, mn[fmode], r, w);
                bad = true; break; }
        }
        if (k == nc || bad) break;
        int r = replay(com[k], why, sizeof(why));
        if (r >= 0) { vf_viol("serializability", "committed transaction %zu of thread %d, operation %d (%s): %s", k, com[k]->th, r, mn[fmode], why); bad = true; }
        H = vf_hash(H, &com[k]->th, sizeof(com[k]->th));
        vf_count("replayed", 1); vf_count("operations", com[k]->nop);
    }
    if (!bad) {
        for (int f = 0; f < nf; ++f) {
            int fd = open(path[f], O_RDONLY); struct stat st;
            if (fd < 0 || fstat(fd, &st)) { perror(path[f]); exit(2); }
            static unsigned char b[FMAX + 1];
            ssize_t n = pread(fd, b, FMAX, 0);
            close(fd);
            if (st.st_size != (off_t)sz[f]) vf_viol("final-size", "file %d has %lld bytes, expected %zu (%s)", f, (long long)st.st_size, sz[f], mn[fmode]);
            else if (n != (ssize_t)sz[f] || memcmp(b, img[f], sz[f])) { size_t j = 0; while (b[j] == img[f][j]) ++j;
                vf_viol("final-content", "byte %zu of file %d is %02x, expected %02x (%s)", j, f, b[j], img[f][j], mn[fmode]); }
            if (fmode == 2 && lseek(sfd[f], 0, SEEK_CUR) != (off_t)foff[f]) vf_viol("final-offset", "offset of file %d is %lld, expected %zu", f, (long long)lseek(sfd[f], 0, SEEK_CUR), foff[f]);
            vf_count("files-compared", 1);
        }
        /* nothing may be locked any more */
        volatile int ex = 0;
        static unsigned char b[FMAX];
        picotm_begin
            ++ex;
            for (int f = 0; f < nf; ++f) {
                int fd = sfd[f] >= 0 ? sfd[f] : open_tm(path[f], O_RDWR);
                lseek_tx(fd, 0, SEEK_SET);
                write_tm(fd, img[f], sz[f]);
                pread_tm(fd, b, sz[f] + 100, 0);
                if (sfd[f] < 0) close_tx(fd);
            }
        picotm_commit
            vf_viol("error", "a transaction after the run failed with status %d", picotm_error_status());
        picotm_end
        if (ex != 1) vf_viol("lock-leak", "files were still locked after all transactions had ended (%s)", mn[fmode]);
        vf_count("lock-checks", 1);
        if (na) vf_distinct(H);
        vf_count("aborted", na);
    }
    if (over) vf_count("skipped-log-full", 1);
    for (int f = 0; f < nf; ++f) if (sfd[f] >= 0) close(sfd[f]);
}
int main(int argc, char **argv)
{
    vf_init(argc, argv);
    if (vf_threads > MAXTH) vf_threads = MAXTH;
    if (vf_threads < 2) vf_threads = 2;
    snprintf(root, sizeof(root), "%s/vf%ld-%d", vf_dir, (long)vf_arg, (int)getpid());
    if (mkdir(root, 0700)) { perror(root); return 2; }
    for (int i = 0; i < MAXTH; ++i) { ths[i].att = malloc(MAXATT * sizeof(struct att)); ths[i].data = malloc(DATASZ); }
    for (int f = 0; f < NF; ++f) { init_img[f] = malloc(FMAX); img[f] = malloc(FMAX); }
    undo_b = malloc(MAXOP * 400);
    for (uint64_t i = vf_from; i < vf_from + vf_cases && vf_more(); ++i) { vf_case(i); one_case(i); }
    for (int f = 0; f < NF; ++f) { if (path[f][0]) unlink(path[f]); free(init_img[f]); free(img[f]); }
    for (int i = 0; i < MAXTH; ++i) { free(ths[i].att); free(ths[i].data); }
    free(undo_b);
    rmdir(root);
    picotm_release();
    vf_finish(atomic_load(&vf_nviol) ? 1 : 0);
}
