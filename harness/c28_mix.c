/* C28/C29: random concurrent programs over all modules at once.
 * Several short-lived threads run transactions of random operations on shared
 * memory, containers, blocks, descriptors, directory, locale objects, pointer
 * data and user events, with conflicts, errors, irrevocability, give-ups and
 * releases in between. The oracle is the sanitizer the program is built with
 * (and the library's assertions); the harness itself has no race, leak or
 * undefined behaviour. A few conservation laws are checked on the way. */
#include "vf_tx.h"
#include <fcntl.h>
#include <limits.h>
#include <locale.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-txlib.h"
#include "picotm/picotm-txlist.h"
#include "picotm/picotm-txqueue.h"
#include "picotm/picotm-txstack.h"
#include "picotm/picotm-txmultiset.h"
#include "picotm/picotm-arithmetic-ctypes.h"
#include "picotm/picotm-cast-ctypes.h"
#include "picotm/stdio.h"
#include "picotm/stdio-tm.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include "picotm/string.h"
#include "picotm/string-tm.h"
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include "picotm/sys/stat.h"
#include "picotm/sys/stat-tm.h"
#include "picotm/sys/socket.h"
#include "picotm/sys/socket-tm.h"
#include "picotm/locale.h"
#include "picotm/locale-tm.h"
#include "picotm/math.h"
#include "picotm/math-tm.h"
#include "picotm/picotm-libc.h"
#include "picotm/picotm-libm.h"
#include "picotm/picotm-ptrdata.h"

#define MAXT 32
static char base[PATH_MAX];
#define NLONG 4096
static long tm[NLONG];
#define NITEM 160
struct item { int id; long key; union { struct txlist_entry l; struct txqueue_entry q; struct txstack_entry s; struct txmultiset_entry m; } e; };
static struct item it[MAXT][4][NITEM];
#define ITEM(p, f) ((struct item*)((char*)(p) - offsetof(struct item, e.f)))
static struct txlist_state LS, LS0 = TXLIST_STATE_INITIALIZER(LS0);
static struct txqueue_state QS, QS0 = TXQUEUE_STATE_INITIALIZER(QS0);
static struct txstack_state SS, SS0 = TXSTACK_STATE_INITIALIZER(SS0);
static struct txmultiset_state MS;
static const void *key_cb(struct txmultiset_entry *e) { return &ITEM(e, m)->key; }
static int cmp_cb(const void *a, const void *b) { long x = *(const long*)a, y = *(const long*)b; return x < y ? -1 : x > y; }
#define NSLOT 16
static void *slot[NSLOT]; static long slotlen[NSLOT];
#define NF 4
static int ffd[NF], pfd[2], sfd[2], dfd;
static locale_t lobj[3];
static int dirset;                /* the only threads that use relative paths */
static _Atomic long pushed[4], popped[4];

struct step { int op; unsigned a, b, c; };
struct thr { int id; struct rng R; int ntx; int npush[4]; struct step prog[12]; int nprog; bool alt; unsigned h;
    unsigned long mod; bool reg; long logged, applied, undone; long dpush[4], dpop[4]; int fd; bool holds; };
enum { LOAD, STORE, RMW, PRIV, DISCARD, MEMCPY, MEMMOVE, STRCPY, SNPRINTF, SSCANF, QSORT, LPUSH, LPOP, LWALK, QPUSH, QPOP, SPUSH, SPOP, MINS, MDEL, MFIND, MALLOC, REALLOC, FREE, STRDUP,
       PWRITE, PREAD, WRITE, READ, LSEEK, FSTAT, FSYNC, FCHMOD, FCNTL, OPEN, DUP, PIPE, PIPEW, PIPER, SOCKW, SEND, STAT, CHDIR, FCHDIR, GETCWD, MKSTEMP, SETLOC, LOCALECONV, NEWLOC, DUPLOC, USELOC, SQRT, LGAMMA, FENV, ERRNO, PTRDATA, SHDATA, ARITH, CAST, EVENT, IRREV, RAND, NOPS };
static void cb_apply_event(uint16_t h, uintptr_t t, void *d, struct picotm_error *e) { ((struct thr*)d)->applied++; }
static void cb_undo_event(uint16_t h, uintptr_t t, void *d, struct picotm_error *e) { ((struct thr*)d)->undone++; }
static void cb_release(void *d) { ((struct thr*)d)->reg = false; }
static int cmp_long(const void *a, const void *b) { return cmp_cb(a, b); }
static __thread int wdone;     /* descriptors with partly read streams are never used twice in a transaction */

static void body(struct thr *t)
{
    char buf[600]; void *mine[4]; int nmine = 0; unsigned usedf = 0; locale_t made = (locale_t)0; int depth = 0;
    memset(t->dpush, 0, sizeof(t->dpush)); memset(t->dpop, 0, sizeof(t->dpop));
    int np[4]; memcpy(np, t->npush, sizeof(np));
    for (int i = 0; i < t->nprog; ++i) {
        struct step s = t->prog[i];
        switch (s.op) {
        case LOAD: for (unsigned k = 0; k <= s.b % 8; ++k) { volatile long v = load_long_tx(&tm[(s.a + k * 911) % NLONG]); (void)v; } break;
        case STORE: for (unsigned k = 0; k <= s.b % 8; ++k) store_long_tx(&tm[(s.a % 64 + k * (s.c & 1 ? 1 : 511)) % NLONG], (long)s.c + k); break;
        case RMW: for (unsigned k = 0; k <= s.b % 4; ++k) { long *p = &tm[(s.a % 16 + k * 600) % NLONG]; store_long_tx(p, (long)((unsigned long)load_long_tx(p) + 1)); } break;
        case PRIV: { unsigned o = s.a % (NLONG - 64), n = 1 + s.b % 64; privatize_tx(&tm[o], n * sizeof(long), PICOTM_TM_PRIVATIZE_LOADSTORE); for (unsigned k = 0; k < n; ++k) tm[o + k] ^= s.c; break; }
        case DISCARD: { unsigned o = 2048 + s.a % 1024; privatize_tx(&tm[o], 8 * (1 + s.b % 16), PICOTM_TM_PRIVATIZE_STORE); for (unsigned k = 0; k < 1 + s.b % 16; ++k) tm[o + k] = s.c; break; }
        case MEMCPY: memcpy_tx(&tm[s.a % 1024], &tm[2048 + s.b % 1024], 1 + s.c % 500); break;
        case MEMMOVE: memmove_tx((char*)&tm[s.a % 3000] + s.b % 7, (char*)&tm[s.a % 3000] + s.b % 200, 1 + s.c % 300); break;
        case STRCPY: { char *d = (char*)&tm[s.a % 3000]; strcpy_tx(d, "some text which is copied"); strcat_tx(d, " and more"); if (strlen_tx(d) > 60) abort(); break; }
        case SNPRINTF: { char *d = (char*)&tm[s.a % 3000]; snprintf_tx(d, 40, "%d and %u", (int)s.b, s.c); break; }
        case SSCANF: { char b[] = "12 34"; int x = 0, y = 0; sscanf_tm(b, "%d %d", &x, &y); if (x != 12) vf_viol("mix-sscanf", "wrong result %d", x); break; }
        case QSORT: { qsort_tx(&tm[s.a % 3000], 1 + s.b % 20, sizeof(long), cmp_long); break; }
        case LPUSH: if (np[0] < NITEM) { struct txlist *l = txlist_of_state_tx(&LS); if (s.a & 1) txlist_push_back_tx(l, &it[t->id][0][np[0]].e.l); else txlist_push_front_tx(l, &it[t->id][0][np[0]].e.l); ++np[0]; t->dpush[0]++; } break;
        case LPOP: { struct txlist *l = txlist_of_state_tx(&LS); if (!txlist_empty_tx(l)) { if (s.b % 3 == 0) txlist_erase_tx(l, s.a & 1 ? txlist_front_tx(l) : txlist_back_tx(l)); else if (s.a & 1) txlist_pop_back_tx(l); else txlist_pop_front_tx(l); t->dpop[0]++; } break; }
        case LWALK: { struct txlist *l = txlist_of_state_tx(&LS); size_t n = 0; for (struct txlist_entry *e = txlist_begin_tx(l), *end = txlist_end_tx(l); e != end; e = txlist_entry_next_tx(e)) ++n; if (n != txlist_size_tx(l)) vf_viol("mix-list", "%zu entries in a list of size %zu", n, txlist_size_tx(l)); break; }
        case QPUSH: if (np[1] < NITEM) { txqueue_push_tx(txqueue_of_state_tx(&QS), &it[t->id][1][np[1]].e.q); ++np[1]; t->dpush[1]++; } break;
        case QPOP: { struct txqueue *q = txqueue_of_state_tx(&QS); if (!txqueue_empty_tx(q)) { txqueue_front_tx(q); txqueue_pop_tx(q); t->dpop[1]++; } break; }
        case SPUSH: if (np[2] < NITEM) { txstack_push_tx(txstack_of_state_tx(&SS), &it[t->id][2][np[2]].e.s); ++np[2]; t->dpush[2]++; } break;
        case SPOP: { struct txstack *q = txstack_of_state_tx(&SS); if (!txstack_empty_tx(q)) { txstack_top_tx(q); txstack_pop_tx(q); t->dpop[2]++; } break; }
        case MINS: if (np[3] < NITEM) { txmultiset_insert_tx(txmultiset_of_state_tx(&MS), &it[t->id][3][np[3]].e.m); ++np[3]; t->dpush[3]++; } break;
        case MDEL: { struct txmultiset *m = txmultiset_of_state_tx(&MS); if (!txmultiset_empty_tx(m)) { struct txmultiset_entry *e = txmultiset_begin_tx(m); if (s.a & 1 && txmultiset_size_tx(m) > 1) e = txmultiset_entry_next_tx(e); txmultiset_erase_tx(m, e); t->dpop[3]++; } break; }
        case MFIND: { struct txmultiset *m = txmultiset_of_state_tx(&MS); long k = s.a % 40; txmultiset_count_tx(m, &k); struct txmultiset_entry *f = txmultiset_lower_bound_tx(m, &k); if (f != txmultiset_end_tx(m) && ITEM(f, m)->key < k) vf_viol("mix-multiset", "lower bound is lower"); break; }
        case MALLOC: { int k = s.a % NSLOT; if (load_ptr_tx(&slot[k])) break; size_t n = 1 + s.b % 300; void *p = s.c & 1 ? malloc_tx(n) : calloc_tx(n, 1); if (!p) break; memset_tm(p, 'm', n); store_ptr_tx(&slot[k], p); store_long_tx(&slotlen[k], (long)n); break; }
        case STRDUP: { int k = s.a % NSLOT; if (load_ptr_tx(&slot[k])) break; char *p = strdup_tx("a string constant which is duplicated"); store_ptr_tx(&slot[k], p); store_long_tx(&slotlen[k], 20); break; }
        case REALLOC: { int k = s.a % NSLOT; void *p = load_ptr_tx(&slot[k]); size_t n = 1 + s.b % 300, o = p ? load_long_tx(&slotlen[k]) : 0; p = realloc_tx(p, n); if (!p) break; if (n > o) memset_tx((char*)p + o, 'r', n - o); store_ptr_tx(&slot[k], p); store_long_tx(&slotlen[k], (long)n); break; }
        case FREE: { int k = s.a % NSLOT; void *p = load_ptr_tx(&slot[k]); if (p && (s.b & 1)) { long n = load_long_tx(&slotlen[k]); loadstore_tx(p, p, n < 9 ? n : 9); } free_tx(p); store_ptr_tx(&slot[k], NULL); break; }
        case PWRITE: memset(buf, 'p', sizeof(buf)); pwrite_tm(ffd[s.a % NF], buf, 1 + s.b % 500, s.c % 40000); break;
        case PREAD: pread_tm(ffd[s.a % NF], buf, 1 + s.b % 500, s.c % 40000); break;
        case WRITE: memset(buf, 'w', sizeof(buf)); write_tm(ffd[s.a % NF], buf, 1 + s.b % 200); break;
        case READ: read_tm(ffd[s.a % NF], buf, 1 + s.b % 200); break;
        case LSEEK: lseek_tx(ffd[s.a % NF], s.c & 1 ? s.b % 30000 : 0, s.c % 3 == 0 ? SEEK_END : SEEK_SET); break;
        case FSTAT: { struct stat st; fstat_tm(ffd[s.a % NF], &st); if (!S_ISREG(st.st_mode)) vf_viol("mix-fstat", "mode %o", st.st_mode); break; }
        case FSYNC: fsync_tx(ffd[s.a % NF]); break;
        case FCHMOD: fchmod_tx(ffd[s.a % NF], s.b & 1 ? 0640 : 0600); break;
        case FCNTL: fcntl_tm(ffd[s.a % NF], s.b & 1 ? F_GETFL : F_GETFD); break;
        case OPEN: if (!(usedf & 1)) { usedf |= 1; char p[PATH_MAX + 40]; snprintf(p, sizeof(p), "%s/t%d", base, t->id); int fd = open_tm(p, O_RDWR | (s.a & 1 ? O_APPEND : 0)); if (fd < 0) break; memset(buf, 'o', sizeof(buf)); write_tm(fd, buf, 1 + s.b % 500); if (s.c & 1) pread_tm(fd, buf, 100, 0); close_tx(fd); } break;
        case DUP: { int fd = dup_tx(pfd[s.a & 1]); if (fd >= 0) close_tx(fd); break; }
        case PIPE: { int p[2]; pipe_tm(p); write_tm(p[1], "x", 1); close_tx(p[0]); close_tx(p[1]); break; }
        case PIPEW: if (s.c % 4 == 0) { write_tm(pfd[1], "abcdefgh", 1 + s.a % 8); } break;
        case PIPER: if (s.c % 4 == 0) { picotm_irrevocable(); picotm_libc_save_errno(); read_tm(pfd[0], buf, 16); } break;
        case SOCKW: if (s.c % 4 == 0) write_tm(sfd[s.a & 1], "abcdefgh", 1 + s.b % 8); break;
        case SEND: if (s.c % 4 == 0) send_tm(sfd[s.a & 1], "ABCDEFGH", 1 + s.b % 8, MSG_DONTWAIT); break;
        case STAT: { struct stat st; char p[PATH_MAX + 40]; snprintf(p, sizeof(p), "%s/f%u", base, s.a % NF); stat_tm(p, &st); break; }
        case CHDIR: { char p[PATH_MAX + 40]; snprintf(p, sizeof(p), "%s%s", base, s.a & 1 ? "/d" : ""); chdir_tm(p); break; }
        case FCHDIR: fchdir_tx(dfd); break;
        case GETCWD: { char p[PATH_MAX + 40]; if (!getcwd_tm(p, sizeof(p))) vf_viol("mix-getcwd", "no directory"); else if (strncmp(p, base, strlen(base))) vf_viol("mix-getcwd", "%s", p); break; }
        case MKSTEMP: if (!(usedf & 2)) { usedf |= 2; char p[PATH_MAX + 40]; snprintf(p, sizeof(p), "%s/tmpXXXXXX", base); int fd = mkstemp_tm(p); if (fd >= 0) { write_tm(fd, "abc", 3); close_tx(fd); unlink_tm(p); } } break;
        case SETLOC: if (s.c % 4 == 0) setlocale_tm(s.b & 1 ? LC_ALL : LC_CTYPE, s.a & 1 ? "C.UTF-8" : "C"); else setlocale_tm(LC_NUMERIC, NULL); break;
        case LOCALECONV: localeconv_tx(); break;
        case NEWLOC: if (!made) { made = newlocale_tm(LC_CTYPE_MASK, "C.UTF-8", (locale_t)0); if (made) { freelocale_tx(made); } } break;
        case DUPLOC: { locale_t l = duplocale_tx(lobj[s.a % 3]); if (l) freelocale_tx(l); break; }
        case USELOC: uselocale_tx(lobj[s.a % 3]); uselocale_tx(LC_GLOBAL_LOCALE); break;
        case SQRT: { double r = sqrt_tx(2.0); if (r < 1.41) abort(); if (s.a % 16 == 0) log_tx(0.0); break; }
        case LGAMMA: lgamma_tx(s.a % 2 ? -0.5 : 1.5); break;
        case FENV: picotm_libm_save_fenv(); sqrt_tx(3.0); break;
        case ERRNO: picotm_libc_save_errno(); errno = 5; break;
        case PTRDATA: { struct picotm_error e = PICOTM_ERROR_INITIALIZER; void *g = ptr_get_data(&tm[s.a % NLONG], &e); if (!picotm_error_is_set(&e) && !g) ptr_set_data(&tm[s.a % NLONG], &tm[1], &e); else if (!picotm_error_is_set(&e)) ptr_clear_data(&tm[s.a % NLONG], &e); if (picotm_error_is_set(&e)) picotm_recover_from_error(&e); break; }
        case SHDATA: { struct picotm_error e = PICOTM_ERROR_INITIALIZER; const void *p = &tm[s.a % 8];
            switch (s.b % 4) { case 0: ptr_get_shared_data(p, &e); break; case 1: ptr_set_shared_data(p, &tm[s.c % 9], &e); break; case 2: ptr_test_and_set_shared_data(p, NULL, &tm[2], &e); break; default: ptr_clear_shared_data(p, &e); }
            if (picotm_error_is_set(&e)) picotm_recover_from_error(&e); break; }
        case ARITH: { long r = mul_long_tx((long)s.a, (long)(s.b % 1000)); r = add_long_tx(r, 1); if (s.c % 16 == 0) div_long_tx(r, 0); break; }
        case CAST: cast_ulong_to_int_tx(s.a % 1000); if (s.c % 16 == 0) cast_long_to_uchar_tx(-1); break;
        case EVENT: {
            static const struct picotm_module_ops ops = { .apply_event = cb_apply_event, .undo_event = cb_undo_event, .release = cb_release };
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            if (!t->reg) { t->mod = picotm_register_module(&ops, t, &e); if (picotm_error_is_set(&e)) picotm_recover_from_error(&e); t->reg = true; }
            for (unsigned k = 0; k <= s.a % 40; ++k) { picotm_append_event(t->mod, k, i, &e); if (picotm_error_is_set(&e)) picotm_recover_from_error(&e); t->logged++; }
            break; }
        case IRREV: if (s.a % 4 == 0) picotm_irrevocable(); break;
        case RAND: { unsigned sd = s.a; rand_r_tm(&sd); break; }
        }
        vf_delay(&t->R, 3);
        if (i == t->nprog / 2 && (t->h & 15) == 1 && picotm_number_of_restarts() < 2) vf_conflict();
    }
    if ((t->h & 15) == 2 && picotm_number_of_restarts() == 0) picotm_recover_from_errno(EPERM);
    (void)mine; (void)nmine; (void)depth;
    memcpy(t->npush, np, 0);
    for (int k = 0; k < 4; ++k) t->dpush[k] = np[k] - t->npush[k];
}

static void *thread(void *arg)
{
    struct thr *volatile t = arg;
    vf_storm_here();
    for (volatile int x = 0; x < t->ntx; ++x) {
        t->nprog = 1 + (int)rndn(&t->R, rndp(&t->R, 60) ? 4 : 12); t->h = (unsigned)rnd(&t->R);
        int only = rndp(&t->R, 20) ? (int)rndn(&t->R, NOPS) : -1;
        for (int i = 0; i < t->nprog; ++i)
            t->prog[i] = (struct step){ only >= 0 ? only : (int)rndn(&t->R, NOPS), (unsigned)rnd(&t->R) >> 4, (unsigned)rnd(&t->R) >> 4, (unsigned)rnd(&t->R) >> 4 };
        volatile bool gaveup = false;
        picotm_begin
            if (t->logged - t->undone - t->applied) vf_viol("mix-events", "%ld events neither applied nor undone", t->logged - t->undone - t->applied);
            body(t);
        picotm_commit
            if (picotm_error_is_non_recoverable()) { fprintf(stderr, "non-recoverable error, status %d\n", (int)picotm_error_status()); vf_viol("mix-nonrecoverable", "status %d", (int)picotm_error_status()); vf_finish(0); }
            vf_count("recoveries", 1);
            if ((t->h & 15) == 2 && picotm_number_of_restarts() < 3 && (t->h & 16)) picotm_restart();
            gaveup = true;
        picotm_end
        if (gaveup) vf_count("gave-up", 1);
        else {
            vf_count("committed", 1);
            if (picotm_number_of_restarts()) vf_count("restarted-commits", 1);
            for (int k = 0; k < 4; ++k) { t->npush[k] += (int)t->dpush[k]; pushed[k] += t->dpush[k]; popped[k] += t->dpop[k]; }
            uint64_t h = 1; for (int i = 0; i < t->nprog; ++i) h = vf_hash(h, &t->prog[i].op, sizeof(int));
            if (t->nprog > 1) vf_distinct(h);
        }
        vf_tick();
        if (rndp(&t->R, 4)) { picotm_release(); vf_count("releases", 1); }
    }
    picotm_release();
    return NULL;
}

static void wr(const char *n, long len) { int fd = open(n, O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0) { perror(n); exit(2); } for (long i = 0; i < len; ++i) if (write(fd, "f", 1) != 1) exit(2); close(fd); }
int main(int argc, char **argv)
{
    vf_init(argc, argv);
    snprintf(base, sizeof(base), "%s/mix-%d", vf_dir, (int)getpid());
    mkdir(base, 0700);
    char b[PATH_MAX + 40];
    int nthr = vf_threads > MAXT ? MAXT : vf_threads < 1 ? 4 : vf_threads;
    for (uint64_t c = vf_from; c < vf_from + vf_cases && vf_more(); ++c) {
        vf_case(c);
        struct rng R = vf_rng(vf_seed, 28, c);
        snprintf(b, sizeof(b), "%s/d", base); mkdir(b, 0700);
        dfd = open(b, O_RDONLY | O_DIRECTORY);
        if (dfd < 0 || chdir(base)) { perror(base); exit(2); }
        for (int i = 0; i < NF; ++i) { snprintf(b, sizeof(b), "%s/f%d", base, i); wr(b, rndn(&R, 3) * 700); ffd[i] = open(b, O_RDWR | (i == 3 ? O_APPEND : 0)); if (ffd[i] < 0) exit(2); }
        for (int i = 0; i < MAXT && i < nthr; ++i) { snprintf(b, sizeof(b), "%s/t%d", base, i); wr(b, 100); }
        if (pipe2(pfd, O_NONBLOCK) || socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sfd)) { perror("pipe"); exit(2); }
        for (int i = 0; i < 3; ++i) lobj[i] = newlocale(LC_ALL_MASK, i ? "C.UTF-8" : "C", (locale_t)0);
        for (int i = 0; i < NSLOT; ++i) { slot[i] = NULL; slotlen[i] = 0; }
        for (int i = 0; i < NLONG; ++i) tm[i] = 0x0041424344454600 + i % 200;
        LS = LS0; QS = QS0; SS = SS0;
        txlist_state_init(&LS); txqueue_state_init(&QS); txstack_state_init(&SS); txmultiset_state_init(&MS, key_cb, cmp_cb);
        static struct thr T[MAXT]; memset(T, 0, sizeof(T));
        int n = 1 + (int)rndn(&R, nthr), ntx = 2 + (int)rndn(&R, 30);
        for (int t = 0; t < n; ++t) {
            T[t].id = t; T[t].R = vf_rng(rnd(&R), t, c); T[t].ntx = ntx;
            for (int k = 0; k < 4; ++k) for (int i = 0; i < NITEM; ++i) {
                struct item *e = &it[t][k][i]; e->id = i; e->key = (long)rndn(&R, 40);
                switch (k) { case 0: txlist_entry_init(&e->e.l); break; case 1: txqueue_entry_init(&e->e.q); break; case 2: txstack_entry_init(&e->e.s); break; default: txmultiset_entry_init(&e->e.m); }
            }
        }
        for (int k = 0; k < 4; ++k) pushed[k] = popped[k] = 0;

        pthread_t th[MAXT];
        bool held = rndp(&R, 30);
        if (held) { picotm_begin store_long_tx(&tm[0], 1); picotm_commit picotm_end }
        vf_storm_begin(rndp(&R, 30) ? 1 + rndn(&R, 500) : 0, rnd(&R));
        for (int t = 0; t < n; ++t) pthread_create(&th[t], NULL, thread, &T[t]);
        for (int t = 0; t < n; ++t) pthread_join(th[t], NULL);
        vf_storm_end();
        static volatile long sz[4];
        picotm_begin
            struct txlist *l = txlist_of_state_tx(&LS); sz[0] = (long)txlist_size_tx(l); if (c & 1) txlist_clear_tx(l); else while (!txlist_empty_tx(l)) txlist_pop_front_tx(l);
            struct txqueue *q = txqueue_of_state_tx(&QS); sz[1] = (long)txqueue_size_tx(q); while (!txqueue_empty_tx(q)) txqueue_pop_tx(q);
            struct txstack *s = txstack_of_state_tx(&SS); sz[2] = (long)txstack_size_tx(s); while (!txstack_empty_tx(s)) txstack_pop_tx(s);
            struct txmultiset *m = txmultiset_of_state_tx(&MS); sz[3] = (long)txmultiset_size_tx(m); txmultiset_clear_tx(m);
        picotm_commit
            vf_viol("mix-final", "the final transaction fails");
        picotm_end
        for (int k = 0; k < 4; ++k) if (sz[k] != pushed[k] - popped[k]) vf_viol("mix-container", "container %d: %ld entries after %ld pushes and %ld pops", k, (long)sz[k], (long)pushed[k], (long)popped[k]);
        picotm_release();
        for (int t = 0; t < n; ++t) for (int k = 0; k < 4; ++k) for (int i = 0; i < NITEM; ++i) {
            struct item *e = &it[t][k][i];
            switch (k) { case 0: txlist_entry_uninit(&e->e.l); break; case 1: txqueue_entry_uninit(&e->e.q); break; case 2: txstack_entry_uninit(&e->e.s); break; default: txmultiset_entry_uninit(&e->e.m); }
        }
        txlist_state_uninit(&LS); txqueue_state_uninit(&QS); txstack_state_uninit(&SS); txmultiset_state_uninit(&MS);
        for (int i = 0; i < NSLOT; ++i) free(slot[i]);
        for (int i = 0; i < NF; ++i) close(ffd[i]);
        for (int i = 0; i < 2; ++i) { close(pfd[i]); close(sfd[i]); }
        close(dfd);
        for (int i = 0; i < 3; ++i) freelocale(lobj[i]);
        setlocale(LC_ALL, "C");
        if (c - vf_from < 3) vf_sample("%d threads, %d transactions each, containers left with %ld %ld %ld %ld entries", n, ntx, (long)sz[0], (long)sz[1], (long)sz[2], (long)sz[3]);
        vf_count("threads", n);
    }
    if (chdir("/")) {}
    snprintf(b, sizeof(b), "%s/d", base); rmdir(b);
    for (int i = 0; i < NF; ++i) { snprintf(b, sizeof(b), "%s/f%d", base, i); unlink(b); }
    for (int i = 0; i < MAXT; ++i) { snprintf(b, sizeof(b), "%s/t%d", base, i); unlink(b); }
    rmdir(base);
    vf_finish(0);
}
