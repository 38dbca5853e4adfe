/* C27: failing memory allocations inside the library.
 * A random program over all modules runs once in a new thread to count its
 * allocations, then again from the same initial state with the first, second,
 * ... allocation failing; also with all further allocations failing until the
 * recovery code runs. The recovery code then gives up, which must leave the
 * initial state, or restarts, which must give the state of the run without
 * failures. States are complete descriptions of memory, containers, blocks,
 * descriptors, files, directory and locale. The ledger of live blocks finds
 * what the library loses. */
#include "vf_tx.h"
#define VM_LIBC
#include "vf_mem.h"
#include <dirent.h>
#include <locale.h>
#include <limits.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-txlib.h"
#include "picotm/picotm-txlist.h"
#include "picotm/picotm-txqueue.h"
#include "picotm/picotm-txstack.h"
#include "picotm/picotm-txmultiset.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include "picotm/string.h"
#include "picotm/string-tm.h"
#include "picotm/fcntl.h"
#include "picotm/fcntl-tm.h"
#include "picotm/unistd.h"
#include "picotm/unistd-tm.h"
#include "picotm/sys/stat.h"
#include "picotm/sys/stat-tm.h"
#include "picotm/sys/socket.h"
#include "picotm/sys/socket-tm.h"
#include "picotm/locale.h"
#include "picotm/locale-tm.h"
#include "picotm/math.h"
#include "picotm/picotm-libc.h"
#include "picotm/picotm-ptrdata.h"

static struct rng R;
static char base[PATH_MAX];
/* ---- the world ---- */
#define NLONG 8192
static long tm[NLONG], tm0[NLONG];
#define NITEM 48
struct item { int id; long key; union { struct txlist_entry l; struct txqueue_entry q; struct txstack_entry s; struct txmultiset_entry m; } e; };
static struct item it[4][NITEM];
#define ITEM(p, f) ((struct item*)((char*)(p) - offsetof(struct item, e.f)))
static struct txlist_state LS, LS0 = TXLIST_STATE_INITIALIZER(LS0);
static struct txqueue_state QS, QS0 = TXQUEUE_STATE_INITIALIZER(QS0);
static struct txstack_state SS, SS0 = TXSTACK_STATE_INITIALIZER(SS0);
static struct txmultiset_state MS;
static const void *key_cb(struct txmultiset_entry *e) { return &ITEM(e, m)->key; }
static int cmp_cb(const void *a, const void *b) { long x = *(const long*)a, y = *(const long*)b; return x < y ? -1 : x > y; }
#define NSLOT 8
static void *slot[NSLOT]; static long slotlen[NSLOT];
static int pfd[2], sfd[2], dfd, lowfd;
static locale_t lobj;
static long key0[4][NITEM];

static void wr(const char *name, const char *s) { int fd = open(name, O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0 || write(fd, s, strlen(s)) < 0) { perror(name); exit(2); } close(fd); }
static void clean_dir(const char *d)
{
    DIR *D = opendir(d); if (!D) return;
    struct dirent *e; char p[PATH_MAX + 300];
    while ((e = readdir(D))) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        snprintf(p, sizeof(p), "%s/%s", d, e->d_name);
        if (e->d_type == DT_DIR) { clean_dir(p); rmdir(p); } else unlink(p);
    }
    closedir(D);
}
/* containers are filled by a transaction of the main thread */
static void setup(void)
{
    memcpy(tm, tm0, sizeof(tm));
    mkdir(base, 0700); clean_dir(base);
    if (chdir(base)) { perror(base); exit(2); }
    mkdir("d", 0700); wr("a", "contents of the file a, which is longer than one record"); wr("b", "b"); wr("d/e", "e e e e e e e e e e e e e e e e e e e e e e e e e e e e e e e e e e e e e e e");
    for (int i = 0; i < NSLOT; ++i) { slotlen[i] = 0; slot[i] = NULL; if (i & 1) { slot[i] = calloc(1, 32 + 8 * i); slotlen[i] = 32 + 8 * i; memset(slot[i], 'a' + i, slotlen[i]); } }
    if (pipe(pfd)) { perror("pipe"); exit(2); }
    if (write(pfd[1], "0123456789", 10) != 10) exit(2);
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sfd)) { perror("socketpair"); exit(2); }
    if (write(sfd[1], "0123", 4) != 4) exit(2);
    dfd = open("d", O_RDONLY | O_DIRECTORY); if (dfd < 0) { perror("d"); exit(2); }
    setlocale(LC_ALL, "C");
    lobj = newlocale(LC_ALL_MASK, "C.UTF-8", (locale_t)0);
    LS = LS0; QS = QS0; SS = SS0;
    txlist_state_init(&LS); txqueue_state_init(&QS); txstack_state_init(&SS); txmultiset_state_init(&MS, key_cb, cmp_cb);
    for (int t = 0; t < 4; ++t) for (int i = 0; i < NITEM; ++i) {
        it[t][i].id = i; it[t][i].key = key0[t][i];
        switch (t) { case 0: txlist_entry_init(&it[t][i].e.l); break; case 1: txqueue_entry_init(&it[t][i].e.q); break; case 2: txstack_entry_init(&it[t][i].e.s); break; default: txmultiset_entry_init(&it[t][i].e.m); }
    }
    picotm_begin
        for (int i = 0; i < 8; ++i) {
            txlist_push_back_tx(txlist_of_state_tx(&LS), &it[0][i].e.l); txqueue_push_tx(txqueue_of_state_tx(&QS), &it[1][i].e.q);
            txstack_push_tx(txstack_of_state_tx(&SS), &it[2][i].e.s); txmultiset_insert_tx(txmultiset_of_state_tx(&MS), &it[3][i].e.m);
        }
    picotm_commit
        fprintf(stderr, "setup failed\n"); exit(2);
    picotm_end
}
static void teardown(bool had_fd[])
{
    picotm_begin
        txlist_clear_tx(txlist_of_state_tx(&LS)); txmultiset_clear_tx(txmultiset_of_state_tx(&MS));
        while (!txqueue_empty_tx(txqueue_of_state_tx(&QS))) txqueue_pop_tx(txqueue_of_state_tx(&QS));
        while (!txstack_empty_tx(txstack_of_state_tx(&SS))) txstack_pop_tx(txstack_of_state_tx(&SS));
    picotm_commit
        fprintf(stderr, "teardown failed\n"); exit(2);
    picotm_end
    for (int t = 0; t < 4; ++t) for (int i = 0; i < NITEM; ++i)
        switch (t) { case 0: txlist_entry_uninit(&it[t][i].e.l); break; case 1: txqueue_entry_uninit(&it[t][i].e.q); break; case 2: txstack_entry_uninit(&it[t][i].e.s); break; default: txmultiset_entry_uninit(&it[t][i].e.m); }
    txlist_state_uninit(&LS); txqueue_state_uninit(&QS); txstack_state_uninit(&SS); txmultiset_state_uninit(&MS);
    for (int i = 0; i < NSLOT; ++i) free(slot[i]);
    for (int i = 0; i < 64; ++i) if (!had_fd[i]) close(i);
    freelocale(lobj); setlocale(LC_ALL, "C");
}

/* ---- description of the state ---- */
#define SLEN 8000
struct state { char s[SLEN]; int n; };
__attribute__((format(printf, 2, 3))) static void put(struct state *s, const char *f, ...)
{
    va_list ap; va_start(ap, f); if (s->n < SLEN - 1) s->n += vsnprintf(s->s + s->n, SLEN - s->n, f, ap); va_end(ap); if (s->n > SLEN - 1) s->n = SLEN - 1;
}
static void put_dir(struct state *s, const char *d)
{
    struct dirent **l; int n = scandir(d, &l, NULL, alphasort);
    for (int i = 0; i < n; ++i) {
        char p[PATH_MAX + 300]; snprintf(p, sizeof(p), "%s/%s", d, l[i]->d_name);
        if (strcmp(l[i]->d_name, ".") && strcmp(l[i]->d_name, "..")) {
            struct stat st; lstat(p, &st); put(s, " %s:%o", p + strlen(base), st.st_mode);
            if (S_ISDIR(st.st_mode)) put_dir(s, p);
            else if (S_ISREG(st.st_mode)) { char b[600]; int fd = open(p, O_RDONLY); long m = fd < 0 ? -1 : read(fd, b, sizeof(b)); uint64_t h = 1; if (m > 0) h = vf_hash(h, b, m); put(s, "/%ld/%lx", (long)st.st_size, (long)h); if (fd >= 0) close(fd); }
        }
        __real_free(l[i]);
    }
    if (n >= 0) __real_free(l);
}
static void put_fds(struct state *s)
{
    for (int i = lowfd; i < 64; ++i) {
        struct stat st; int fl = fcntl(i, F_GETFL);
        if (fl < 0) continue;
        fstat(i, &st); put(s, " fd%d:%o/%x", i, st.st_mode & S_IFMT, fl);
        if (S_ISREG(st.st_mode)) put(s, "@%ld", (long)lseek(i, 0, SEEK_CUR));
        if ((S_ISSOCK(st.st_mode) || S_ISFIFO(st.st_mode)) && i >= lowfd) { int q = 0; ioctl(i, FIONREAD, &q); put(s, "#%d", q); }
    }
}
static void describe(struct state *s)
{
    s->n = 0;
    uint64_t h = 1; put(s, "memory:");
    for (int p = 0; p < NLONG; p += 512) { h = vf_hash(1, tm + p, 512 * sizeof(long)); put(s, " %x", (unsigned)h); }
    put(s, " blocks:");
    for (int i = 0; i < NSLOT; ++i) put(s, " %ld/%x", slot[i] ? slotlen[i] : -1, slot[i] ? (unsigned)vf_hash(1, slot[i], slotlen[i]) : 0);
    put(s, " fds:"); put_fds(s);
    put(s, " files:"); put_dir(s, base);
    char cw[PATH_MAX]; put(s, " cwd: %s", getcwd(cw, sizeof(cw)) ? cw + strlen(base) : "?");
    put(s, " locale: %s", setlocale(LC_ALL, NULL));
    static int ids[5][NITEM + 1], n[5]; 
    picotm_begin
        memset(n, 0, sizeof(n));
        struct txlist *l = txlist_of_state_tx(&LS); struct txlist_entry *e = txlist_begin_tx(l), *end = txlist_end_tx(l);
        for (; e != end && n[0] < NITEM; e = txlist_entry_next_tx(e)) ids[0][n[0]++] = ITEM(e, l)->id;
        struct txmultiset *m = txmultiset_of_state_tx(&MS); struct txmultiset_entry *f = txmultiset_begin_tx(m), *mend = txmultiset_end_tx(m);
        for (; f != mend && n[1] < NITEM; f = txmultiset_entry_next_tx(f)) ids[1][n[1]++] = ITEM(f, m)->id;
        /* queues and stacks show their size and ends */
        struct txqueue *q = txqueue_of_state_tx(&QS); ids[2][n[2]++] = (int)txqueue_size_tx(q);
        if (!txqueue_empty_tx(q)) { ids[2][n[2]++] = ITEM(txqueue_front_tx(q), q)->id; ids[2][n[2]++] = ITEM(txqueue_back_tx(q), q)->id; }
        struct txstack *k = txstack_of_state_tx(&SS); ids[3][n[3]++] = (int)txstack_size_tx(k);
        if (!txstack_empty_tx(k)) ids[3][n[3]++] = ITEM(txstack_top_tx(k), s)->id;
    picotm_commit
        fprintf(stderr, "description failed\n"); exit(2);
    picotm_end
    for (int i = 0; i < 4; ++i) { put(s, " %s:", (const char*[]){ "list", "multiset", "queue", "stack" }[i]); for (int j = 0; j < n[i]; ++j) put(s, " %d", ids[i][j]); }
}
static void diff(const char *sig, struct state *want, struct state *got, const char *what);

/* ---- programs ---- */
struct step { int op; unsigned a, b, c; };
static struct step prog[16]; static int nprog;
static char trace[700];
enum { LOAD, STORE, PRIV, MEMCPY, LPUSH, LPOP, QPUSH, QPOP, SPUSH, SPOP, MINS, MDEL, LDEL, MALLOC, CALLOC, REALLOC, MEMALIGN, FREE, STRDUP, STRNDUP,
       OPEN, OPENNEW, WRITE, PWRITE, READ, LSEEK, CLOSE, DUP, PIPE, PIPEW, SOCKET, FSTAT, STAT, FCNTL, CHDIR, GETCWD, SETLOC, NEWLOC, DUPLOC, USELOC, FREELOC, SQRT, ERRNO, PTRDATA, EVENT, FCHMOD, FSYNC, SOCKW, SEND, CHMOD, REALPATH, FCHDIR, SHUTDOWN, MEMMOVE, STRCPY, BIGW, NOPS };
static const char *const opn[] = { "load", "store", "privatize", "memcpy", "list-push", "list-pop", "queue-push", "queue-pop", "stack-push", "stack-pop", "mset-insert", "mset-erase", "list-erase",
    "malloc", "calloc", "realloc", "posix_memalign", "free", "strdup", "strndup", "open", "open-new", "write", "pwrite", "read", "lseek", "close", "dup", "pipe", "pipe-write", "socket", "fstat", "stat", "fcntl",
    "chdir", "getcwd", "setlocale", "newlocale", "duplocale", "uselocale", "freelocale", "sqrt", "errno", "ptrdata", "event",
    "fchmod", "fsync", "socket-write", "socket-send", "chmod", "lstat", "fchdir", "shutdown", "memmove", "strcpy", "write-records" };
static void cb_ev_apply(uint16_t h, uintptr_t t, void *d, struct picotm_error *e);
static void cb_ev_undo(uint16_t h, uintptr_t t, void *d, struct picotm_error *e);
static __thread long ev_logged, ev_applied, ev_undone, late_begun;
static void cb_begin(void *d, struct picotm_error *e) {}
static void cb_apply_event(uint16_t h, uintptr_t t, void *d, struct picotm_error *e) { ++ev_applied; }
static void cb_undo_event(uint16_t h, uintptr_t t, void *d, struct picotm_error *e) { ++ev_undone; }
static __thread bool ev_reg; static __thread unsigned long ev_mod;
static void cb_release(void *d) { ev_reg = false; }

static void body(void)
{
    /* descriptors of this execution: files may be open once */
    int fd[16], nfd = 0; unsigned used = 0; int npush[4] = { 8, 8, 8, 8 }; bool lfreed = false; locale_t made = (locale_t)0;
    char buf[400]; int in_d = 0; bool used_loc = false;
    for (int i = 0; i < nprog; ++i) {
        struct step s = prog[i];
        switch (s.op) {
        case LOAD: for (unsigned k = 0; k <= s.b % 8; ++k) { volatile long v = load_long_tx(&tm[(s.a + k * 911) % NLONG]); (void)v; } break;
        case STORE: for (unsigned k = 0; k <= s.b % 8; ++k) store_long_tx(&tm[(s.a + k * 911) % NLONG], (long)s.c + k); break;
        case PRIV: { unsigned o = s.a % (NLONG - 64), n = 1 + s.b % 64; privatize_tx(&tm[o], n * sizeof(long), PICOTM_TM_PRIVATIZE_LOADSTORE); for (unsigned k = 0; k < n; ++k) tm[o + k] += s.c; break; }
        case MEMCPY: memcpy_tx(&tm[s.a % (NLONG - 64)], &tm[s.b % (NLONG - 64)], s.a % (NLONG - 64) == s.b % (NLONG - 64) ? 0 : s.c % 64 + 1 > (unsigned)labs((long)(s.a % (NLONG - 64)) - (long)(s.b % (NLONG - 64))) ? 8 : 8 * (s.c % 64 + 1)); break;
        case LPUSH: if (npush[0] < NITEM) { if (s.a & 1) txlist_push_back_tx(txlist_of_state_tx(&LS), &it[0][npush[0]].e.l); else txlist_push_front_tx(txlist_of_state_tx(&LS), &it[0][npush[0]].e.l); ++npush[0]; } break;
        case LPOP: if (!txlist_empty_tx(txlist_of_state_tx(&LS))) { if (s.a & 1) txlist_pop_back_tx(txlist_of_state_tx(&LS)); else txlist_pop_front_tx(txlist_of_state_tx(&LS)); } break;
        case LDEL: if (!txlist_empty_tx(txlist_of_state_tx(&LS))) txlist_erase_tx(txlist_of_state_tx(&LS), s.a & 1 ? txlist_front_tx(txlist_of_state_tx(&LS)) : txlist_back_tx(txlist_of_state_tx(&LS))); break;
        case QPUSH: if (npush[1] < NITEM) { txqueue_push_tx(txqueue_of_state_tx(&QS), &it[1][npush[1]].e.q); ++npush[1]; } break;
        case QPOP: if (!txqueue_empty_tx(txqueue_of_state_tx(&QS))) txqueue_pop_tx(txqueue_of_state_tx(&QS)); break;
        case SPUSH: if (npush[2] < NITEM) { txstack_push_tx(txstack_of_state_tx(&SS), &it[2][npush[2]].e.s); ++npush[2]; } break;
        case SPOP: if (!txstack_empty_tx(txstack_of_state_tx(&SS))) txstack_pop_tx(txstack_of_state_tx(&SS)); break;
        case MINS: if (npush[3] < NITEM) { txmultiset_insert_tx(txmultiset_of_state_tx(&MS), &it[3][npush[3]].e.m); ++npush[3]; } break;
        case MDEL: if (!txmultiset_empty_tx(txmultiset_of_state_tx(&MS))) txmultiset_erase_tx(txmultiset_of_state_tx(&MS), txmultiset_begin_tx(txmultiset_of_state_tx(&MS))); break;
        case MALLOC: case CALLOC: case MEMALIGN: case STRDUP: case STRNDUP: {
            int k = s.a % NSLOT; if (load_ptr_tx(&slot[k])) break;
            size_t n = 16 + s.b % 200; void *p = NULL;
            if (s.op == MALLOC) { p = malloc_tx(n); memset_tm(p, 'm', n); }
            else if (s.op == CALLOC) p = calloc_tx(n, 1);
            else if (s.op == MEMALIGN) { int r = posix_memalign_tx(&p, 64, n); if (r) { vf_viol("oom-result", "posix_memalign_tx returns %d", r); break; } memset_tm(p, 'p', n); }
            else if (s.op == STRDUP) { p = strdup_tx("a string constant which is duplicated"); n = 20; }
            else { p = strndup_tx("a string constant which is duplicated", 19); n = 20; }
            if (!p) { vf_viol("oom-result", "%s_tx returns NULL", opn[s.op]); break; }
            store_ptr_tx(&slot[k], p); store_long_tx(&slotlen[k], (long)n); break; }
        case REALLOC: { int k = s.a % NSLOT; void *p = load_ptr_tx(&slot[k]); size_t n = 16 + s.b % 200; size_t o = p ? load_long_tx(&slotlen[k]) : 0; p = realloc_tx(p, n); if (!p) { vf_viol("oom-result", "realloc_tx returns NULL"); break; }
            if (n > o) memset_tx((char*)p + o, 'r', n - o); store_ptr_tx(&slot[k], p); store_long_tx(&slotlen[k], (long)n); break; }
        case FREE: { int k = s.a % NSLOT; void *p = load_ptr_tx(&slot[k]); free_tx(p); store_ptr_tx(&slot[k], NULL); break; }
        case OPEN: { unsigned f = s.a % 3; if (used & 1u << f || nfd > 12) break; used |= 1u << f;
            const char *n = (const char*[]){ "a", "b", "d/e" }[f]; char p[40]; snprintf(p, sizeof(p), "%s%s", in_d ? "../" : "", n); fd[nfd++] = open_tm(p, O_RDWR); break; }
        case OPENNEW: { if (nfd > 12 || used & 8u << (s.a % 3)) break; used |= 8u << (s.a % 3); char p[40]; snprintf(p, sizeof(p), "%snew%u", in_d ? "../" : "", s.a % 3); fd[nfd++] = open_tm(p, O_RDWR | O_CREAT | O_EXCL, 0600); break; }
        case WRITE: if (nfd) { int f = fd[s.a % nfd]; if (f >= 0) { memset(buf, 'w', 300); write_tm(f, buf, 1 + s.b % 300); } } break;
        case PWRITE: if (nfd) { int f = fd[s.a % nfd]; if (f >= 0) { memset(buf, 'p', 300); pwrite_tm(f, buf, 1 + s.b % 300, s.c % 100); } } break;
        case READ: if (nfd) { int f = fd[s.a % nfd]; if (f >= 0) { if (s.c & 1) read_tm(f, buf, 1 + s.b % 300); else pread_tm(f, buf, 1 + s.b % 300, s.c % 100); } } break;
        case LSEEK: if (nfd) { int f = fd[s.a % nfd]; if (f >= 0) lseek_tx(f, s.b % 100, SEEK_SET); } break;
        case CLOSE: if (nfd) { int f = fd[s.a % nfd]; if (f >= 0) { close_tx(f); fd[s.a % nfd] = -1; } } break;
        case DUP: if (nfd && nfd < 12) { int f = fd[s.a % nfd]; if (f >= 0) { dup_tx(f); } } break;
        case PIPE: { int p[2]; pipe_tm(p); break; }
        case PIPEW: write_tm(pfd[1], "abcdefgh", 1 + s.a % 8); break;
        case SOCKET: { socket_tx(AF_UNIX, SOCK_STREAM, 0); break; }
        case FSTAT: if (nfd) { int f = fd[s.a % nfd]; struct stat st; if (f >= 0) fstat_tm(f, &st); } break;
        case STAT: { struct stat st; stat_tm(in_d ? "../a" : "a", &st); break; }
        case FCNTL: fcntl_tm(pfd[s.a & 1], s.b & 1 ? F_GETFL : F_GETFD); break;
        case CHDIR: chdir_tm(in_d ? ".." : "d"); in_d = !in_d; break;
        case GETCWD: if (!getcwd_tm(buf, sizeof(buf))) vf_viol("oom-result", "getcwd_tm returns NULL"); break;
        case SETLOC: setlocale_tm(LC_ALL, s.a & 1 ? "C.UTF-8" : "C"); break;
        case NEWLOC: if (!made) made = newlocale_tm(LC_ALL_MASK, "C.UTF-8", (locale_t)0); else { if (!used_loc) { freelocale_tx(made); made = (locale_t)0; } } break;
        case DUPLOC: { locale_t l = duplocale_tx(lobj); freelocale_tx(l); break; }
        case USELOC: if (!lfreed) { uselocale_tx(lobj); uselocale_tx(LC_GLOBAL_LOCALE); } break;
        case FREELOC: break;
        case SQRT: sqrt_tx(2.0); break;
        case ERRNO: picotm_libc_save_errno(); errno = 5; break;
        case PTRDATA: { struct picotm_error e = PICOTM_ERROR_INITIALIZER; ptr_set_data(&tm[s.a % NLONG], &tm[1], &e); if (picotm_error_is_set(&e)) picotm_recover_from_error(&e);
            ptr_get_shared_data(&tm[s.b % NLONG], &e); if (picotm_error_is_set(&e)) picotm_recover_from_error(&e); break; }
        case FCHMOD: if (nfd) { int f = fd[s.a % nfd]; if (f >= 0) fchmod_tx(f, s.b & 1 ? 0640 : 0600); } break;
        case FSYNC: if (nfd) { int f = fd[s.a % nfd]; if (f >= 0) fsync_tx(f); } break;
        case SOCKW: write_tm(sfd[s.a & 1], "abcdefgh", 1 + s.b % 8); break;
        case SEND: send_tm(sfd[s.a & 1], "ABCDEFGH", 1 + s.b % 8, 0); break;
        case CHMOD: chmod_tm(in_d ? "../b" : "b", 0600); break;
        case REALPATH: { struct stat st; lstat_tm(in_d ? "../d" : "d", &st); break; }
        case FCHDIR: if (!in_d) { fchdir_tx(dfd); in_d = 1; } break;
        case SHUTDOWN: break;
        case MEMMOVE: memmove_tx(&tm[s.a % (NLONG - 64)], &tm[s.a % (NLONG - 64) + s.b % 32], 8 * (1 + s.c % 32)); break;
        case STRCPY: { char *d = (char*)&tm[s.a % (NLONG - 64)]; strcpy_tx(d, "some text which is copied"); strncat_tx(d, "and more", 8); break; }
        case BIGW: if (nfd) { int f = fd[s.a % nfd]; if (f >= 0) { memset(buf, 'W', 300); for (unsigned k = 0; k < 1 + s.b % 9; ++k) pwrite_tm(f, buf, 1 + (s.c + k) % 300, (k * 977 + s.b) % 2000); } } break;
        case EVENT: {
            static const struct picotm_module_ops ops = { .apply_event = cb_apply_event, .undo_event = cb_undo_event, .release = cb_release };
            struct picotm_error e = PICOTM_ERROR_INITIALIZER;
            if (!ev_reg) { ev_mod = picotm_register_module(&ops, NULL, &e); if (picotm_error_is_set(&e)) picotm_recover_from_error(&e); ev_reg = true; }
            for (unsigned k = 0; k <= s.a % 40; ++k) { picotm_append_event(ev_mod, k, i, &e); if (picotm_error_is_set(&e)) picotm_recover_from_error(&e); ++ev_logged; }
            break; }
        }
    }
    if (made) freelocale_tx(made);
}

/* ---- attempts ---- */
struct attempt { uint64_t fail_at; bool all, again; /* in */ uint64_t n, failed; int recovered; bool gaveup; int status, code; bool nonrec; };
static __thread uint64_t dummy;
static void *attempt_thread(void *arg)
{
    struct attempt *volatile a = arg;
    ev_logged = ev_applied = ev_undone = 0; ev_reg = false;
    errno = 0; locale_t ul = uselocale((locale_t)0);
    vm_n = 0; vm_failed = 0; vm_fail_at = a->fail_at; vm_fail_on = a->all; vm_inject = true;
    picotm_begin
        long un = ev_undone, lo = ev_logged; (void)un; (void)lo;
        if (ev_applied || ev_undone != ev_logged) vf_viol("oom-events", "%ld events logged, %ld undone and %ld applied by the earlier execution", ev_logged, ev_undone, ev_applied);
        ev_logged = ev_undone = 0;
        body();
    picotm_commit
        vm_inject = false; a->recovered++;
        a->status = picotm_error_status(); a->nonrec = picotm_error_is_non_recoverable();
        a->code = a->status == PICOTM_ERRNO ? (int)picotm_error_as_errno() : a->status == PICOTM_ERROR_CODE ? (int)picotm_error_as_error_code() : -1;
        if (!a->nonrec && a->again && a->recovered < 3) picotm_restart();
        a->gaveup = true;
    picotm_end
    vm_inject = false; a->n = vm_n; a->failed = vm_failed;
    if (a->nonrec) return NULL;
    if (a->gaveup ? ev_applied || ev_undone != ev_logged : ev_undone || ev_applied != ev_logged)
        vf_viol("oom-events", "%ld events logged, %ld applied, %ld undone; transaction %s", ev_logged, ev_applied, ev_undone, a->gaveup ? "gave up" : "committed");
    if (uselocale((locale_t)0) != ul) vf_viol("oom-state", "the thread uses another locale");
    picotm_release();
    return NULL;
}
static struct state S0, S1, SX;
static void diff(const char *sig, struct state *want, struct state *got, const char *what)
{
    if (want->n == got->n && !memcmp(want->s, got->s, got->n)) return;
    int i = 0; while (i < want->n && i < got->n && want->s[i] == got->s[i]) ++i;
    int j = i; while (j && !(want->s[j] == ':' && want->s[j + 1] == ' ')) --j;
    while (j && want->s[j - 1] != ' ') --j;
    while (i > j && want->s[i - 1] != ' ') --i;
    vf_viol(sig, "%s: at %.20s... %.70s instead of %.70s; program:%s", what, want->s + j, got->s + i, want->s + i, trace);
}
static bool had[64];
static void run(struct attempt *a) { pthread_t t; pthread_create(&t, NULL, attempt_thread, a); pthread_join(t, NULL); }

int main(int argc, char **argv)
{
    vf_init(argc, argv);
    snprintf(base, sizeof(base), "%s/oom-%d", vf_dir, (int)getpid());
    for (int i = 0; i < 64; ++i) had[i] = fcntl(i, F_GETFD) >= 0;
    for (lowfd = 3; lowfd < 64 && had[lowfd]; ++lowfd) {}
    { void *w = opendir("/"); closedir(w); setlocale(LC_ALL, "C.UTF-8"); setlocale(LC_ALL, "C"); }
    for (uint64_t c = vf_from; c < vf_from + vf_cases && vf_more(); ++c) {
        vf_case(c);
        R = vf_rng(vf_seed, 27, c);
        for (int i = 0; i < NLONG; ++i) tm0[i] = (long)rnd(&R);
        for (int t = 0; t < 4; ++t) for (int i = 0; i < NITEM; ++i) key0[t][i] = (long)rndn(&R, 20);
        nprog = 1 + (int)rndn(&R, rndp(&R, 50) ? 3 : 12); int tl = 0; uint64_t h = 0xcbf29ce484222325ull; trace[0] = 0;
        int only = rndp(&R, 40) ? (int)rndn(&R, NOPS) : -1;
        for (int i = 0; i < nprog; ++i) {
            prog[i] = (struct step){ only >= 0 && rndp(&R, 60) ? only : (int)rndn(&R, NOPS), (unsigned)rnd(&R) >> 4, (unsigned)rnd(&R) >> 4, (unsigned)rnd(&R) >> 4 };
            tl += snprintf(trace + tl, sizeof(trace) - tl, " %s(%u,%u,%u)", opn[prog[i].op], prog[i].a % 1000, prog[i].b % 1000, prog[i].c % 1000); h = vf_hash(h, &prog[i].op, sizeof(int));
            if (tl > 650) tl = 650;
        }
        if (c < 3) vf_sample("%s", trace);
        bool hold = rndp(&R, 50);      /* the main thread keeps the library's global state */
        uint64_t n = 1, k, step = 1; size_t live0;
        for (k = 0; k <= n && vf_more(); k += k ? step : 1) {
            struct attempt a = { .fail_at = k, .all = k && rndp(&R, 35), .again = rndp(&R, 50) };
            vf_tick();
            live0 = vm_live;
            setup(); describe(&SX);
            if (!k) S0 = SX; else diff("harness-setup", &S0, &SX, "initial state differs");
            if (!hold) picotm_release();
            run(&a);
            if (a.nonrec) { vf_viol("oom-nonrecoverable", "allocation %d of %d failed: non-recoverable error, status %d, code %d; program:%s", (int)k, (int)n, a.status, a.code, trace); break; }
            describe(&SX);
            char what[120]; snprintf(what, sizeof(what), "allocation %d of %d failed%s, %s", (int)k, (int)n, a.all ? " (and all after)" : "", a.gaveup ? "transaction gave up" : a.recovered ? "transaction was restarted" : "transaction committed");
            if (!k) {
                if (a.recovered) { vf_viol("harness-program", "program fails without failing allocations: status %d code %d; program:%s", a.status, a.code, trace); break; }
                S1 = SX; n = a.n; step = n > 80 ? n / 60 : 1; vf_count("programs", 1); vf_count("allocations-seen", n);
            } else if (!a.failed) vf_count("attempts-without-failure", 1);
            else {
                vf_count("failures-injected", 1); if (a.all) vf_count("failures-persistent", 1);
                vf_distinct(h ^ k * 0x9e3779b97f4a7c15ull);
                if (a.recovered) {
                    vf_count("recovered", 1);
                    if (!((a.status == PICOTM_ERRNO && a.code == ENOMEM) || (a.status == PICOTM_ERROR_CODE && a.code == PICOTM_OUT_OF_MEMORY)))
                        vf_viol("oom-error", "%s: recovery from status %d, code %d; program:%s", what, a.status, a.code, trace);
                    if (a.recovered > 1) vf_viol("oom-again", "%s: the restarted transaction failed again; program:%s", what, trace);
                    if (a.gaveup) { vf_count("gave-up", 1); diff("oom-rollback", &S0, &SX, what); } else { vf_count("restarted", 1); diff("oom-retry", &S1, &SX, what); }
                } else { vf_count("tolerated", 1); diff("oom-result", &S1, &SX, what); }
            }
            teardown(had);
            if (!hold) {
                picotm_release();
#ifndef VM_NOLEDGER
                if (vm_live != live0) vf_viol("oom-leak", "%s: %zd blocks of the library remain allocated; program:%s", what, (ssize_t)(vm_live - live0), trace);
                vf_count("leak-checks", 1);
#endif
            }
        }
        picotm_release();
    }
    if (chdir("/")) {} clean_dir(base); rmdir(base);
    vf_finish(0);
}
