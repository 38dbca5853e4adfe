/* Common runtime of the harness programs: deterministic random numbers, event
 * counters, distinct-case counting, violation reports and a watchdog.
 *
 * Protocol on stdout (one line each, read by /verif/tools/vcheck_run.py):
 *   @VIOL <signature> | <text>     an oracle saw a violation
 *   @STAT <name> <n>               measured counter
 *   @SAMPLE <text>                 an actual case
 *   @HANG <case>                   no progress for the watchdog time
 *   @DONE <cases>                  regular end
 * The case in progress is kept in the file given by --cur, so that the driver
 * can continue behind a case that crashed the process. */
#ifndef VF_H
#define VF_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <inttypes.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <assert.h>
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>

/* ---- random numbers ---- */
struct rng { uint64_t s; };
static inline uint64_t vf_mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
static inline uint64_t rnd(struct rng *r) { return vf_mix(r->s += 0x9e3779b97f4a7c15ull); }
static inline uint64_t rndn(struct rng *r, uint64_t n) { return n ? rnd(r) % n : 0; }
static inline bool rndp(struct rng *r, unsigned pct) { return rndn(r, 100) < pct; }
static inline struct rng vf_rng(uint64_t seed, uint64_t a, uint64_t b)
{
    struct rng r = { vf_mix(vf_mix(vf_mix(seed) ^ a) ^ (b * 0x9e3779b97f4a7c15ull)) };
    return r;
}

/* ---- options ---- */
static uint64_t vf_seed = 1;
static uint64_t vf_from = 0, vf_cases = 100;
static const char *vf_mode = "";
static const char *vf_dir = "/tmp";
static long vf_threads = 4;
static long vf_arg = 0;
static long vf_watch = 60;         /* seconds without progress = hang */
static const char *vf_skip = "";   /* comma-separated features to leave out */
static const char *vf_hashfile;
static _Atomic uint64_t *vf_cur;   /* current case, mapped file */
static _Atomic uint64_t vf_progress;

/* ---- output ---- */
static pthread_mutex_t vf_outlock = PTHREAD_MUTEX_INITIALIZER;
static _Atomic unsigned long vf_nviol;
#define VF_MAXVIOL 25
static void vf_finish(int rc);

__attribute__((format(printf, 2, 3), unused))
static void vf_viol(const char *sig, const char *fmt, ...)
{
    char buf[1600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    for (char *c = buf; *c; ++c) if (*c == '\n') *c = ' ';
    unsigned long n = atomic_fetch_add(&vf_nviol, 1);
    if (n < VF_MAXVIOL) {
        pthread_mutex_lock(&vf_outlock);
        printf("@VIOL %s | case=%" PRIu64 " %s\n", sig, vf_cur ? atomic_load(vf_cur) : 0, buf);
        fflush(stdout);
        pthread_mutex_unlock(&vf_outlock);
    }
}

__attribute__((format(printf, 1, 2), unused))
static void vf_sample(const char *fmt, ...)
{
    static _Atomic int n;
    if (atomic_fetch_add(&n, 1) >= 3) return;
    va_list ap;
    pthread_mutex_lock(&vf_outlock);
    printf("@SAMPLE ");
    va_start(ap, fmt);
    vprintf(fmt, ap);
    va_end(ap);
    printf("\n");
    pthread_mutex_unlock(&vf_outlock);
}

/* ---- counters ---- */
struct vf_stat { const char *name; _Atomic uint64_t n; };
static struct vf_stat vf_stats[96];
static pthread_mutex_t vf_statlock = PTHREAD_MUTEX_INITIALIZER;
static inline _Atomic uint64_t *vf_statp(const char *name)
{
    for (int i = 0; i < 96; ++i) {
        const char *n = __atomic_load_n(&vf_stats[i].name, __ATOMIC_ACQUIRE);
        if (!n) break;
        if (n == name || !strcmp(n, name)) return &vf_stats[i].n;
    }
    _Atomic uint64_t *res = NULL;
    pthread_mutex_lock(&vf_statlock);
    for (int i = 0; i < 96; ++i) {
        if (!vf_stats[i].name) {
            static char pool[96][48];
            snprintf(pool[i], sizeof(pool[i]), "%s", name);
            __atomic_store_n(&vf_stats[i].name, pool[i], __ATOMIC_RELEASE);
            res = &vf_stats[i].n;
            break;
        }
        if (!strcmp(vf_stats[i].name, name)) { res = &vf_stats[i].n; break; }
    }
    pthread_mutex_unlock(&vf_statlock);
    if (!res) abort();
    return res;
}
#define vf_count(name_, n_) do { \
        static _Atomic(_Atomic uint64_t*) p__; \
        _Atomic uint64_t *q__ = atomic_load_explicit(&p__, memory_order_relaxed); \
        if (!q__) { q__ = vf_statp(name_); atomic_store(&p__, q__); } \
        atomic_fetch_add_explicit(q__, (n_), memory_order_relaxed); } while (0)

/* ---- distinct cases ---- */
static uint64_t *vf_hs; static size_t vf_hs_cap, vf_hs_n;
static pthread_mutex_t vf_hslock = PTHREAD_MUTEX_INITIALIZER;
static void vf_hs_put(uint64_t *t, size_t cap, uint64_t h, size_t *n)
{
    size_t i = h & (cap - 1);
    while (t[i]) { if (t[i] == h) return; i = (i + 1) & (cap - 1); }
    t[i] = h; ++*n;
}
__attribute__((unused)) static void vf_distinct(uint64_t h)
{
    if (!h) h = 1;
    pthread_mutex_lock(&vf_hslock);
    if (vf_hs_n * 2 >= vf_hs_cap) {
        size_t nc = vf_hs_cap ? vf_hs_cap * 2 : 4096, n = 0;
        uint64_t *t = mmap(NULL, nc * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (size_t i = 0; i < vf_hs_cap; ++i) if (vf_hs[i]) vf_hs_put(t, nc, vf_hs[i], &n);
        if (vf_hs) munmap(vf_hs, vf_hs_cap * 8);
        vf_hs = t; vf_hs_cap = nc; vf_hs_n = n;
    }
    vf_hs_put(vf_hs, vf_hs_cap, h, &vf_hs_n);
    pthread_mutex_unlock(&vf_hslock);
}
static inline uint64_t vf_hash(uint64_t h, const void *p, size_t n)
{
    const unsigned char *c = p;
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ull;
    return h;
}

/* ---- watchdog ---- */
static void *vf_watchdog(void *arg)
{
    uint64_t last = ~0ull; long idle = 0;
    sigset_t m; sigfillset(&m); pthread_sigmask(SIG_BLOCK, &m, NULL);
    for (;;) {
        struct timespec ts = { 1, 0 };
        nanosleep(&ts, NULL);
        uint64_t p = atomic_load(&vf_progress);
        if (p != last) { last = p; idle = 0; continue; }
        if (++idle >= vf_watch) {
            printf("@HANG %" PRIu64 "\n", atomic_load(vf_cur));
            fflush(stdout);
            /* abort: the driver sees the marker, and a debugger the stacks */
            _exit(77);
        }
    }
    return NULL;
}
static inline void vf_case(uint64_t i)
{
    atomic_store(vf_cur, i);
    atomic_fetch_add(&vf_progress, 1);
}
static inline void vf_tick(void) { atomic_fetch_add_explicit(&vf_progress, 1, memory_order_relaxed); }
static inline bool vf_more(void) { return atomic_load(&vf_nviol) < VF_MAXVIOL; }
static inline bool vf_skipped(const char *f)
{
    size_t n = strlen(f);
    for (const char *p = vf_skip; (p = strstr(p, f)); p += n)
        if ((p == vf_skip || p[-1] == ',') && (!p[n] || p[n] == ',')) return true;
    return false;
}

static void vf_init(int argc, char **argv)
{
    const char *cur = NULL;
    for (int i = 1; i + 1 < argc; i += 2) {
        const char *o = argv[i], *v = argv[i + 1];
        if (!strcmp(o, "--seed")) vf_seed = strtoull(v, 0, 0);
        else if (!strcmp(o, "--from")) vf_from = strtoull(v, 0, 0);
        else if (!strcmp(o, "--cases")) vf_cases = strtoull(v, 0, 0);
        else if (!strcmp(o, "--mode")) vf_mode = v;
        else if (!strcmp(o, "--dir")) vf_dir = v;
        else if (!strcmp(o, "--threads")) vf_threads = atol(v);
        else if (!strcmp(o, "--arg")) vf_arg = atol(v);
        else if (!strcmp(o, "--watch")) vf_watch = atol(v);
        else if (!strcmp(o, "--skip")) vf_skip = v;
        else if (!strcmp(o, "--cur")) cur = v;
        else if (!strcmp(o, "--hashes")) vf_hashfile = v;
        else { fprintf(stderr, "unknown option %s\n", o); exit(2); }
    }
    void *m;
    if (cur) {
        int fd = open(cur, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 4096)) { perror(cur); exit(2); }
        m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    } else {
        m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    if (m == MAP_FAILED) { perror("mmap"); exit(2); }
    vf_cur = m;
    atomic_store(vf_cur, vf_from);
    pthread_t t;
    if (pthread_create(&t, NULL, vf_watchdog, NULL)) { perror("thread"); exit(2); }
    pthread_detach(t);
}

__attribute__((unused)) static void vf_finish(int rc)
{
    for (int i = 0; i < 96 && vf_stats[i].name; ++i)
        printf("@STAT %s %" PRIu64 "\n", vf_stats[i].name, (uint64_t)vf_stats[i].n);
    if (vf_hashfile) {
        FILE *f = fopen(vf_hashfile, "ab");
        if (f) {
            for (size_t i = 0; i < vf_hs_cap; ++i) if (vf_hs[i]) fwrite(&vf_hs[i], 8, 1, f);
            fclose(f);
        }
    }
    printf("@DONE %" PRIu64 "\n", vf_cases);
    fflush(stdout);
    exit(rc);
}

/* ---- hostile scheduling ---- */
static inline void vf_delay(struct rng *r, unsigned pct)
{
    if (!rndp(r, pct)) return;
    switch (rndn(r, 4)) {
    case 0: case 1: sched_yield(); break;
    case 2: { volatile int x = 0; for (int n = rndn(r, 2000); n; --n) ++x; break; }
    case 3: { struct timespec ts = { 0, (long)rndn(r, 60000) }; nanosleep(&ts, NULL); break; }
    }
}
static inline uint64_t vf_now(void)
{
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return (uint64_t)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

/* ---- signals at random times: vf_storm_begin() blocks them in the calling thread
 * and those it creates, vf_storm_here() admits them ---- */
static _Atomic int vf_storm_on; static _Atomic long vf_storm_n; static pthread_t vf_storm_t; static int vf_storm_us;
static void vf_storm_handler(int s) { (void)s; atomic_fetch_add_explicit(&vf_storm_n, 1, memory_order_relaxed); }
static void vf_storm_mask(int how) { sigset_t m; sigemptyset(&m); sigaddset(&m, SIGUSR1); pthread_sigmask(how, &m, NULL); }
static void *vf_storm_run(void *a)
{
    struct rng r = vf_rng((uintptr_t)a, 0, 1);
    while (atomic_load(&vf_storm_on)) {
        struct timespec ts = { 0, 1000 * (1 + (long)rndn(&r, vf_storm_us)) };
        nanosleep(&ts, NULL);
        kill(getpid(), SIGUSR1);
    }
    return NULL;
}
__attribute__((unused)) static void vf_storm_begin(int us, uint64_t seed)
{
    struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = vf_storm_handler;    /* without SA_RESTART */
    sigaction(SIGUSR1, &sa, NULL);
    vf_storm_mask(SIG_BLOCK); vf_storm_us = us; atomic_store(&vf_storm_on, us > 0);
    if (us && pthread_create(&vf_storm_t, NULL, vf_storm_run, (void *)(uintptr_t)seed)) exit(2);
}
__attribute__((unused)) static void vf_storm_here(void) { vf_storm_mask(SIG_UNBLOCK); }
__attribute__((unused)) static void vf_storm_end(void)
{
    if (!atomic_exchange(&vf_storm_on, 0)) return;
    pthread_join(vf_storm_t, NULL);
    vf_count("signals-delivered", atomic_exchange(&vf_storm_n, 0));
}
#endif
