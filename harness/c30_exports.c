/* C30: the shared libraries provide the functions of the public headers.
 * The library is compiled with -fvisibility=hidden, as picotm's build does, so
 * only what it exports explicitly is in the dynamic symbol table of this
 * program. Each name is looked up as a program that links to the shared
 * libraries would; the thread functions are then called in transactions. */
#include "vf_tx.h"
#include <dirent.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <pthread.h>
#include "picotm/picotm-tm.h"
#include "picotm/pthread.h"
#include "c02_types.h"

static const char *const names[] = {
#define N(x) #x,
#include "c30_names.h"
};
#define NNAMES (sizeof(names) / sizeof(*names))
static pthread_t shared_thread;

static void *thread(void *arg)
{
    struct rng r = vf_rng(vf_seed, 30, (long)arg);
    pthread_t (*self_tx)(void) = dlsym(RTLD_DEFAULT, "pthread_self_tx");
    int (*equal_tx)(pthread_t, pthread_t) = dlsym(RTLD_DEFAULT, "pthread_equal_tx");
    if (!self_tx || !equal_tx) return NULL;
    for (int i = 0; i < 50; ++i) {
        volatile bool same = false, alien = true;
        picotm_begin
            pthread_t t = self_tx();
            store_pthread_t_tx(&shared_thread, t);
            vf_delay(&r, 20);
            same = equal_tx(load_pthread_t_tx(&shared_thread), pthread_self());
            alien = equal_tx(t, *(pthread_t*)arg);
        picotm_commit
            vf_viol("pthread-error", "thread transaction failed with error %d", (int)picotm_error_status());
        picotm_end
        if (!same) vf_viol("pthread-self", "a thread does not equal itself in its transaction");
        if (alien) vf_viol("pthread-equal", "a thread equals the main thread");
        vf_count("thread-transactions", 1);
    }
    picotm_release();
    return NULL;
}

/* Headers and programs: each public header is the first one of a program, and
 * the programs in programs/ use the interfaces as an application does. They
 * are compiled from the tree's headers and linked to the library of this
 * executable's build. */
static char *headers[256]; static int nheaders;
static char root[512], repo[512], incs[8192], self[512];
static const char *const cc[] = { "gcc -std=gnu11", "gcc -std=gnu17", "clang -std=gnu11", "clang -std=gnu17" };
static const char *const programs[] = { "static_objects", "static_shared_ref", "static_containers", "minimal", "own_types", "strerror_gnu", "strerror_posix" };
#define NCC 4
#define NPROG 7

/* the configuration headers, as configure makes them from the tree's templates */
static char gen[600];
static void configure_one(const char *dir, const char *name, char *const *def, int ndef)
{
    char p[1600], l[600]; snprintf(p, sizeof(p), "%s/include/picotm/config/%s", dir, name);
    FILE *i = fopen(p, "r"); if (!i) return;
    snprintf(p, sizeof(p), "%s/picotm/config/%.*s", gen, (int)strlen(name) - 3, name);
    FILE *o = fopen(p, "w"); if (!o) { perror(p); exit(2); }
    while (fgets(l, sizeof(l), i)) {
        char n[400]; int k = 0;
        if (sscanf(l, " # undef %399s", n) != 1 && sscanf(l, " #undef %399s", n) != 1) { fputs(l, o); continue; }
        while (k < ndef && (strncmp(def[k], n, strlen(n)) || !strchr(" \n", def[k][strlen(n)]))) ++k;
        if (k < ndef) fprintf(o, "#define %s", def[k]); else fprintf(o, "/* #undef %s */\n", n);
    }
    fclose(i); fclose(o);
}
static void configure(const char *const *mods, int nmods)
{
    static char *def[4000]; int nd = 0; char p[1600], l[600];
    snprintf(gen, sizeof(gen), "%s/gen-%d", vf_dir, (int)getpid());
    snprintf(p, sizeof(p), "mkdir -p %s/picotm/config", gen); if (system(p)) exit(2);
    snprintf(p, sizeof(p), "%s/config/config.h", root);
    FILE *f = fopen(p, "r"); if (!f) { perror(p); exit(2); }
    while (fgets(l, sizeof(l), f)) if (!strncmp(l, "#define ", 8) && nd < 4000) def[nd++] = strdup(l + 8);
    fclose(f);
    for (int i = -1; i < nmods; ++i) {
        char dir[1000], q[1100]; snprintf(dir, sizeof(dir), i < 0 ? "%s" : "%s/modules/%s", repo, i < 0 ? "" : mods[i]);
        snprintf(q, sizeof(q), "%s/include/picotm/config", dir);
        DIR *d = opendir(q);
        for (struct dirent *e; d && (e = readdir(d));) { size_t n = strlen(e->d_name); if (n > 5 && !strcmp(e->d_name + n - 5, ".h.in")) configure_one(dir, e->d_name, def, nd); }
        if (d) closedir(d);
    }
    while (nd) free(def[--nd]);
}
/* every documented interface is declared once the public headers are included */
static const char *const macros[] = { "strerror_r_tx", "strerror_r_tm" };
#define TYPEN(name, type, p0, p1) #name,
static const char *const types[] = { TYPES(TYPEN) };
static int run(const char *cmd, char *buf, size_t len);
static void check_declared(int c, bool gnu)
{
    char cmd[12000], src[700]; static char out[100000];
    snprintf(src, sizeof(src), "%s/decl-%d-%d.c", gen, c, gnu);
    FILE *f = fopen(src, "w"); if (!f) { perror(src); exit(2); }
    for (int i = 0; i < nheaders; ++i) fprintf(f, "#include <%s>\n", headers[i]);
    fprintf(f, "void *p[] = {\n");
    for (int i = 0; i < NNAMES; ++i) if (strncmp(names[i], "__", 2) && (gnu || strncmp(names[i], "mknod", 5) /* an extension */)) fprintf(f, "(void*)%s,\n", names[i]);
    for (size_t i = 0; i < sizeof(macros) / sizeof(*macros); ++i) fprintf(f, "(void*)%s,\n", macros[i]);
    for (size_t i = 0; i < sizeof(types) / sizeof(*types); ++i) if (strcmp(types[i], "own")) fprintf(f, "(void*)load_%s_tx, (void*)store_%s_tx, (void*)privatize_%s_tx,\n", types[i], types[i], types[i]);
    fprintf(f, "};\nint main(void) { return !p[0]; }\n");
    /* a function of the C library has its type */
    for (int i = 0; gnu && i < NNAMES; ++i) {
        char base[100]; int n = strlen(names[i]) - 3;
        if (!strncmp(names[i], "__", 2)) continue;
        snprintf(base, sizeof(base), "%.*s", n, names[i]);
        if (!dlsym(RTLD_DEFAULT, base)) continue;
        fprintf(f, "_Static_assert(__builtin_types_compatible_p(__typeof__(%s), __typeof__(%s)), \"%s has another type than %s\");\n", names[i], base, names[i], base);
        vf_count("prototypes-checked", 1);
    }
    fclose(f);
    snprintf(cmd, sizeof(cmd), "%s -w %s %s -fsyntax-only %s %s 2>&1", cc[c], gnu ? "-D_GNU_SOURCE" : "", strstr(cc[c], "clang") ? "-ferror-limit=0" : "", incs, src);
    int rc = run(cmd, out, sizeof(out));
    unlink(src);
    if (rc == 127) return;
    int nv = 0;
    for (char *e = out; rc && nv < 40 && (e = strstr(e, "error:")); e += 6) { vf_viol("not-declared", "with all public headers (%s%s): %.100s", cc[c], gnu ? ", _GNU_SOURCE" : "", e); ++nv; }
    if (rc && !nv) vf_viol("not-declared", "with all public headers (%s): %.200s", cc[c], out);
    vf_count("declarations-checked", NNAMES);
    vf_distinct(vf_hash(0xcbf29ce484222325ull, "decl", 4) + c * 2 + gnu);
}

static int by_name(const void *a, const void *b) { return strcmp(*(char *const*)a, *(char *const*)b); }

static void scan(const char *dir, const char *sub)
{
    char p[1600]; snprintf(p, sizeof(p), "%s/%s", dir, sub);
    DIR *d = opendir(p);
    for (struct dirent *e; d && (e = readdir(d));) {
        size_t n = strlen(e->d_name);
        char q[800]; snprintf(q, sizeof(q), "%s/%s", sub, e->d_name);
        if (e->d_type == DT_DIR && e->d_name[0] != '.' && strcmp(e->d_name, "config")) scan(dir, q);
        else if (n > 2 && !strcmp(e->d_name + n - 2, ".h") && nheaders < 256) headers[nheaders++] = strdup(q);
    }
    if (d) closedir(d);
}

static void find_headers(void)
{
    static const char *const mods[] = { "arithmetic", "cast", "libc", "libm", "libpthread", "ptrdata", "tm", "txlib" };
    const char *e = getenv("VF_REPO");
    snprintf(repo, sizeof(repo), "%s", e ? e : "/repo");
    snprintf(root, sizeof(root), "%s", __FILE__);
    for (int i = 0; i < 2; ++i) { char *s = strrchr(root, '/'); if (s) *s = 0; }
    configure(mods, 8);
    int n = snprintf(incs, sizeof(incs), "-I%s -I%s/include", gen, repo);
    char d[800]; snprintf(d, sizeof(d), "%s/include", repo); scan(d, "picotm");
    for (int i = 0; i < 8; ++i) {
        snprintf(d, sizeof(d), "%s/modules/%s/include", repo, mods[i]); scan(d, "picotm");
        n += snprintf(incs + n, sizeof(incs) - n, " -I%s", d);
    }
    qsort(headers, nheaders, sizeof(*headers), by_name);
    ssize_t l = readlink("/proc/self/exe", self, sizeof(self) - 1);
    if (l > 0) { self[l] = 0; char *s = strrchr(self, '/'); if (s) *s = 0; }
}

/* -> exit code, output in buf */
static int run(const char *cmd, char *buf, size_t len)
{
    FILE *f = popen(cmd, "r");
    size_t n = f ? fread(buf, 1, len - 1, f) : 0;
    buf[n] = 0;
    for (char *p = buf; *p; ++p) if (*p == '\n') *p = ' ';
    int st = f ? pclose(f) : -1;
    return WIFEXITED(st) ? WEXITSTATUS(st) : 200;
}

static void check_header(int h, int c)
{
    char cmd[12000], out[600];
    snprintf(cmd, sizeof(cmd), "echo '#include <%s>' | %s -w -fsyntax-only %s -x c - 2>&1", headers[h], cc[c], incs);
    int rc = run(cmd, out, sizeof(out));
    char *e = strstr(out, "error:");
    if (rc == 127) return; /* no such compiler */
    if (rc) vf_viol("header-alone", "<%s> as the first header of a program (%s): %.200s", headers[h], cc[c], e ? e : out);
    vf_count("headers-compiled", 1);
    vf_distinct(vf_hash(0xcbf29ce484222325ull, headers[h], strlen(headers[h])) + c);
}

static void check_program(int p, int c)
{
    char cmd[12000], out[600], exe[600];
    snprintf(exe, sizeof(exe), "./prog-%s-%d-%d", programs[p], c, (int)getpid());
    snprintf(cmd, sizeof(cmd), "%s -w -O1 %s %s/harness/programs/%s.c %s/libpicotm-all.a -lm -pthread -o %s 2>&1",
             cc[c], incs, root, programs[p], self, exe);
    int rc = run(cmd, out, sizeof(out));
    if (rc == 127) return;
    char *e = strstr(out, "error:");
    if (rc) {
        vf_viol("program-build", "%s.c does not build (%s): %.200s", programs[p], cc[c], e ? e : out);
    } else {
        snprintf(cmd, sizeof(cmd), "%s 2>&1", exe);
        rc = run(cmd, out, sizeof(out));
        if (rc) vf_viol("program-run", "%s.c (%s) exits with %d: %.200s", programs[p], cc[c], rc, out);
        unlink(exe);
    }
    vf_count("programs-run", 1);
    vf_distinct(vf_hash(0xcbf29ce484222325ull, programs[p], strlen(programs[p])) + c);
}

int main(int argc, char **argv)
{
    vf_init(argc, argv);
    find_headers();
    for (uint64_t c = vf_from; c < vf_from + vf_cases && vf_more(); ++c) {
        vf_case(c);
        if (c < NNAMES) {
            const char *n = names[c];
            void *p = dlsym(RTLD_DEFAULT, n);
            if (!p) vf_viol("not-exported", "the shared library does not provide %s()", n);
            else vf_count("functions-found", 1);
            if (c < 3) vf_sample("%s", n);
            vf_distinct(vf_hash(0xcbf29ce484222325ull, n, strlen(n)));
        } else if (c < NNAMES + NPROG * NCC) {
            check_program((c - NNAMES) % NPROG, (c - NNAMES) / NPROG);
        } else if (c < NNAMES + NPROG * NCC + (unsigned)nheaders * NCC) {
            uint64_t i = c - NNAMES - NPROG * NCC;
            check_header(i / NCC, i % NCC);
        } else if (c < NNAMES + NPROG * NCC + (unsigned)nheaders * NCC + 2 * NCC) {
            uint64_t i = c - NNAMES - NPROG * NCC - (uint64_t)nheaders * NCC;
            check_declared(i / 2, i & 1);
        } else {
            pthread_t th[4]; pthread_t me = pthread_self();
            for (long i = 0; i < 4; ++i) pthread_create(&th[i], NULL, thread, &me);
            for (long i = 0; i < 4; ++i) pthread_join(th[i], NULL);
            vf_distinct(c);
        }
    }
    picotm_release();
    { char p[700]; snprintf(p, sizeof(p), "rm -rf '%s'", gen); if (gen[0] == '/' && system(p)) exit(2); }
    vf_finish(0);
}
