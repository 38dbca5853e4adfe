/* Interposed allocator (linked with -Wl,--wrap=...): ledger of live blocks and
 * failure injection.  Sees every allocation of the library and the harness,
 * none of the C library's own. */
#ifndef VF_MEM_H
#define VF_MEM_H
#include "vf.h"
#include <malloc.h>
#define VF_WRAP_FLAGS /* see jobs.py */

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VM_NOLEDGER 1     /* its lock would hide races */
#endif
#endif

void *__real_malloc(size_t n);
void *__real_calloc(size_t m, size_t n);
void *__real_realloc(void *p, size_t n);
int __real_posix_memalign(void **p, size_t a, size_t n);
void __real_free(void *p);

/* ---- ledger ---- */
enum { VM_NONE, VM_LIVE, VM_DEAD };
#define VM_CAP (1u << 18)
struct vm_ent { void *p; uint32_t size; uint32_t state; uint64_t seq; };
static struct vm_ent vm_tab[VM_CAP];
static pthread_mutex_t vm_lock = PTHREAD_MUTEX_INITIALIZER;
static size_t vm_live, vm_used;
static uint64_t vm_seq;
static _Atomic uint64_t vm_badfree;
static __thread bool vm_off;
static void (*vm_free_hook)(void *p);      /* called before a block is released */

static struct vm_ent *vm_slot(void *p, bool add)
{
    size_t i = vf_mix((uintptr_t)p >> 3) & (VM_CAP - 1);
    struct vm_ent *dead = NULL;
    for (size_t k = 0; k < VM_CAP; ++k, i = (i + 1) & (VM_CAP - 1)) {
        if (vm_tab[i].p == p) return &vm_tab[i];
        if (!vm_tab[i].p) { if (add) { vm_tab[i].p = p; ++vm_used; return &vm_tab[i]; } return NULL; }
    }
    return dead;
}
/* drop dead entries */
static void vm_compact(void)
{
    static struct vm_ent *tmp;
    if (!tmp) tmp = mmap(NULL, sizeof(vm_tab), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    size_t n = 0;
    for (size_t i = 0; i < VM_CAP; ++i) if (vm_tab[i].p && vm_tab[i].state == VM_LIVE) tmp[n++] = vm_tab[i];
    memset(vm_tab, 0, sizeof(vm_tab)); vm_used = 0;
    for (size_t i = 0; i < n; ++i) *vm_slot(tmp[i].p, true) = tmp[i];
}
static void vm_add(void *p, size_t n)
{
#ifndef VM_NOLEDGER
    if (!p) return;
    pthread_mutex_lock(&vm_lock);
    if (vm_used > VM_CAP / 2) vm_compact();
    struct vm_ent *e = vm_slot(p, true);
    e->size = n; e->state = VM_LIVE; e->seq = ++vm_seq;
    ++vm_live;
    pthread_mutex_unlock(&vm_lock);
#endif
}
static void vm_del(void *p)
{
#ifndef VM_NOLEDGER
    if (!p) return;
    if (vm_free_hook) vm_free_hook(p);
    pthread_mutex_lock(&vm_lock);
    struct vm_ent *e = vm_slot(p, false);
    if (e && e->state == VM_LIVE) { e->state = VM_DEAD; --vm_live; }
    else if (e) atomic_fetch_add(&vm_badfree, 1);
    pthread_mutex_unlock(&vm_lock);
#endif
}
__attribute__((unused)) static bool vm_is_live(void *p)
{
#ifndef VM_NOLEDGER
    pthread_mutex_lock(&vm_lock);
    struct vm_ent *e = vm_slot(p, false);
    bool r = e && e->state == VM_LIVE;
    pthread_mutex_unlock(&vm_lock);
    return r;
#else
    return true;
#endif
}
__attribute__((unused)) static size_t vm_size(void *p)
{
    pthread_mutex_lock(&vm_lock);
    struct vm_ent *e = vm_slot(p, false);
    size_t r = e && e->state == VM_LIVE ? e->size : 0;
    pthread_mutex_unlock(&vm_lock);
    return r;
}

/* ---- failure injection ---- */
static __thread bool vm_inject;       /* count allocations of this thread */
static __thread uint64_t vm_n;        /* allocations seen */
static __thread uint64_t vm_fail_at;  /* 1-based, 0 = never */
static __thread bool vm_fail_on;      /* and all after it */
static __thread uint64_t vm_failed;
static inline bool vm_fail(void)
{
    if (!vm_inject) return false;
    ++vm_n;
    if (!vm_fail_at || vm_n < vm_fail_at || (vm_n > vm_fail_at && !vm_fail_on)) return false;
    ++vm_failed; errno = ENOMEM;
    return true;
}
void *__wrap_malloc(size_t n)
{
    if (vm_fail()) return NULL;
    void *p = __real_malloc(n); vm_add(p, n); return p;
}
void *__wrap_calloc(size_t m, size_t n)
{
    if (vm_fail()) return NULL;
    void *p = __real_calloc(m, n); vm_add(p, m * n); return p;
}
void *__wrap_realloc(void *q, size_t n)
{
    if (vm_fail()) return NULL;
    /* the ledger may not see the old block as dead while it is still usable */
    size_t os = q ? vm_size(q) : 0;
    if (q) vm_del(q);
    void *p = __real_realloc(q, n);
    if (p) vm_add(p, n); else if (q && n) vm_add(q, os);
    return p;
}
int __wrap_posix_memalign(void **q, size_t a, size_t n)
{
    if (vm_fail()) return ENOMEM;
    int r = __real_posix_memalign(q, a, n);
    if (!r) vm_add(*q, n);
    return r;
}
#ifdef VM_LIBC   /* functions that allocate inside the C library */
#include <locale.h>
extern char *__real_strdup(const char*), *__real_realpath(const char*, char*), *__real_get_current_dir_name(void);
extern locale_t __real_newlocale(int, const char*, locale_t), __real_duplocale(locale_t);
char *__wrap_strdup(const char *s) { if (vm_fail()) return NULL; char *r = __real_strdup(s); if (r) vm_add(r, strlen(r) + 1); return r; }
char *__wrap_realpath(const char *s, char *b) { if (!b && vm_fail()) return NULL; char *r = __real_realpath(s, b); if (r && !b) vm_add(r, strlen(r) + 1); return r; }
char *__wrap_get_current_dir_name(void) { if (vm_fail()) return NULL; char *r = __real_get_current_dir_name(); if (r) vm_add(r, strlen(r) + 1); return r; }
locale_t __wrap_newlocale(int m, const char *n, locale_t b) { if (vm_fail()) return (locale_t)0; return __real_newlocale(m, n, b); }
locale_t __wrap_duplocale(locale_t l) { if (vm_fail()) return (locale_t)0; return __real_duplocale(l); }
#endif
void __wrap_free(void *p) { vm_del(p); __real_free(p); }
#endif
