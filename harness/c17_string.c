/* C17: transactional string, memory and conversion functions against the C
 * library.  Two worlds of identical heap blocks of exact size: the C function
 * runs on one, the transactional one on the other; return values, contents
 * seen by the transaction, and contents after commit have to be the same, and
 * an abort has to restore the transactional world. */
#include "vf_tx.h"
#include <time.h>
#include <locale.h>
#include <wchar.h>
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#include "picotm/string.h"
#include "picotm/string-tm.h"
#include "picotm/stdio.h"
#include "picotm/stdio-tm.h"
#include "picotm/time.h"
extern int __xpg_strerror_r(int, char*, size_t);

#define NB 5
#define MAXB 260
static char *tb[NB], *rb[NB], *snap[NB];
static size_t bs[NB];
static struct rng R;
static uint64_t H;
static bool tm;
static char trace[1500]; static size_t tlen;
static void tr(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    if (tlen < sizeof(trace) - 60) tlen += vsnprintf(trace + tlen, sizeof(trace) - tlen, fmt, ap);
    if (tlen >= sizeof(trace)) tlen = sizeof(trace) - 1;
    va_end(ap);
}
#define P(b, o) ((char*)(w ? tb[b] : rb[b]) + (o))
static void priv_all(void) { for (int i = 0; i < NB; ++i) privatize_tx(tb[i], bs[i], PICOTM_TM_PRIVATIZE_LOADSTORE); }
/* errno before the transaction, and as the last transactional operation left it */
static int errno0; static volatile int cur_e;
#define BOTH(T, name, ...) T rr; T rt; { const int w = 0; rr = (T)name(__VA_ARGS__); } \
    errno = cur_e; { const int w = 1; if (tm) { priv_all(); rt = (T)name##_tm(__VA_ARGS__); } else rt = (T)name##_tx(__VA_ARGS__); } cur_e = errno; \
    tr(" " #name "%s", tm ? "_tm" : ""); vf_count(#name, 1);
static void cmp_i(const char *f, long r, long t) { if (r != t) { char sig[40]; snprintf(sig, 40, "ret:%s", f); vf_viol(sig, "%s_tx returned %ld, the C function %ld; ops:%s", f, t, r, trace); } }
static int sgn(long x) { return x < 0 ? -1 : x > 0; }
#define CI(name) cmp_i(#name, (long)rr, (long)rt)
#define CS(name) cmp_i(#name, sgn(rr), sgn(rt))
#define CP(name, b) cmp_i(#name, (rr) ? (long)((char*)(rr) - rb[b]) : -1000000, (rt) ? (long)((char*)(rt) - tb[b]) : -1000000)

static void fillb(char *p, size_t n)
{
    int style = rndn(&R, 5);
    for (size_t i = 0; i < n; ++i)
        p[i] = style == 0 ? (char)rnd(&R) : style == 1 ? 'a' + rndn(&R, 3) : style == 2 ? "ab \xe4\xff,"[rndn(&R, 6)]
             : style == 3 ? "0123456789 -x."[rndn(&R, 14)] : (char)(1 + rndn(&R, 255));
    if (n && rndp(&R, 90)) p[rndn(&R, 2) ? n - 1 : rndn(&R, n)] = 0;
}
static size_t off(int b) { return rndp(&R, 50) ? rndn(&R, bs[b] < 10 ? bs[b] + 1 : 10) : rndn(&R, bs[b] + 1); }
/* length of the string at b:o in the reference world, -1 if it is none */
static long slen(int b, size_t o) { size_t n = strnlen(rb[b] + o, bs[b] - o); return n < bs[b] - o ? (long)n : -1; }
static char rchar(int b)
{
    return rndp(&R, 60) && bs[b] ? rb[b][rndn(&R, bs[b])] : (char)rnd(&R);
}
static int rint_c(int b) { char c = rchar(b); return rndp(&R, 50) ? (int)c : rndp(&R, 90) ? (int)(unsigned char)c : (int)(unsigned char)c + 512; }
static size_t qw;
static int cmpu(const void *a, const void *b) { return memcmp(a, b, qw); }   /* equal elements are identical */
static void cmp_world(const char *when)
{
    for (int b = 0; b < NB; ++b)
        if (bs[b] && memcmp(tb[b], rb[b], bs[b])) {
            size_t i = 0; while (tb[b][i] == rb[b][i]) ++i;
            vf_viol(when, "byte %zu of block %d (%zu bytes) is %02x, expected %02x; ops:%s", i, b, bs[b], (unsigned char)tb[b][i], (unsigned char)rb[b][i], trace);
            return;
        }
}
static char lastop[40];
static void cmp_in_tx(void)
{
    char t[MAXB];
    for (int b = 0; b < NB; ++b) {
        load_tx(tb[b], t, bs[b]);
        if (bs[b] && memcmp(t, rb[b], bs[b])) {
            size_t i = 0; while (t[i] == rb[b][i]) ++i;
            char sig[64]; snprintf(sig, sizeof(sig), "mem:%.40s", lastop);
            vf_viol(sig, "byte %zu of block %d (%zu bytes) reads %02x in the transaction, expected %02x; ops:%s", i, b, bs[b], (unsigned char)t[i], (unsigned char)rb[b][i], trace);
            memcpy(rb[b], t, bs[b]);
        }
    }
}
static const char *const fmts[] = { "%Y-%m-%d", "%H:%M:%S", "%a %b %e", "%j", "", "x%%y%y" };
static int expect_errno;

#define SNPF(fmt, ...) do { int rr, rt; struct rng sv = R; \
    { const int w = 0; rr = snprintf(P(a, oa), n, fmt, ##__VA_ARGS__); } \
    R = sv; errno = cur_e; { const int w = 1; if (tm) { priv_all(); rt = snprintf_tm(P(a, oa), n, fmt, ##__VA_ARGS__); } else rt = snprintf_tx(P(a, oa), n, fmt, ##__VA_ARGS__); } cur_e = errno; \
    tr(" snprintf(%zu,\"%s\")", n, fmt); vf_count("snprintf", 1); cmp_i("snprintf", rr, rt); } while (0)
#define SCNF(fmt, ...) do { int rr, rt; \
    { const int w = 0; rr = sscanf(P(b, ob), fmt, ##__VA_ARGS__); } \
    errno = cur_e; { const int w = 1; if (tm) { priv_all(); rt = sscanf_tm(P(b, ob), fmt, ##__VA_ARGS__); } else rt = sscanf_tx(P(b, ob), fmt, ##__VA_ARGS__); } cur_e = errno; \
    tr(" sscanf(\"%s\")", fmt); vf_count("sscanf", 1); cmp_i("sscanf", rr, rt); } while (0)

static void op(void)
{
    int a = rndn(&R, NB), b = (a + 1 + rndn(&R, NB - 1)) % NB;
    size_t oa = off(a), ob = off(b);
    size_t ra = bs[a] - oa, rbm = bs[b] - ob;
    long la = slen(a, oa), lb = slen(b, ob);
    size_t mn = ra < rbm ? ra : rbm;
    size_t n = rndp(&R, 15) ? mn : rndn(&R, mn + 1);
    size_t na = rndp(&R, 15) ? ra : rndn(&R, ra + 1);
    int c = rint_c(b);
    int k = rndn(&R, 44);
    tm = rndp(&R, 15);
    H = vf_hash(H, &k, sizeof(k)); H = vf_hash(H, &n, sizeof(n)); H = vf_hash(H, &la, sizeof(la));
    switch (k) {
    case 0: { BOTH(char*, memccpy, P(a, oa), P(b, ob), c, n); CP(memccpy, a); break; }
    case 1: { BOTH(char*, memchr, P(a, oa), c, na); CP(memchr, a); break; }
    case 2: { BOTH(long, memcmp, P(a, oa), P(b, ob), n); CS(memcmp); break; }
    case 3: { BOTH(char*, memcpy, P(a, oa), P(b, ob), n); CP(memcpy, a); break; }
    case 4: case 5: {
        size_t o2 = off(a); size_t r2 = bs[a] - o2; size_t m = rndn(&R, (r2 < ra ? r2 : ra) + 1);
        BOTH(char*, memmove, P(a, oa), P(a, o2), m); CP(memmove, a); break; }
    case 6: { BOTH(char*, memset, P(a, oa), c, na); CP(memset, a); break; }
    case 7: { BOTH(char*, memrchr, P(a, oa), c, na); CP(memrchr, a); break; }
    case 8: if (memchr(rb[b] + ob, c, rbm)) { BOTH(char*, rawmemchr, P(b, ob), c); CP(rawmemchr, b); } break;
    case 9: if (lb >= 0 && lb < (long)ra) { BOTH(char*, stpcpy, P(a, oa), P(b, ob)); CP(stpcpy, a); } break;
    case 10: if (lb >= 0 || na <= rbm) { BOTH(char*, stpncpy, P(a, oa), P(b, ob), na); CP(stpncpy, a); } break;
    case 11: if (la >= 0 && lb >= 0 && la + lb < (long)ra) { BOTH(char*, strcat, P(a, oa), P(b, ob)); CP(strcat, a); } break;
    case 12: if (lb >= 0) { BOTH(char*, strchr, P(b, ob), c); CP(strchr, b); } break;
    case 13: if (la >= 0 && lb >= 0) { BOTH(long, strcmp, P(a, oa), P(b, ob)); CS(strcmp); } break;
    case 14: if (la >= 0 && lb >= 0) {
        locale_t l = newlocale(LC_ALL_MASK, "C", (locale_t)0);
        BOTH(long, strcoll_l, P(a, oa), P(b, ob), l); CS(strcoll_l);
        freelocale(l); } break;
    case 15: if (lb >= 0 && lb < (long)ra) { BOTH(char*, strcpy, P(a, oa), P(b, ob)); CP(strcpy, a); } break;
    case 16: if (la >= 0 && lb >= 0) { BOTH(long, strcspn, P(a, oa), P(b, ob)); CI(strcspn); } break;
    case 17: if (lb >= 0) {
        BOTH(char*, strdup, P(b, ob));
        char t[MAXB]; load_tx(rt, t, lb + 1);
        if (memcmp(t, rr, lb + 1)) vf_viol("strdup", "copy differs; ops:%s", trace);
        free(rr); free_tx(rt); } break;
    case 18: if (lb >= 0 || n <= rbm) {
        size_t m = lb >= 0 && rndp(&R, 40) ? (rndp(&R, 30) ? SIZE_MAX - 8 : (size_t)lb + rndn(&R, 40)) : rndn(&R, rbm + 1);
        BOTH(char*, strndup, P(b, ob), m);
        size_t l = strlen(rr);
        char t[MAXB]; load_tx(rt, t, l + 1);
        if (memcmp(t, rr, l + 1)) vf_viol("strndup", "copy of up to %zu differs; ops:%s", m, trace);
        free(rr); free_tx(rt); } break;
    case 19: if (lb >= 0) { BOTH(long, strlen, P(b, ob)); CI(strlen); } break;
    case 20: if (la >= 0) {
        size_t room = ra - la;     /* including the terminator */
        size_t m = lb >= 0 && lb < (long)room ? (rndp(&R, 20) ? SIZE_MAX : (size_t)lb + rndn(&R, 10)) : room ? room - 1 : 0;
        if (lb < 0 && m > rbm) m = rbm;
        if (rndp(&R, 50)) m = rndn(&R, (room - 1 < rbm ? room - 1 : rbm) + 1);
        BOTH(char*, strncat, P(a, oa), P(b, ob), m); CP(strncat, a); } break;
    case 21: {
        size_t m = la >= 0 && lb >= 0 && rndp(&R, 40) ? (rndp(&R, 50) ? SIZE_MAX : rndn(&R, 500)) : n;
        BOTH(long, strncmp, P(a, oa), P(b, ob), m); CS(strncmp); break; }
    case 22: if (lb >= 0 || na <= rbm) { BOTH(char*, strncpy, P(a, oa), P(b, ob), na); CP(strncpy, a); } break;
    case 23: {
        size_t m = lb >= 0 && rndp(&R, 40) ? (rndp(&R, 50) ? SIZE_MAX : rndn(&R, 500)) : rndn(&R, rbm + 1);
        BOTH(long, strnlen, P(b, ob), m); CI(strnlen); break; }
    case 24: if (la >= 0 && lb >= 0) { BOTH(char*, strpbrk, P(a, oa), P(b, ob)); CP(strpbrk, a); } break;
    case 25: if (lb >= 0) { BOTH(char*, strrchr, P(b, ob), c); CP(strrchr, b); } break;
    case 26: if (la >= 0 && lb >= 0) { BOTH(long, strspn, P(a, oa), P(b, ob)); CI(strspn); } break;
    case 27: if (la >= 0 && lb >= 0) { BOTH(char*, strstr, P(a, oa), P(b, ob)); CP(strstr, a); } break;
    case 28: case 29: if (la >= 0 && lb >= 0) {
        char *sr = NULL; static char *st; st = NULL;
        int cnt = 0;
        for (char *r = rb[a] + oa, *t = tb[a] + oa; cnt < 6; ++cnt) {
            char *r1 = strtok_r(cnt ? NULL : r, rb[b] + ob, &sr), *t1;
            if (tm) { priv_all(); privatize_tx(&st, sizeof(st), PICOTM_TM_PRIVATIZE_LOADSTORE); t1 = strtok_r_tm(cnt ? NULL : t, tb[b] + ob, &st); }
            else t1 = strtok_r_tx(cnt ? NULL : t, tb[b] + ob, &st);
            tr(" strtok_r%s", tm ? "_tm" : "");
            { char *rr = r1, *rt = t1; CP(strtok_r, a); }
            char *sv = load_ptr_tx(&st);
            if (!sr != !sv || (sr && sr - rb[a] != sv - tb[a])) { vf_viol("strtok_r-saveptr", "saved position differs; ops:%s", trace); break; }
            if (!r1) break;
        }
        vf_count("strtok_r", cnt + 1); } break;
    case 30: {
        size_t wd = 1 + rndn(&R, 9), ne = rndn(&R, ra / wd + 1);
        qw = wd;
        { qsort(rb[a] + oa, ne, wd, cmpu); if (tm) { priv_all(); qsort_tm(tb[a] + oa, ne, wd, cmpu); } else qsort_tx(tb[a] + oa, ne, wd, cmpu); }
        tr(" qsort"); vf_count("qsort", 1); break; }
    case 31: {
        size_t o = oa & ~3ul; if (o + 4 > bs[a]) break;
        BOTH(long, rand_r, (unsigned*)P(a, o)); CI(rand_r); break; }
    case 32: case 33: case 34: case 35: {
        n = rndp(&R, 20) ? 0 : na;
        if (lb < 0) break;
        /* source string may not overlap the output: another block */
        switch (rndn(&R, 16)) {
        case 0: SNPF("%d:%s", (int)rnd(&R), P(b, ob)); break;
        case 1: SNPF("%s%s", P(b, ob), P(b, ob)); break;
        case 2: SNPF("%5d|%-8s|%08.3f", (int)rndn(&R, 99999), P(b, ob), (double)(int)rnd(&R) / 64); break;
        case 3: SNPF("%.*s", (int)rndn(&R, 30), P(b, ob)); break;
        case 4: SNPF("%ld %lld %zu %jd %td", (long)rnd(&R), (long long)rnd(&R), (size_t)rnd(&R), (intmax_t)rnd(&R), (ptrdiff_t)rnd(&R)); break;
        case 5: SNPF("%c%c%x%X%o%u", 'a', 0, (unsigned)rnd(&R), (unsigned)rnd(&R), (unsigned)rnd(&R), (unsigned)rnd(&R)); break;
        case 6: SNPF("%g %e %a %G %E %Lf", 1.5, -2e10, 0.1, 1e100, 3.0, (long double)7); break;
        case 7: SNPF("plain"); break;
        case 8: SNPF("%%%d%%%s%%", 5, P(b, ob)); break;
        case 9: SNPF("%hhd %hd %+i % i %#x", (int)(signed char)rnd(&R), (int)(short)rnd(&R), 4, 5, 6); break;
        case 10: SNPF("%*d %-*d %s", (int)rndn(&R, 20), 5, (int)rndn(&R, 20), 6, P(b, ob)); break;
        case 11: SNPF("%p %s", (void*)0x1234, P(b, ob)); break;
        case 12: SNPF("%.3s|%10.2s|%s", P(b, ob), P(b, ob), "const"); break;
        case 13: {
            int d = (b + 1) % NB; if (d == a) d = (d + 1) % NB;
            if (d == b || bs[d] < 8) break;
            SNPF("%s%n%d", P(b, ob), (int*)P(d, 0), 77); break; }
        case 14: case 15: {
            size_t o = ob; int L = rndn(&R, 6); wchar_t ws[8];
            while ((o < bs[b]) && ((uintptr_t)(tb[b] + o) % sizeof(wchar_t) || (uintptr_t)(rb[b] + o) % sizeof(wchar_t))) ++o;
            if (o + (L + 1) * sizeof(wchar_t) > bs[b]) break;
            for (int i = 0; i < L; ++i) ws[i] = 'a' + rndn(&R, 26);
            ws[L] = 0;
            memcpy(rb[b] + o, ws, (L + 1) * sizeof(wchar_t)); store_tx(tb[b] + o, ws, (L + 1) * sizeof(wchar_t));
            if (rndp(&R, 50)) SNPF("%ls|%lc|%S", (wchar_t*)P(b, o), (wint_t)'x', (wchar_t*)P(b, o));
            else SNPF("%.2ls|%.*ls|%5.1S", (wchar_t*)P(b, o), (int)rndn(&R, 6), (wchar_t*)P(b, o), (wchar_t*)P(b, o));
            vf_count("snprintf-wide", 1); break; }
        }
        break; }
    case 36: case 37: case 38: {
        if (lb < 0) break;
        if (bs[a] < 40) break;
        switch (rndn(&R, 13)) {
        case 11: case 12: {      /* a number that overflows: errno is set */
            size_t l = rbm > 32 ? 20 + rndn(&R, 10) : 0; char dg[32];
            if (!l) break;
            memset(dg, '9', l); dg[l] = 0;
            memcpy(rb[b] + ob, dg, l + 1); store_tx(tb[b] + ob, dg, l + 1);
            if (rndp(&R, 50)) SCNF("%ld", (long*)P(a, 8)); else SCNF("%lld%d", (long long*)P(a, 8), (int*)P(a, 0));
            break; }
        case 0: SCNF("%d", (int*)P(a, 0)); break;
        case 1: SCNF("%d %d", (int*)P(a, 0), (int*)P(a, 8)); break;
        case 2: SCNF("%ld%n", (long*)P(a, 8), (int*)P(a, 0)); break;
        case 3: SCNF("%3d%2x", (int*)P(a, 0), (unsigned*)P(a, 16)); break;
        case 4: SCNF("%*d%d", (int*)P(a, 0)); break;
        case 5: SCNF("%lf", (double*)P(a, 8)); break;
        case 6: SCNF("%f%f", (float*)P(a, 8), (float*)P(a, 12)); break;
        case 7: SCNF("%hhd%hd", (signed char*)P(a, 3), (short*)P(a, 6)); break;
        case 8: SCNF("%10s%3c", P(a, 0), P(a, 20)); break;
        case 9: SCNF("%9[]a0-5]%lld", P(a, 1), (long long*)P(a, 24)); break;
        case 10: SCNF("%5[^ab ]%zu%%", P(a, 1), (size_t*)P(a, 24)); break;
        }
        break; }
    case 39: {
        int e = rndp(&R, 80) ? (int)rndn(&R, 134) : (int)rnd(&R);
        if (na < 8) break;
        if (rndp(&R, 60)) {
            char *r = strerror_r(e, rb[a] + oa, na), *t;
            errno = cur_e;
            if (tm) { priv_all(); t = __strerror_r_gnu_tm(e, tb[a] + oa, na); } else t = __strerror_r_gnu_tx(e, tb[a] + oa, na);
            cur_e = errno;
            tr(" strerror_r(%d,%zu)", e, na);
            bool ri = r == rb[a] + oa, ti = t == tb[a] + oa;
            /* an implementation may fill the buffer instead of returning a constant */
            char tc[MAXB + 1] = { 0 };
            if (ti) { load_tx(t, tc, na); t = tc; }
            if (strcmp(r, t) && !(ti && !ri)) vf_viol("strerror_r", "strerror_r(%d) gives \"%s\", expected \"%s\"; ops:%s", e, t, r, trace);
            if (ti && !ri) load_tx(tb[a] + oa, rb[a] + oa, na);
        } else {
            char x[100]; if (__xpg_strerror_r(e, x, sizeof(x))) break;
            int r = strlen(x) < na ? 0 : ERANGE, t;
            errno = cur_e;
            if (tm) { priv_all(); t = __strerror_r_posix_tm(e, tb[a] + oa, na); } else t = __strerror_r_posix_tx(e, tb[a] + oa, na);
            cur_e = errno;
            tr(" strerror_r_posix(%d,%zu)", e, na);
            cmp_i("strerror_r_posix", r, t);
            if (!r) strcpy(rb[a] + oa, x); else load_tx(tb[a] + oa, rb[a] + oa, na);
        }
        vf_count("strerror_r", 1); break; }
    case 40: case 41: {
        struct tm x; time_t tt = (time_t)rndn(&R, 4000000000u); gmtime_r(&tt, &x);
        const char *f = fmts[rndn(&R, 6)];
        size_t m = na; char buf[MAXB];
        memcpy(buf, rb[a], bs[a]);
        long rr = strftime(rb[a] + oa, m, f, &x);
        static struct tm sx; store_tx(&sx, &x, sizeof(x));
        long rt;
        if (k == 40) rt = strftime_tx(tb[a] + oa, m, f, &sx);
        else { locale_t l = newlocale(LC_ALL_MASK, "C", (locale_t)0); rt = strftime_l_tx(tb[a] + oa, m, f, &sx, l); freelocale(l); }
        tr(" strftime"); vf_count("strftime", 1);
        cmp_i("strftime", rr, rt);
        if (!rr) load_tx(tb[a] + oa, rb[a] + oa, m);   /* contents are unspecified */
        break; }
    case 42: {
        static struct tm st; struct tm sr; memset(&sr, 0, sizeof(sr)); store_tx(&st, &sr, sizeof(sr));
        const char *in[] = { "2021-03-04", "12:34:56", "Mon Jan  3", "bad", "077" };
        const char *s = in[rndn(&R, 5)], *f = fmts[rndn(&R, 4)];
        char *r = strptime(s, f, &sr), *t = strptime_tx(s, f, &st);
        tr(" strptime(%s,%s)", s, f); vf_count("strptime", 1);
        if (r != t) vf_viol("ret:strptime", "strptime_tx returned %ld, expected %ld", t ? (long)(t - s) : -1, r ? (long)(r - s) : -1);
        struct tm x; load_tx(&st, &x, sizeof(x));
        if (memcmp(&x, &sr, offsetof(struct tm, tm_gmtoff))) vf_viol("mem:strptime", "strptime_tx(%s, %s) stored a different time", s, f);
        break; }
    case 43: if (bs[b] >= 2 && rndp(&R, 50)) { char z = 0; size_t o = rndn(&R, bs[b]); rb[b][o] = 0; store_tx(tb[b] + o, &z, 1); tr(" term"); } break;
    }
    vf_count("operations", 1);
}

static void make_world(void)
{
    for (int b = 0; b < NB; ++b) {
        bs[b] = rndp(&R, 20) ? rndn(&R, 9) : rndp(&R, 70) ? rndn(&R, 80) : rndn(&R, MAXB - 10);
        tb[b] = malloc(bs[b]); rb[b] = malloc(bs[b]); snap[b] = malloc(bs[b]);
        if (!bs[b]) { }
        fillb(rb[b], bs[b]);
        memcpy(tb[b], rb[b], bs[b]);
    }
}
static void drop_world(void) { for (int b = 0; b < NB; ++b) { free(tb[b]); free(rb[b]); free(snap[b]); } }
static volatile int execs, aborts;
static bool give_up;
static void check_errno(const char *when)
{
    int e = errno; char sig[40]; snprintf(sig, sizeof(sig), "errno:%s", when);
    if (e != errno0) vf_viol(sig, "errno is %d, before the transaction it was %d; ops:%s", e, errno0, trace);
    if (cur_e != errno0) vf_count("errno-restored", 1);
}
static void begin_exec(void)
{
    if (execs) check_errno("restart");
    cur_e = errno0;
    if (execs++) {
        for (int b = 0; b < NB; ++b) {
            if (bs[b] && memcmp(tb[b], snap[b], bs[b])) vf_viol("after-abort", "block %d is not as before the aborted execution; ops:%s", b, trace);
            memcpy(rb[b], snap[b], bs[b]);
        }
        vf_count("aborted", 1);
    }
    tr(" |");
}
static void seq_case(uint64_t c)
{
    R = vf_rng(vf_seed, c, 21); H = 0;
    make_world();
    int ntx = 1 + rndn(&R, 4);
    for (int i = 0; i < ntx; ++i) {
        tlen = 0; trace[0] = 0;
        for (int b = 0; b < NB; ++b) memcpy(snap[b], rb[b], bs[b]);
        execs = 0; aborts = rndp(&R, 40) ? 1 + rndn(&R, 2) : 0; give_up = rndp(&R, 15);
        volatile bool ok = false;
        errno = errno0 = cur_e = 1 + rndn(&R, 130);
        picotm_begin
            begin_exec();
            int n = 1 + rndn(&R, 8);
            for (int j = 0; j < n; ++j) {
                size_t t0 = tlen; op();
                snprintf(lastop, sizeof(lastop), "%.*s", (int)strcspn(trace + t0 + 1, " (%"), trace + t0 + (tlen > t0));
                if (rndp(&R, 50)) cmp_in_tx();
            }
            errno = cur_e;
            if (aborts) { --aborts; vf_conflict(); }
            if (give_up) picotm_recover_from_errno(77);
            ok = true;
        picotm_commit
            ok = false;
            int e = picotm_error_status() == PICOTM_ERRNO ? picotm_error_as_errno() : -1;
            if (!give_up || e != 77) vf_viol("error", "recovery with status %d errno %d; ops:%s", (int)picotm_error_status(), e, trace);
        picotm_end
        if (!ok) check_errno("after give-up");
        if (!ok) { for (int b = 0; b < NB; ++b) memcpy(rb[b], snap[b], bs[b]); vf_count("given-up", 1); }
        else vf_count("committed", 1);
        cmp_world(ok ? "after-commit" : "after-give-up");
        if (!vf_more()) break;
    }
    drop_world();
    vf_distinct(H);
    if (c % 9973 == 5) vf_sample("last transaction:%s", trace);
}
int main(int argc, char **argv)
{
    vf_init(argc, argv);
    for (uint64_t c = vf_from; c < vf_from + vf_cases && vf_more(); ++c) { vf_case(c); seq_case(c); }
    vf_finish(0);
}
