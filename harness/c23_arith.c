/* C23: checked arithmetic.  Every operation of every type runs inside
 * transactions; a result or a recovery code is compared with the exact result
 * computed in a wider type.
 * ints:   one case is one (type, operation) with a batch of operand pairs;
 *         all pairs of the 8-bit types, boundary, derived and random pairs else
 * floats: float, double, long double and a bounded user type */
#include "vf_tx.h"
#include <limits.h>
#include <float.h>
#include <math.h>
#include <fenv.h>
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-arithmetic.h"
#include "picotm/picotm-arithmetic-ctypes.h"

enum { ADD, SUB, MUL, DIV, NOPS };
static const char *const opn[] = { "add", "sub", "mul", "div" };
static struct rng R;
#define BATCH 4096

/* user-defined types made with the public macros */
typedef signed char nib; typedef unsigned char dec; typedef float f100; typedef double d1e6;
#define PRIM(T) static inline T p_add_##T(T a, T b) { return a + b; } static inline T p_sub_##T(T a, T b) { return a - b; } \
                static inline T p_mul_##T(T a, T b) { return a * b; } static inline T p_div_##T(T a, T b) { return a / b; }
PRIM(nib) PRIM(dec) PRIM(f100) PRIM(d1e6)
PICOTM_ARITHMETIC_ADD_S_TX(nib, nib, -8, 7, 0, p_add_nib, p_sub_nib)
PICOTM_ARITHMETIC_SUB_S_TX(nib, nib, -8, 7, 0, p_add_nib, p_sub_nib)
PICOTM_ARITHMETIC_MUL_S_TX(nib, nib, -8, 7, 1, 0, p_mul_nib, p_div_nib)
PICOTM_ARITHMETIC_DIV_S_TX(nib, nib, -8, 7, 1, 0, p_mul_nib, p_div_nib)
PICOTM_ARITHMETIC_ADD_U_TX(dec, dec, 0, 99, 0, p_add_dec, p_sub_dec)
PICOTM_ARITHMETIC_SUB_U_TX(dec, dec, 0, 99, 0, p_add_dec, p_sub_dec)
PICOTM_ARITHMETIC_MUL_U_TX(dec, dec, 0, 99, 1, 0, p_mul_dec, p_div_dec)
PICOTM_ARITHMETIC_DIV_U_TX(dec, dec, 0, 99, 1, 0, p_mul_dec, p_div_dec)
PICOTM_ARITHMETIC_ADD_F_TX(f100, f100, 100.f, 0.f, p_add_f100, p_sub_f100)
PICOTM_ARITHMETIC_SUB_F_TX(f100, f100, 100.f, 0.f, p_add_f100, p_sub_f100)
PICOTM_ARITHMETIC_MUL_F_TX(f100, f100, 100.f, 1.f, 0.f, p_mul_f100, p_div_f100)
PICOTM_ARITHMETIC_DIV_F_TX(f100, f100, 100.f, 1.f, 0.f, p_mul_f100, p_div_f100)
PICOTM_ARITHMETIC_ADD_F_TX(d1e6, d1e6, 1e6, 0., p_add_d1e6, p_sub_d1e6)
PICOTM_ARITHMETIC_SUB_F_TX(d1e6, d1e6, 1e6, 0., p_add_d1e6, p_sub_d1e6)
PICOTM_ARITHMETIC_MUL_F_TX(d1e6, d1e6, 1e6, 1., 0., p_mul_d1e6, p_div_d1e6)
PICOTM_ARITHMETIC_DIV_F_TX(d1e6, d1e6, 1e6, 1., 0., p_mul_d1e6, p_div_d1e6)

/* A batch runs in as few transactions as possible: an error ends the
 * transaction, the next one continues behind the failed pair.  A sentinel in
 * transactional memory tells whether the failed transaction was undone. */
static long sentinel;
#define EVAL(N, T) \
static struct { T a[BATCH], b[BATCH], r[BATCH]; int err[BATCH]; } bt_##N; \
static void eval_##N(int op, size_t n) \
{ \
    static volatile size_t pos; \
    pos = 0; \
    while (pos < n) { \
        long old = sentinel; \
        volatile size_t start = pos; volatile bool failed = false; \
        picotm_begin \
            store_long_tx(&sentinel, old + 1); \
            for (size_t k = 0; pos < n && k < 256; ++k) { \
                T a = bt_##N.a[pos], b = bt_##N.b[pos], r; \
                switch (op) { \
                case ADD: r = add_##N##_tx(a, b); break; \
                case SUB: r = sub_##N##_tx(a, b); break; \
                case MUL: r = mul_##N##_tx(a, b); break; \
                default:  r = div_##N##_tx(a, b); break; \
                } \
                bt_##N.r[pos] = r; bt_##N.err[pos] = 0; ++pos; \
            } \
        picotm_commit \
            failed = true; \
            if (picotm_error_status() != PICOTM_ERRNO || picotm_error_is_non_recoverable()) \
                bt_##N.err[pos] = -1; \
            else bt_##N.err[pos] = picotm_error_as_errno(); \
            ++pos; \
        picotm_end \
        if (sentinel != old + !failed) { \
            vf_viol("arith-rollback", "%s_" #N "_tx %s but the memory written before is %s (pairs %zu..%zu)", opn[op], \
                    failed ? "failed" : "succeeded", failed ? "not restored" : "not written", (size_t)start, (size_t)pos); \
            sentinel = old; \
        } \
    } \
}
#define INTS(X) X(_Bool, _Bool, 0, 1) X(char, char, CHAR_MIN, CHAR_MAX) X(schar, signed char, SCHAR_MIN, SCHAR_MAX) \
    X(short, short, SHRT_MIN, SHRT_MAX) X(int, int, INT_MIN, INT_MAX) X(long, long, LONG_MIN, LONG_MAX) \
    X(llong, long long, LLONG_MIN, LLONG_MAX) X(uchar, unsigned char, 0, UCHAR_MAX) X(ushort, unsigned short, 0, USHRT_MAX) \
    X(uint, unsigned int, 0, UINT_MAX) X(ulong, unsigned long, 0, ULONG_MAX) X(ullong, unsigned long long, 0, ULLONG_MAX) \
    X(nib, nib, -8, 7) X(dec, dec, 0, 99)
#define FLTS(X) X(float, float, FLT_MAX, FLT_MIN, FLT_EPSILON, nextafterf) X(double, double, DBL_MAX, DBL_MIN, DBL_EPSILON, nextafter) \
    X(ldouble, long double, LDBL_MAX, LDBL_MIN, LDBL_EPSILON, nextafterl) X(f100, f100, 100.f, FLT_MIN, FLT_EPSILON, nextafterf) \
    X(d1e6, d1e6, 1e6, DBL_MIN, DBL_EPSILON, nextafter)

#define EV(N, T, ...) EVAL(N, T)
INTS(EV) FLTS(EV)

typedef __int128 i128;
static void pr(char *o, i128 v)
{
    char t[48]; int n = 0; bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    do t[n++] = '0' + (int)(u % 10); while (u /= 10);
    if (neg) *o++ = '-';
    while (n) *o++ = t[--n];
    *o = 0;
}
/* 0 and *r, or the error number the operation has to report */
static int expect(int op, i128 a, i128 b, i128 lo, i128 hi, i128 *r)
{
    bool of = false;
    switch (op) {
    case ADD: *r = a + b; break;
    case SUB: *r = a - b; break;
    case MUL: of = __builtin_mul_overflow(a, b, r); break;
    case DIV: if (!b) return EDOM; *r = a / b; break;
    }
    return of || *r < lo || *r > hi ? ERANGE : 0;
}
static i128 isqrt(i128 v) { i128 r = (i128)sqrtl((long double)v); while (r * r > v) --r; return r; }
static i128 pick(i128 lo, i128 hi)
{
    i128 v;
    switch (rndn(&R, 7)) {
    case 0: v = (int)rndn(&R, 9) - 4; break;
    case 1: v = hi - (i128)rndn(&R, 4); break;
    case 2: v = lo + (i128)rndn(&R, 4); break;
    case 3: v = ((i128)1 << rndn(&R, 65)) + (int)rndn(&R, 5) - 2; if (rndp(&R, 50)) v = -v; break;
    case 4: v = isqrt(hi) + (int)rndn(&R, 5) - 2; if (rndp(&R, 50)) v = -v; break;
    case 5: v = (i128)(rnd(&R) >> rndn(&R, 64)); if (rndp(&R, 50)) v = -v; break;
    default: v = lo + (i128)(((unsigned __int128)rnd(&R) << 64 | rnd(&R)) % ((unsigned __int128)(hi - lo) + 1)); break;
    }
    return v < lo || v > hi ? lo + (i128)rndn(&R, 3) : v;
}
static i128 derive(int op, i128 a, i128 lo, i128 hi)
{
    /* a second operand that puts the result next to a limit */
    i128 lim = rndp(&R, 50) ? hi : lo, b;
    switch (op) {
    case ADD: b = lim - a; break;
    case SUB: b = a - lim; break;
    case MUL: b = a ? lim / a : 0; break;
    default:  b = rndp(&R, 50) ? -1 : a; break;
    }
    b += (int)rndn(&R, 5) - 2;
    return b < lo || b > hi ? pick(lo, hi) : b;
}
static void judge(const char *name, int op, i128 a, i128 b, i128 lo, i128 hi, i128 got, int err)
{
    i128 r = 0; int want = expect(op, a, b, lo, hi, &r);
    if (want ? err == want : (!err && got == r)) {
        if (want == EDOM) vf_count("division-by-zero", 1); else if (want) vf_count("range-errors", 1); else vf_count("exact-results", 1);
        if (!want && (r == hi || r == lo)) vf_count("results-at-limits", 1);
        return;
    }
    char sa[48], sb[48], sr[48], sg[48]; pr(sa, a); pr(sb, b); pr(sr, r); pr(sg, got);
    if (want && !err) vf_viol("arith-missed", "%s_%s_tx(%s, %s) returned %s instead of reporting %s", opn[op], name, sa, sb, sg, want == EDOM ? "EDOM" : "ERANGE");
    else if (want) vf_viol("arith-wrong-error", "%s_%s_tx(%s, %s) reported error %d instead of %s", opn[op], name, sa, sb, err, want == EDOM ? "EDOM" : "ERANGE");
    else if (err) vf_viol("arith-false-error", "%s_%s_tx(%s, %s) reported error %d, the result %s is representable", opn[op], name, sa, sb, err, sr);
    else vf_viol("arith-wrong-result", "%s_%s_tx(%s, %s) returned %s instead of %s", opn[op], name, sa, sb, sg, sr);
}
static void hashpair(const char *n, int op, uint64_t a, uint64_t b)
{
    uint64_t h = vf_hash(0xcbf29ce484222325ull ^ op, n, strlen(n));
    h = vf_hash(h, &a, 8); vf_distinct(vf_hash(h, &b, 8));
}
#define INTCASE(N, T, LO, HI) \
static void icase_##N(int op, uint64_t part) \
{ \
    const i128 lo = LO, hi = HI; \
    const uint64_t span = (uint64_t)(hi - lo) + 1; /* 0 for 64-bit types */ \
    size_t n = 0; \
    if (span && span <= 256) { \
        /* all pairs, a batch at a time */ \
        uint64_t tot = span * span, nb = (tot + BATCH - 1) / BATCH, at = (part % nb) * BATCH; \
        for (; n < BATCH && at < tot; ++n, ++at) { bt_##N.a[n] = (T)(lo + (i128)(at / span)); bt_##N.b[n] = (T)(lo + (i128)(at % span)); } \
        vf_count("exhaustive-batches", 1); \
    } else for (; n < 1024; ++n) { \
        i128 a = pick(lo, hi), b = rndp(&R, 60) ? derive(op, a, lo, hi) : pick(lo, hi); \
        if (rndp(&R, 30) && op != DIV && op != SUB) { i128 t = a; a = b; b = t; } \
        bt_##N.a[n] = (T)a; bt_##N.b[n] = (T)b; \
    } \
    eval_##N(op, n); \
    for (size_t i = 0; i < n && vf_more(); ++i) { \
        judge(#N, op, bt_##N.a[i], bt_##N.b[i], lo, hi, bt_##N.r[i], bt_##N.err[i]); \
        if (i % 8 == 0) hashpair(#N, op, (uint64_t)bt_##N.a[i], (uint64_t)bt_##N.b[i]); \
    } \
    vf_count("pairs", n); \
}
INTS(INTCASE)

/* ---- floating point: exact value against the limit, computed in quad ----
 * below the limit: the operation's value; above it by more than rounding: an
 * error; in between (the exact value is beyond the limit and rounds to it)
 * both are fine */
typedef __float128 quad;
#define FLTCASE(N, T, MAX, MIN, EPS, NEXT) \
static T fpick_##N(void) \
{ \
    T v; \
    switch (rndn(&R, 9)) { \
    case 0: v = (T)((int)rndn(&R, 9) - 4); break; \
    case 1: v = MAX; for (int i = rndn(&R, 4); i; --i) v = NEXT(v, (T)0); break; \
    case 2: v = 1; for (int i = rndn(&R, 4); i; --i) v = NEXT(v, rndp(&R, 50) ? (T)0 : (T)2); break; \
    case 3: v = MIN; for (int i = rndn(&R, 4); i; --i) v = NEXT(v, rndp(&R, 50) ? (T)0 : (T)2); break; \
    case 4: v = 0; for (int i = rndn(&R, 4); i; --i) v = NEXT(v, (T)1); break; \
    case 5: v = (T)sqrtl(MAX); for (int i = rndn(&R, 4); i; --i) v = NEXT(v, rndp(&R, 50) ? (T)0 : (T)MAX); break; \
    case 6: v = (T)ldexpl(MAX, -(int)rndn(&R, 40)); for (int i = rndn(&R, 3); i; --i) v = NEXT(v, (T)0); break; \
    case 7: v = (T)((long double)(rnd(&R) >> 11) / (1ull << 53)); if (rndp(&R, 50)) v *= (T)100; break; \
    default: v = (T)(ldexpl((long double)rnd(&R), (int)rndn(&R, 300) - 200)); if (!(v <= MAX)) v = (T)rndn(&R, 100); break; \
    } \
    if (v > MAX) v = MAX; \
    return rndp(&R, 50) ? -v : v; \
} \
static void fcase_##N(int op, uint64_t part) \
{ \
    size_t n = 1024; \
    for (size_t i = 0; i < n; ++i) { \
        T a = fpick_##N(), b = fpick_##N(); \
        if (rndp(&R, 60)) { \
            T lim = rndp(&R, 50) ? MAX : -MAX; \
            switch (op) { \
            case ADD: b = lim - a; break; \
            case SUB: b = a - lim; break; \
            case MUL: if (a != 0) b = lim / a; break; \
            case DIV: b = a / lim; break; \
            } \
            for (int k = rndn(&R, 5); k; --k) b = NEXT(b, rndp(&R, 50) ? -MAX : MAX); \
            if (op == ADD && rndp(&R, 25)) { T u = MAX - NEXT((T)MAX, (T)0); b += rndp(&R, 50) ? u / 2 : u + u / 2; } \
            if (op == SUB && rndp(&R, 25)) { T u = MAX - NEXT((T)MAX, (T)0); b -= rndp(&R, 50) ? u / 2 : u + u / 2; } \
            if (!(b <= MAX && b >= -MAX)) b = fpick_##N(); \
        } \
        bt_##N.a[i] = a; bt_##N.b[i] = b; \
    } \
    eval_##N(op, n); \
    for (size_t i = 0; i < n && vf_more(); ++i) { \
        T a = bt_##N.a[i], b = bt_##N.b[i], got = bt_##N.r[i], plain = 0; int err = bt_##N.err[i]; quad e = 0; \
        bool zero = op == DIV && b == 0; \
        if (!zero) switch (op) { \
        case ADD: e = (quad)a + (quad)b; plain = a + b; break; \
        case SUB: e = (quad)a - (quad)b; plain = a - b; break; \
        case MUL: e = (quad)a * (quad)b; plain = a * b; break; \
        case DIV: e = (quad)a / (quad)b; plain = a / b; break; \
        } \
        quad m = e < 0 ? -e : e; \
        bool must_ok = !zero && m < (quad)MAX, must_err = !zero && (m >= (quad)MAX * (1 + (quad)EPS) || !(plain <= MAX && plain >= -MAX)); \
        if (!zero && m == (quad)MAX) { /* quad result exact for certain */ \
            quad y = op == SUB ? -(quad)b : (quad)b, yy = e - (quad)a, res = ((quad)a - (e - yy)) + (y - yy); \
            bool exact = op <= SUB ? res == 0 : op == MUL ? sizeof(T) <= 8 : (b == 1 || b == -1); \
            if (exact) must_ok = plain == MAX || plain == -MAX; \
        } \
        if (zero ? err == EDOM : must_err ? err == ERANGE : err ? !must_ok && err == ERANGE : got == plain) { \
            if (zero) vf_count("fp-division-by-zero", 1); \
            else if (must_err) vf_count("fp-range-errors", 1); \
            else if (must_ok) vf_count("fp-results", 1); \
            else vf_count("fp-at-limit", 1); \
            if (must_ok && (m > (quad)MAX * (1 - 8 * (quad)EPS))) vf_count("fp-results-near-limits", 1); \
        } else vf_viol(err ? "fp-error" : "fp-result", "%s_" #N "_tx(%La, %La): %s%d, returned %La, plain result %La", opn[op], (long double)a, (long double)b, \
                     err ? "reported error " : "no error ", err, (long double)got, (long double)plain); \
        uint64_t ha = 0, hb = 0; memcpy(&ha, &a, sizeof(T) < 8 ? sizeof(T) : 8); memcpy(&hb, &b, sizeof(T) < 8 ? sizeof(T) : 8); \
        if (i % 8 == 0) hashpair(#N, op, ha, hb); \
    } \
    vf_count("pairs", n); \
}
FLTS(FLTCASE)

int main(int argc, char **argv)
{
    vf_init(argc, argv);
    static void (*const ic[])(int, uint64_t) = {
#define P(N, ...) icase_##N,
        INTS(P)
    };
    static void (*const fc[])(int, uint64_t) = {
#define Q(N, ...) fcase_##N,
        FLTS(Q)
    };
    bool ints = !strcmp(vf_mode, "ints");
    size_t nt = ints ? sizeof(ic) / sizeof(*ic) : sizeof(fc) / sizeof(*fc);
    for (uint64_t c = vf_from; c < vf_from + vf_cases && vf_more(); ++c) {
        vf_case(c);
        R = vf_rng(vf_seed, 23, c);
        int op = c % NOPS; size_t t = c / NOPS % nt; uint64_t part = c / NOPS / nt;
        if (c < 3) vf_sample("%s, type %zu, part %" PRIu64, opn[op], t, part);
        (ints ? ic : fc)[t](op, part);
    }
    picotm_release();
    vf_finish(0);
}
