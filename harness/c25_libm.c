/* C25: transactional math functions and the floating-point environment.
 * fn:  every function of picotm's math.h and complex.h runs in transactions
 *      next to the C library's function; results, secondary results, error
 *      codes, exception flags and errno are compared
 * env: transactions change rounding mode and exception flags after saving
 *      them through picotm_libm_save_*(), commit, fail or restart
 * conc: threads run lgamma_tx() and read the shared sign */
#include "vf_tx.h"
#include <math.h>
#include <complex.h>
#include <fenv.h>
#include <float.h>
#include <limits.h>
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-libm.h"
#include "picotm/math.h"
#include "picotm/math-tm.h"
#include "picotm/complex.h"

static struct rng R;
typedef double D; typedef float F; typedef long double L;
typedef double complex CD; typedef float complex CF; typedef long double complex CL;

#define D1(X) \
    X(acos) X(acosh) X(asin) X(asinh) X(atan) X(atanh) X(cbrt) X(ceil) X(cos) X(cosh) X(erf) X(erfc) X(exp) X(exp2) X(expm1) X(fabs) X(floor) \
    X(ilogb) X(j0) X(j1) X(log) X(log10) X(log1p) X(log2) X(logb) X(nearbyint) X(rint) X(round) X(sin) X(sinh) X(sqrt) X(tan) X(tanh) \
    X(tgamma) X(trunc) X(y0) X(y1) \

#define D2(X) \
    X(atan2) X(copysign) X(fdim) X(fmax) X(fmin) X(fmod) X(hypot) X(nextafter) X(pow) X(remainder) \

#define RNDD(X) \
    X(llrint, long long) X(llround, long long) \
    X(lrint, long) X(lround, long) \

#define DX(X) \
    X(cacos) X(cacosh) X(casin) X(casinh) X(catan) X(catanh) X(ccos) X(ccosh) X(cexp) X(clog) X(conj) X(cproj) X(csin) X(csinh) X(csqrt) X(ctan) \
    X(ctanh) \

#define DP(X) \
    X(cabs) X(carg) X(cimag) X(creal) \

#define DI(X) \
    X(ldexp) X(scalbn) \

#define F1(X) \
    X(acosf) X(acoshf) X(asinf) X(asinhf) X(atanf) X(atanhf) X(cbrtf) X(ceilf) X(cosf) X(coshf) X(erfcf) X(erff) X(exp2f) X(expf) X(expm1f) X(fabsf) \
    X(floorf) X(ilogbf) X(log10f) X(log1pf) X(log2f) X(logbf) X(logf) X(nearbyintf) X(rintf) X(roundf) X(sinf) X(sinhf) X(sqrtf) X(tanf) \
    X(tanhf) X(tgammaf) X(truncf) \

#define F2(X) \
    X(atan2f) X(copysignf) X(fdimf) X(fmaxf) X(fminf) X(fmodf) X(hypotf) X(nextafterf) X(powf) X(remainderf) \

#define RNDF(X) \
    X(llrintf, long long) X(llroundf, long long) \
    X(lrintf, long) X(lroundf, long) \

#define FX(X) \
    X(cacosf) X(cacoshf) X(casinf) X(casinhf) X(catanf) X(catanhf) X(ccosf) X(ccoshf) X(cexpf) X(clogf) X(conjf) X(cprojf) X(csinf) X(csinhf) \
    X(csqrtf) X(ctanf) X(ctanhf) \

#define FP(X) \
    X(cabsf) X(cargf) X(cimagf) X(crealf) \

#define FI(X) \
    X(ldexpf) X(scalbnf) \

#define L1(X) \
    X(acoshl) X(acosl) X(asinhl) X(asinl) X(atanhl) X(atanl) X(cbrtl) X(ceill) X(coshl) X(cosl) X(erfcl) X(erfl) X(exp2l) X(expl) X(expm1l) X(fabsl) \
    X(floorl) X(ilogbl) X(log10l) X(log1pl) X(log2l) X(logbl) X(logl) X(nearbyintl) X(rintl) X(roundl) X(sinhl) X(sinl) X(sqrtl) X(tanhl) \
    X(tanl) X(tgammal) X(truncl) \

#define L2(X) \
    X(atan2l) X(copysignl) X(fdiml) X(fmaxl) X(fminl) X(fmodl) X(hypotl) X(nextafterl) X(nexttowardl) X(powl) X(remainderl) \

#define RNDL(X) \
    X(llrintl, long long) X(llroundl, long long) \
    X(lrintl, long) X(lroundl, long) \

#define LX(X) \
    X(cacoshl) X(cacosl) X(casinhl) X(casinl) X(catanhl) X(catanl) X(ccoshl) X(ccosl) X(cexpl) X(clogl) X(conjl) X(cprojl) X(csinhl) X(csinl) \
    X(csqrtl) X(ctanhl) X(ctanl) \

#define LP(X) \
    X(cabsl) X(cargl) X(cimagl) X(creall) \

#define LI(X) \
    X(ldexpl) X(scalbnl) \

/* ---- arguments ---- */
static L interesting(int dig, L max, L min, L eps)
{
    L v; int k;
    switch (rndn(&R, 12)) {
    case 0: v = (L)((int)rndn(&R, 21) - 10); break;
    case 1: v = max; for (k = rndn(&R, 3); k; --k) v *= 1 - eps; break;
    case 2: v = min; if (rndp(&R, 60)) v *= (L)rndn(&R, 64) / 16; break;          /* smallest normal, subnormals */
    case 3: v = min * eps * (L)(1 + rndn(&R, 3)); break;
    case 4: v = 0; break;
    case 5: v = INFINITY; break;
    case 6: v = NAN; break;
    case 7: v = (L)(rnd(&R) >> 11) / (L)(1ull << 53); break;
    case 8: v = (L)(rnd(&R) >> 11) / (L)(1ull << 53) * 40; break;
    case 9: v = (L)(rnd(&R) >> 11) / (L)(1ull << 53) * 12000; break;
    case 10: v = 1 + eps * (L)((int)rndn(&R, 5) - 2); break;
    default: v = ldexpl((L)(rnd(&R) | 1), (int)rndn(&R, dig > 53 ? 2000 : dig > 24 ? 1600 : 200) - (dig > 53 ? 1000 : dig > 24 ? 800 : 150)); if (v > max) v = max; break;
    }
    if (rndp(&R, 8)) v = rintl(v) + 0.5L;
    return rndp(&R, 50) ? -v : v;
}
static D argD(void) { return (D)interesting(53, DBL_MAX, DBL_MIN, DBL_EPSILON); }
static F argF(void) { return (F)interesting(24, FLT_MAX, FLT_MIN, FLT_EPSILON); }
static L argL(void) { return interesting(64, LDBL_MAX, LDBL_MIN, LDBL_EPSILON); }
static int argi(void) { switch (rndn(&R, 6)) { case 0: return INT_MAX; case 1: return INT_MIN; case 2: return (int)rndn(&R, 40000) - 20000; default: return (int)rndn(&R, 200) - 100; } }
static int argn(void) { return (int)rndn(&R, 20) - 5; }

/* ---- environment ---- */
#define ERRFLAGS (FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW)
static const int rmodes[] = { FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO };
static int pre_flags, pre_errno;      /* state before the transaction */
static volatile int ref_flags, ref_errno;
static int randflags(void)
{
    static const int f[] = { FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT };
    int r = 0; if (rndp(&R, 50)) return 0;
    for (int i = 0; i < 5; ++i) if (rndp(&R, 40)) r |= f[i];
    return r;
}
static void setflags(int f) { feclearexcept(FE_ALL_EXCEPT); fexcept_t x; (void)x; if (f) feraiseexcept(f); if (!(f & FE_INEXACT)) feclearexcept(FE_INEXACT); }
static void ref_begin(void) { feclearexcept(FE_ALL_EXCEPT); errno = 0; }
static void ref_end(void) { ref_flags = fetestexcept(FE_ALL_EXCEPT); ref_errno = errno; }

/* result and state of the transactional call */
static volatile int tx_err, tx_flags, tx_errno; static volatile bool tx_failed;
static long sentinel;
static volatile bool undo_after;      /* the transaction gives up after the call */
#define TXCALL(EXPR) do { \
        long old__ = sentinel; \
        setflags(pre_flags); errno = pre_errno; \
        tx_failed = false; tx_err = 0; undo_after = rndp(&R, 25); \
        picotm_begin \
            store_long_tx(&sentinel, old__ + 1); \
            EXPR; \
            if (undo_after) picotm_recover_from_errno(EXDEV); \
        picotm_commit \
            tx_failed = true; \
            tx_err = picotm_error_status() == PICOTM_ERRNO && !picotm_error_is_non_recoverable() ? picotm_error_as_errno() : -1; \
        picotm_end \
        tx_errno = errno; tx_flags = fetestexcept(FE_ALL_EXCEPT); \
        if (sentinel != old__ + !tx_failed) { vf_viol("libm-rollback", "memory written before " #EXPR " %s", tx_failed ? "is not restored after the error" : "is lost"); sentinel = old__; } \
    } while (0)

static bool sameL(L a, L b) { return (isnan(a) && isnan(b)) || (a == b && signbit(a) == signbit(b)); }
static char desc[400];
/* mask: the errors POSIX specifies for the function */
static void judge(const char *name, int mask, bool same, bool checked)
{
    int e = ref_errno, x = ref_flags & ERRFLAGS;
    bool must_err = checked && (e || (x & mask)), may_err = checked && (e || x);
    if (tx_failed && undo_after && tx_err == EXDEV) {
        if (tx_flags != pre_flags) vf_viol("libm-flags-undo", "exception flags %#x before, %#x after %s_tx and an abort; %s", pre_flags, tx_flags, name, desc);
        if (tx_errno != pre_errno) vf_viol("libm-errno-undo", "errno %d before, %d after %s_tx and an abort; %s", pre_errno, tx_errno, name, desc);
        if (ref_flags & ~pre_flags) vf_count("flags-undone", 1);
        if (ref_errno && ref_errno != pre_errno) vf_count("errno-undone", 1);
        return;
    }
    if (tx_failed) {
        if (!may_err) vf_viol("libm-false-error", "%s_tx reports error %d, the C library reports none; %s", name, tx_err, desc);
        else {
            vf_count("errors-reported", 1);
            int want = e ? e : x & FE_INVALID ? EDOM : ERANGE;
            if (tx_err != want) vf_viol("libm-wrong-error", "%s_tx reports error %d instead of %d; %s", name, tx_err, want, desc);
            if (tx_flags != pre_flags) vf_viol("libm-flags-undo", "exception flags %#x before, %#x after the failed %s_tx; %s", pre_flags, tx_flags, name, desc);
            if (tx_errno != pre_errno) vf_viol("libm-errno-undo", "errno %d before, %d after the failed %s_tx; %s", pre_errno, tx_errno, name, desc);
            if (pre_flags) vf_count("errors-with-flags-set-before", 1);
        }
        return;
    }
    if (must_err) { vf_viol("libm-missed-error", "%s_tx reports no error, the C library errno %d flags %#x; %s", name, e, x, desc); return; }
    if (!same) { vf_viol("libm-result", "%s_tx's result differs; %s", name, desc); return; }
    if ((tx_flags & (pre_flags | (ref_flags & ~FE_INEXACT))) != (pre_flags | (ref_flags & ~FE_INEXACT)))
        vf_viol("libm-flags", "%s_tx succeeded with exception flags %#x before, %#x after, C library raises %#x; %s", name, pre_flags, tx_flags, (int)ref_flags, desc);
    if (tx_flags & ~(pre_flags | ref_flags | FE_INEXACT))
        vf_viol("libm-flags", "%s_tx succeeded and left additional exception flags: %#x before, %#x after, C library raises %#x; %s", name, pre_flags, tx_flags, (int)ref_flags, desc);
    /* complex functions define no errors, but may use other math functions that do */
    if (tx_errno != pre_errno && (checked || !e || tx_errno != e)) vf_viol("libm-errno", "errno %d before, %d after the successful %s_tx; %s", pre_errno, tx_errno, name, desc);
    vf_count("results-equal", 1);
    if (pre_flags) vf_count("results-with-flags-set-before", 1);
}
static void hashargs(const char *n, L a, L b)
{
    D x = (D)a, y = (D)b; uint64_t h = vf_hash(0xcbf29ce484222325ull, n, strlen(n));
    h = vf_hash(h, &x, 8); vf_distinct(vf_hash(h, &y, 8));
}
static int mode;
static void prep(void)
{
    pre_flags = randflags(); pre_errno = rndp(&R, 50) ? 0 : 1 + (int)rndn(&R, 100);
    mode = rndp(&R, 70) ? FE_TONEAREST : rmodes[rndn(&R, 4)];
    fesetround(mode);
}
static void done(void)
{
    if (fegetround() != mode) vf_viol("libm-rounding", "rounding mode changed; %s", desc);
    fesetround(FE_TONEAREST);
}

/* what POSIX specifies, by function family (suffix removed) */
static int posix_mask(const char *name)
{
    static const struct { const char *n; int m; } t[] = {
        { "acos", FE_INVALID }, { "acosh", FE_INVALID }, { "asin", FE_INVALID }, { "atanh", FE_INVALID | FE_DIVBYZERO }, { "cos", FE_INVALID }, { "cosh", FE_OVERFLOW },
        { "exp", FE_OVERFLOW | FE_UNDERFLOW }, { "exp2", FE_OVERFLOW | FE_UNDERFLOW }, { "expm1", FE_OVERFLOW }, { "fdim", FE_OVERFLOW | FE_UNDERFLOW }, { "fma", ERRFLAGS & ~FE_DIVBYZERO },
        { "fmod", FE_INVALID }, { "hypot", FE_OVERFLOW | FE_UNDERFLOW }, { "ilogb", FE_INVALID }, { "ldexp", FE_OVERFLOW | FE_UNDERFLOW }, { "lgamma", FE_DIVBYZERO | FE_OVERFLOW },
        { "llrint", FE_INVALID }, { "llround", FE_INVALID }, { "lrint", FE_INVALID }, { "lround", FE_INVALID }, { "log", FE_INVALID | FE_DIVBYZERO }, { "log10", FE_INVALID | FE_DIVBYZERO },
        { "log1p", FE_INVALID | FE_DIVBYZERO }, { "log2", FE_INVALID | FE_DIVBYZERO }, { "logb", FE_DIVBYZERO }, { "nextafter", FE_OVERFLOW | FE_UNDERFLOW }, { "nexttoward", FE_OVERFLOW | FE_UNDERFLOW },
        { "pow", ERRFLAGS }, { "remainder", FE_INVALID }, { "remquo", FE_INVALID }, { "scalbln", FE_OVERFLOW | FE_UNDERFLOW }, { "scalbn", FE_OVERFLOW | FE_UNDERFLOW }, { "sin", FE_INVALID },
        { "sinh", FE_OVERFLOW }, { "sqrt", FE_INVALID }, { "tan", FE_INVALID | FE_OVERFLOW }, { "tgamma", ERRFLAGS & ~FE_UNDERFLOW }, { "y0", FE_DIVBYZERO | FE_INVALID }, { "y1", FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW }, { "yn", FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW },
        { 0 }
    };
    size_t n = strlen(name);
    for (int i = 0; t[i].n; ++i) {
        size_t m = strlen(t[i].n);
        if (!strncmp(name, t[i].n, m) && (n == m || (n == m + 1 && (name[m] == 'f' || name[m] == 'l')))) return t[i].m;
    }
    return 0;
}

/* a function: F(type, name, declared arguments, call arguments, printing) */
#define FN1(T, N) static void case_##N(void) { \
    prep(); T x = arg##T(); volatile T r, g = 0; \
    snprintf(desc, sizeof(desc), #N "(%La), rounding %d, flags %#x", (L)x, mode, pre_flags); \
    ref_begin(); r = N(x); ref_end(); TXCALL(g = N##_tx(x)); \
    judge(#N, posix_mask(#N), sameL(r, g), true); hashargs(#N, x, mode); done(); }
#define FN2(T, N) static void case_##N(void) { \
    prep(); T x = arg##T(), y = rndp(&R, 10) ? x : arg##T(); volatile T r, g = 0; \
    snprintf(desc, sizeof(desc), #N "(%La, %La), rounding %d, flags %#x", (L)x, (L)y, mode, pre_flags); \
    ref_begin(); r = N(x, y); ref_end(); TXCALL(g = N##_tx(x, y)); \
    /* fmin() and fmax() may return either zero */ \
    judge(#N, posix_mask(#N), sameL(r, g) || (!strncmp(#N, "fm", 2) && (#N[2] == 'i' || #N[2] == 'a') && !r && !g), true); hashargs(#N, x, y); done(); }
#define FN3(T, N) static void case_##N(void) { \
    prep(); T x = arg##T(), y = arg##T(), z = arg##T(); volatile T r, g = 0; \
    snprintf(desc, sizeof(desc), #N "(%La, %La, %La), rounding %d, flags %#x", (L)x, (L)y, (L)z, mode, pre_flags); \
    ref_begin(); r = N(x, y, z); ref_end(); TXCALL(g = N##_tx(x, y, z)); \
    judge(#N, posix_mask(#N), sameL(r, g), true); hashargs(#N, x, y); done(); }
#define FNR(T, N, RT) static void case_##N(void) { \
    prep(); T x = rndp(&R, 40) ? (T)(ldexpl(1, 60 + (int)rndn(&R, 6)) * (rndp(&R, 50) ? 1 : -1) - (L)rndn(&R, 3)) : arg##T(); volatile RT r, g = 0; \
    snprintf(desc, sizeof(desc), #N "(%La), rounding %d, flags %#x", (L)x, mode, pre_flags); \
    ref_begin(); r = N(x); ref_end(); TXCALL(g = N##_tx(x)); \
    judge(#N, posix_mask(#N), r == g, true); hashargs(#N, x, mode); done(); }
#define FNI(T, N, IT) static void case_##N(void) { \
    prep(); T x = arg##T(); IT n = argi(); volatile T r, g = 0; \
    snprintf(desc, sizeof(desc), #N "(%La, %ld), rounding %d, flags %#x", (L)x, (long)n, mode, pre_flags); \
    ref_begin(); r = N(x, n); ref_end(); TXCALL(g = N##_tx(x, n)); \
    judge(#N, posix_mask(#N), sameL(r, g), true); hashargs(#N, x, n); done(); }
#define FNN(T, N) static void case_##N(void) { \
    prep(); T x = arg##T(); int n = argn(); volatile T r, g = 0; \
    snprintf(desc, sizeof(desc), #N "(%d, %La), rounding %d, flags %#x", n, (L)x, mode, pre_flags); \
    ref_begin(); r = N(n, x); ref_end(); TXCALL(g = N##_tx(n, x)); \
    judge(#N, posix_mask(#N), sameL(r, g), true); hashargs(#N, x, n); done(); }
#define FNT(T, N) static void case_##N(void) { \
    prep(); T x = arg##T(); L y = rndp(&R, 10) ? (L)x : argL(); volatile T r, g = 0; \
    snprintf(desc, sizeof(desc), #N "(%La, %La), rounding %d, flags %#x", (L)x, y, mode, pre_flags); \
    ref_begin(); r = N(x, y); ref_end(); TXCALL(g = N##_tx(x, y)); \
    judge(#N, posix_mask(#N), sameL(r, g), true); hashargs(#N, x, y); done(); }
/* functions with a secondary result in memory, which an abort has to undo */
#define FNP(T, N, PT, FMT, TM) static void case_##N##TM(void) { \
    prep(); T x = arg##T(); volatile T r, g = 0; PT o0 = (PT)rndn(&R, 50), o = o0, ro = o0; \
    snprintf(desc, sizeof(desc), #N "(%La), rounding %d, flags %#x", (L)x, mode, pre_flags); \
    ref_begin(); r = N(x, &ro); ref_end(); \
    bool undo = !TM && rndp(&R, 30); \
    if (undo) { \
        setflags(pre_flags); errno = pre_errno; \
        picotm_begin \
            g = N##_tx(x, &o); \
            if (o != ro && !(o != o)) vf_viol("libm-secondary", #N "_tx stored " FMT " instead of " FMT "; %s", o, ro, desc); \
            picotm_recover_from_errno(EDOM); \
        picotm_commit picotm_end \
        if (o != o0) vf_viol("libm-secondary-undo", #N "_tx's secondary result is not undone: " FMT " instead of " FMT "; %s", o, o0, desc); \
        vf_count("secondary-results-undone", 1); \
    } else { \
        if (TM) { PT t = o0; TXCALL(g = N##_tm(x, &t)); o = t; } else TXCALL(g = N##_tx(x, &o)); \
        judge(#N, posix_mask(#N), sameL(r, g) && sameL(o, ro), true); vf_count("secondary-results", 1); \
    } \
    hashargs(#N, x, mode); done(); }
#define FNQ(T, N, TM) static void case_##N##TM(void) { \
    prep(); T x = arg##T(), y = arg##T(); volatile T r, g = 0; int o0 = (int)rndn(&R, 50), o = o0, ro = o0; \
    snprintf(desc, sizeof(desc), #N "(%La, %La), rounding %d, flags %#x", (L)x, (L)y, mode, pre_flags); \
    ref_begin(); r = N(x, y, &ro); ref_end(); \
    if (TM) { int t = o0; TXCALL(g = N##_tm(x, y, &t)); o = t; } else TXCALL(g = N##_tx(x, y, &o)); \
    /* glibc leaves the quotient alone for special arguments */ \
    judge(#N, posix_mask(#N), sameL(r, g) && o == ro, true); \
    if (tx_failed && !TM && o != o0) vf_viol("libm-secondary-undo", #N "_tx failed, its quotient is not undone; %s", desc); \
    vf_count("secondary-results", 1); hashargs(#N, x, y); done(); }
#define FNNAN(T, N, TM) static void case_##N##TM(void) { \
    static const char *const tags[] = { "", "1", "0x123", "77", "abc", "0x7ffffffffffff", "a-b" }; \
    prep(); char tag[24]; strcpy(tag, tags[rndn(&R, 7)]); volatile T r, g = 0; \
    snprintf(desc, sizeof(desc), #N "(\"%s\")", tag); \
    ref_begin(); r = N(tag); ref_end(); \
    if (TM) TXCALL(g = N##_tm(tag)); else TXCALL(g = N##_tx(tag)); \
    size_t w = sizeof(T) == 16 ? 10 : sizeof(T); \
    T r2 = r, g2 = g; judge(#N, 0, tx_failed || !memcmp(&r2, &g2, w), false); hashargs(#N, tag[0], tag[1]); done(); }
/* lgamma has its sign in the global signgam */
#define FNG(T, N) static void case_##N(void) { \
    prep(); T x = arg##T(); volatile T r, g = 0; volatile int rs; int s0 = (int)rndn(&R, 3) - 1; \
    snprintf(desc, sizeof(desc), #N "(%La), rounding %d, flags %#x", (L)x, mode, pre_flags); \
    signgam = s0; ref_begin(); r = N(x); ref_end(); rs = signgam; signgam = s0; \
    TXCALL(g = N##_tx(x)); \
    judge(#N, posix_mask(#N), sameL(r, g) && (tx_failed || signgam == rs), true); \
    if (tx_failed && signgam != s0) vf_viol("libm-signgam", "signgam is %d after the failed transaction, was %d; %s", signgam, s0, desc); \
    if (!tx_failed) { if (rs < 0) vf_count("signgam-negative", 1); else vf_count("signgam-positive", 1); } \
    hashargs(#N, x, mode); done(); }
#define MK(T) ((T)arg_part() )
#define CFN(T, C, N) static void case_##N(void) { \
    prep(); T a = arg##T(), b = arg##T(); C x; ((T*)&x)[0] = a; ((T*)&x)[1] = b; volatile C r, g = 0; \
    snprintf(desc, sizeof(desc), #N "(%La, %La), rounding %d, flags %#x", (L)a, (L)b, mode, pre_flags); \
    ref_begin(); r = N(x); ref_end(); TXCALL(g = N##_tx(x)); \
    C rr = r, gg = g; judge(#N, 0, sameL(((T*)&rr)[0], ((T*)&gg)[0]) && sameL(((T*)&rr)[1], ((T*)&gg)[1]), false); \
    vf_count("complex-results", 1); hashargs(#N, a, b); done(); }
#define CFN2(T, C, N) static void case_##N(void) { \
    prep(); T a = arg##T(), b = arg##T(); C x, y; ((T*)&x)[0] = a; ((T*)&x)[1] = b; ((T*)&y)[0] = arg##T(); ((T*)&y)[1] = arg##T(); volatile C r, g = 0; \
    snprintf(desc, sizeof(desc), #N "(%La, %La, ...), rounding %d, flags %#x", (L)a, (L)b, mode, pre_flags); \
    ref_begin(); r = N(x, y); ref_end(); TXCALL(g = N##_tx(x, y)); \
    C rr = r, gg = g; judge(#N, 0, sameL(((T*)&rr)[0], ((T*)&gg)[0]) && sameL(((T*)&rr)[1], ((T*)&gg)[1]), false); hashargs(#N, a, b); done(); }
#define CPN(T, C, N) static void case_##N(void) { \
    prep(); T a = arg##T(), b = arg##T(); C x; ((T*)&x)[0] = a; ((T*)&x)[1] = b; volatile T r, g = 0; \
    snprintf(desc, sizeof(desc), #N "(%La, %La), rounding %d, flags %#x", (L)a, (L)b, mode, pre_flags); \
    ref_begin(); r = N(x); ref_end(); TXCALL(g = N##_tx(x)); \
    judge(#N, 0, sameL(r, g), false); hashargs(#N, a, b); done(); }

#define d1(N) FN1(D, N)
#define f1(N) FN1(F, N)
#define l1(N) FN1(L, N)
#define d2(N) FN2(D, N)
#define f2(N) FN2(F, N)
#define l2(N) FN2(L, N)
#define dr(N, RT) FNR(D, N, RT)
#define fr(N, RT) FNR(F, N, RT)
#define lr(N, RT) FNR(L, N, RT)
#define dx(N) CFN(D, CD, N)
#define fx(N) CFN(F, CF, N)
#define lx(N) CFN(L, CL, N)
#define dp(N) CPN(D, CD, N)
#define fp(N) CPN(F, CF, N)
#define lp(N) CPN(L, CL, N)
#define di(N) FNI(D, N, int)
#define fi(N) FNI(F, N, int)
#define li(N) FNI(L, N, int)
D1(d1) F1(f1) L1(l1) D2(d2) F2(f2) L2(l2) RNDD(dr) RNDF(fr) RNDL(lr) DX(dx) FX(fx) LX(lx) DP(dp) FP(fp) LP(lp) DI(di) FI(fi) LI(li)
FNG(D, lgamma) FNG(F, lgammaf) FNG(L, lgammal)
FN3(D, fma) FN3(F, fmaf) FN3(L, fmal)
FNN(D, jn) FNN(D, yn)
FNI(D, scalbln, long) FNI(F, scalblnf, long) FNI(L, scalblnl, long)
FNT(D, nexttoward) FNT(F, nexttowardf)
#define TWO(M, ...) M(__VA_ARGS__, 0) M(__VA_ARGS__, 1)
TWO(FNP, D, frexp, int, "%d") TWO(FNP, F, frexpf, int, "%d") TWO(FNP, L, frexpl, int, "%d")
TWO(FNP, D, modf, D, "%a") TWO(FNP, F, modff, F, "%a") TWO(FNP, L, modfl, L, "%La")
TWO(FNQ, D, remquo) TWO(FNQ, F, remquof) TWO(FNQ, L, remquol)
TWO(FNNAN, D, nan) TWO(FNNAN, F, nanf) TWO(FNNAN, L, nanl)
CFN2(D, CD, cpow) CFN2(F, CF, cpowf) CFN2(L, CL, cpowl)

static void (*const fns[])(void) = {
#define P(N, ...) case_##N,
    D1(P) F1(P) L1(P) D2(P) F2(P) L2(P) RNDD(P) RNDF(P) RNDL(P) DX(P) FX(P) LX(P) DP(P) FP(P) LP(P) DI(P) FI(P) LI(P)
    case_lgamma, case_lgammaf, case_lgammal, case_fma, case_fmaf, case_fmal, case_jn, case_yn, case_scalbln, case_scalblnf, case_scalblnl, case_nexttoward, case_nexttowardf,
    case_frexp0, case_frexpf0, case_frexpl0, case_modf0, case_modff0, case_modfl0, case_remquo0, case_remquof0, case_remquol0, case_nan0, case_nanf0, case_nanl0,
    case_frexp1, case_frexpf1, case_frexpl1, case_modf1, case_modff1, case_modfl1, case_remquo1, case_remquof1, case_remquol1, case_nan1, case_nanf1, case_nanl1,
    case_cpow, case_cpowf, case_cpowl,
};
#define NFNS (sizeof(fns) / sizeof(*fns))

/* ---- environment programs ---- */
static volatile double vz = 0.0, vone = 1.0, vbig = DBL_MAX, vsmall = DBL_MIN;
static void raise_plain(int w)
{
    volatile double r;
    switch (w) { case 0: r = vone / vz; break; case 1: r = vz / vz; break; case 2: r = vbig * vbig; break; case 3: r = vsmall * vsmall; break; default: r = vone / 3.0; break; }
    (void)r;
}
static void env_case(uint64_t c)
{
    char tr[600]; int tl = 0; uint64_t h = 0xcbf29ce484222325ull;
    int ntx = 1 + rndn(&R, 4);
    fesetenv(FE_DFL_ENV);
    int rm = FE_TONEAREST;                      /* expected rounding mode */
    tr[0] = 0;
    for (int t = 0; t < ntx && vf_more(); ++t) {
        if (rndp(&R, 50)) { rm = rmodes[rndn(&R, 4)]; fesetround(rm); }
        int before = randflags(); setflags(before);
        int end = rndn(&R, 3);                  /* commit, give up, restart then commit */
        volatile int runs = 0; struct rng R0 = R; volatile int crm = rm; int rm0 = rm;
        volatile bool failed = false; volatile bool covered = false;
        volatile int expflags = before;
        tl = 0;
        picotm_begin
            ++runs;
            R = R0; crm = rm0; expflags = before; tl = 0;
            h = vf_hash(h, "tx", 2);
            if (fegetround() != rm0) vf_viol("fenv-restart", "rounding mode %d at begin of execution %d, was %d; %s", fegetround(), runs, rm0, tr);
            if (runs > 1 && covered && fetestexcept(FE_ALL_EXCEPT & ~FE_INEXACT) != (before & ~FE_INEXACT))
                vf_viol("fexcept-restart", "exception flags %#x at begin of execution %d, were %#x; %s", fetestexcept(FE_ALL_EXCEPT), runs, before, tr);
            /* what has been saved decides what may be changed */
            bool senv = false, sex = false;
            int n = 1 + rndn(&R, 6);
            for (int i = 0; i < n; ++i) {
                unsigned op = rndn(&R, 6); h = vf_hash(h, &op, 4);
                switch (op) {
                case 0: tl += snprintf(tr + tl, sizeof(tr) - tl, "save_fenv "); picotm_libm_save_fenv(); senv = true; vf_count("save-fenv", 1); break;
                case 1: tl += snprintf(tr + tl, sizeof(tr) - tl, "save_fexcept "); picotm_libm_save_fexcept(); sex = true; vf_count("save-fexcept", 1); break;
                case 2: { int m = rmodes[rndn(&R, 4)]; if (!senv) break; fesetround(m); crm = m; tl += snprintf(tr + tl, sizeof(tr) - tl, "round:%d ", m); vf_count("rounding-changed", 1); break; }
                case 3: case 4: { int w = rndn(&R, 5); if (!senv && !sex) break; raise_plain(w); tl += snprintf(tr + tl, sizeof(tr) - tl, "raise:%d ", w); vf_count("flags-raised", 1); break; }
                case 5: { if (!senv && !sex) break; int f = randflags(); if (rndp(&R, 50)) feclearexcept(f); else feraiseexcept(f); tl += snprintf(tr + tl, sizeof(tr) - tl, "flags:%#x ", f); break; }
                }
                if (rndp(&R, 20)) { double r = sqrt_tx(2.0); if (r < 1.4 || r > 1.5) vf_viol("libm-result", "sqrt_tx(2)=%g", r); sex = true; tl += snprintf(tr + tl, sizeof(tr) - tl, "sqrt "); }
            }
            covered = senv || sex;
            expflags = fetestexcept(FE_ALL_EXCEPT);
            if (fegetround() != crm) vf_viol("fenv-changed", "rounding mode %d within the transaction instead of %d; %s", fegetround(), crm, tr);
            if (end == 1) picotm_recover_from_errno(EIO);
            if (end == 2 && runs <= 1 + (int)(c % 3)) vf_conflict();
        picotm_commit
            failed = true;
        picotm_end
        int now = fetestexcept(FE_ALL_EXCEPT);
        if (failed) {
            vf_count("env-failed", 1);
            if (fegetround() != rm0) vf_viol("fenv-undo", "rounding mode %d after the failed transaction, was %d; %s", fegetround(), rm0, tr);
            if (covered && (now & ~FE_INEXACT) != (before & ~FE_INEXACT)) vf_viol("fexcept-undo", "exception flags %#x after the failed transaction, were %#x; %s", now, before, tr);
        } else {
            vf_count("env-committed", 1); if (runs > 1) vf_count("env-restarted", 1);
            rm = crm;
            if (fegetround() != rm) vf_viol("fenv-commit", "rounding mode %d after commit instead of %d; %s", fegetround(), rm, tr);
            if ((now & ~FE_INEXACT) != (expflags & ~FE_INEXACT)) vf_viol("fexcept-commit", "exception flags %#x after commit, %#x at its end; %s", now, expflags, tr);
        }
        rm = fegetround();
    }
    if (c < 2) vf_sample("%d transactions, last: %s", ntx, tr);
    vf_distinct(h);
    fesetenv(FE_DFL_ENV);
}

/* ---- concurrency ---- */
static pthread_barrier_t bar; static volatile uint64_t conc_case;
static long shared_n;
static void *conc_thread(void *arg)
{
    struct rng r = vf_rng(vf_seed, 1000 + (long)arg, conc_case);
    pthread_barrier_wait(&bar);
    for (int i = 0; i < 40; ++i) {
        double x = -0.5 - (double)rndn(&r, 8); volatile int s = 0; volatile double g = 0; volatile bool failed = false;
        int expsign; double e = lgamma_r(x, &expsign);
        int want_fail = rndp(&r, 20);
        feclearexcept(FE_ALL_EXCEPT);
        struct rng r0 = r;
        picotm_begin
            r = r0;
            g = lgamma_tx(x);
            vf_delay(&r, 30);
            s = load_int_tx(&signgam);
            store_long_tx(&shared_n, load_long_tx(&shared_n) + 1);
            if (s != expsign) vf_viol("libm-conc-sign", "sign %d read in the transaction that called lgamma_tx(%g)", s, x);
            if (want_fail) (void)log_tx(-1.0);
        picotm_commit
            failed = true;
        picotm_end
        if (failed != (bool)want_fail) vf_viol("libm-conc-error", "log_tx(-1) %s", failed ? "failed unexpectedly" : "did not fail");
        if (g != e) vf_viol("libm-result", "lgamma_tx(%g) = %a instead of %a", x, (double)g, e);
        if (fetestexcept(FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW)) vf_viol("libm-flags-undo", "flags %#x after a thread's transaction", fetestexcept(FE_ALL_EXCEPT));
        if (failed) vf_count("conc-failed", 1); else vf_count("conc-committed", 1);
        vf_tick();
    }
    picotm_release();
    return NULL;
}

int main(int argc, char **argv)
{
    vf_init(argc, argv);
    for (uint64_t c = vf_from; c < vf_from + vf_cases && vf_more(); ++c) {
        vf_case(c);
        R = vf_rng(vf_seed, 25, c);
        if (!strcmp(vf_mode, "fn")) {
            if (c < 2) vf_sample("function %zu of %zu", (size_t)(c % NFNS), NFNS);
            for (int i = 0; i < 100 && vf_more(); ++i) fns[c % NFNS]();
            vf_count("calls", 100);
        } else if (!strcmp(vf_mode, "env")) env_case(c);
        else {
            pthread_t th[64]; conc_case = c;
            pthread_barrier_init(&bar, NULL, vf_threads);
            for (long i = 0; i < vf_threads; ++i) pthread_create(&th[i], NULL, conc_thread, (void*)i);
            for (long i = 0; i < vf_threads; ++i) pthread_join(th[i], NULL);
            pthread_barrier_destroy(&bar);
            uint64_t h = c; vf_distinct(vf_hash(0xcbf29ce484222325ull, &h, 8));
        }
    }
    picotm_release();
    vf_finish(0);
}
