/* C24: checked casts.  Every cast between native types, and casts to
 * user-defined bounded types made with the public macro, runs inside
 * transactions; results and recovery codes are compared with the exact value.
 * A case is one cast with a batch of values: all values of 8- and 16-bit
 * sources, boundary and random values of wider ones. */
#include "vf_tx.h"
#include <limits.h>
#include <float.h>
#include <math.h>
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-cast.h"
#include "picotm/picotm-cast-ctypes.h"

static struct rng R;
#define BATCH 4096
typedef __int128 i128;
typedef signed char nib, neg; typedef unsigned char dec; typedef unsigned short mid; typedef int smid;
typedef float f100; typedef long double l1000;

/* generated list: source, its type, destination, its type, limits */
#define INTINT(X) \
    X(_Bool, _Bool, 0, 1, char, char, CHAR_MIN, CHAR_MAX) X(_Bool, _Bool, 0, 1, schar, signed char, SCHAR_MIN, SCHAR_MAX) X(_Bool, _Bool, 0, 1, short, short, SHRT_MIN, SHRT_MAX) X(_Bool, _Bool, 0, 1, int, int, INT_MIN, INT_MAX) X(_Bool, _Bool, 0, 1, long, long, LONG_MIN, LONG_MAX) X(_Bool, _Bool, 0, 1, llong, long long, LLONG_MIN, LLONG_MAX) X(_Bool, _Bool, 0, 1, uchar, unsigned char, 0, UCHAR_MAX) X(_Bool, _Bool, 0, 1, ushort, unsigned short, 0, USHRT_MAX) X(_Bool, _Bool, 0, 1, uint, unsigned int, 0, UINT_MAX) X(_Bool, _Bool, 0, 1, ulong, unsigned long, 0, ULONG_MAX) X(_Bool, _Bool, 0, 1, ullong, unsigned long long, 0, ULLONG_MAX) \
    X(char, char, CHAR_MIN, CHAR_MAX, _Bool, _Bool, 0, 1) X(char, char, CHAR_MIN, CHAR_MAX, schar, signed char, SCHAR_MIN, SCHAR_MAX) X(char, char, CHAR_MIN, CHAR_MAX, short, short, SHRT_MIN, SHRT_MAX) X(char, char, CHAR_MIN, CHAR_MAX, int, int, INT_MIN, INT_MAX) X(char, char, CHAR_MIN, CHAR_MAX, long, long, LONG_MIN, LONG_MAX) X(char, char, CHAR_MIN, CHAR_MAX, llong, long long, LLONG_MIN, LLONG_MAX) X(char, char, CHAR_MIN, CHAR_MAX, uchar, unsigned char, 0, UCHAR_MAX) X(char, char, CHAR_MIN, CHAR_MAX, ushort, unsigned short, 0, USHRT_MAX) X(char, char, CHAR_MIN, CHAR_MAX, uint, unsigned int, 0, UINT_MAX) X(char, char, CHAR_MIN, CHAR_MAX, ulong, unsigned long, 0, ULONG_MAX) X(char, char, CHAR_MIN, CHAR_MAX, ullong, unsigned long long, 0, ULLONG_MAX) \
    X(schar, signed char, SCHAR_MIN, SCHAR_MAX, _Bool, _Bool, 0, 1) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, char, char, CHAR_MIN, CHAR_MAX) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, short, short, SHRT_MIN, SHRT_MAX) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, int, int, INT_MIN, INT_MAX) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, long, long, LONG_MIN, LONG_MAX) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, llong, long long, LLONG_MIN, LLONG_MAX) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, uchar, unsigned char, 0, UCHAR_MAX) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, ushort, unsigned short, 0, USHRT_MAX) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, uint, unsigned int, 0, UINT_MAX) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, ulong, unsigned long, 0, ULONG_MAX) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, ullong, unsigned long long, 0, ULLONG_MAX) \
    X(short, short, SHRT_MIN, SHRT_MAX, _Bool, _Bool, 0, 1) X(short, short, SHRT_MIN, SHRT_MAX, char, char, CHAR_MIN, CHAR_MAX) X(short, short, SHRT_MIN, SHRT_MAX, schar, signed char, SCHAR_MIN, SCHAR_MAX) X(short, short, SHRT_MIN, SHRT_MAX, int, int, INT_MIN, INT_MAX) X(short, short, SHRT_MIN, SHRT_MAX, long, long, LONG_MIN, LONG_MAX) X(short, short, SHRT_MIN, SHRT_MAX, llong, long long, LLONG_MIN, LLONG_MAX) X(short, short, SHRT_MIN, SHRT_MAX, uchar, unsigned char, 0, UCHAR_MAX) X(short, short, SHRT_MIN, SHRT_MAX, ushort, unsigned short, 0, USHRT_MAX) X(short, short, SHRT_MIN, SHRT_MAX, uint, unsigned int, 0, UINT_MAX) X(short, short, SHRT_MIN, SHRT_MAX, ulong, unsigned long, 0, ULONG_MAX) X(short, short, SHRT_MIN, SHRT_MAX, ullong, unsigned long long, 0, ULLONG_MAX) \
    X(int, int, INT_MIN, INT_MAX, _Bool, _Bool, 0, 1) X(int, int, INT_MIN, INT_MAX, char, char, CHAR_MIN, CHAR_MAX) X(int, int, INT_MIN, INT_MAX, schar, signed char, SCHAR_MIN, SCHAR_MAX) X(int, int, INT_MIN, INT_MAX, short, short, SHRT_MIN, SHRT_MAX) X(int, int, INT_MIN, INT_MAX, long, long, LONG_MIN, LONG_MAX) X(int, int, INT_MIN, INT_MAX, llong, long long, LLONG_MIN, LLONG_MAX) X(int, int, INT_MIN, INT_MAX, uchar, unsigned char, 0, UCHAR_MAX) X(int, int, INT_MIN, INT_MAX, ushort, unsigned short, 0, USHRT_MAX) X(int, int, INT_MIN, INT_MAX, uint, unsigned int, 0, UINT_MAX) X(int, int, INT_MIN, INT_MAX, ulong, unsigned long, 0, ULONG_MAX) X(int, int, INT_MIN, INT_MAX, ullong, unsigned long long, 0, ULLONG_MAX) \
    X(long, long, LONG_MIN, LONG_MAX, _Bool, _Bool, 0, 1) X(long, long, LONG_MIN, LONG_MAX, char, char, CHAR_MIN, CHAR_MAX) X(long, long, LONG_MIN, LONG_MAX, schar, signed char, SCHAR_MIN, SCHAR_MAX) X(long, long, LONG_MIN, LONG_MAX, short, short, SHRT_MIN, SHRT_MAX) X(long, long, LONG_MIN, LONG_MAX, int, int, INT_MIN, INT_MAX) X(long, long, LONG_MIN, LONG_MAX, llong, long long, LLONG_MIN, LLONG_MAX) X(long, long, LONG_MIN, LONG_MAX, uchar, unsigned char, 0, UCHAR_MAX) X(long, long, LONG_MIN, LONG_MAX, ushort, unsigned short, 0, USHRT_MAX) X(long, long, LONG_MIN, LONG_MAX, uint, unsigned int, 0, UINT_MAX) X(long, long, LONG_MIN, LONG_MAX, ulong, unsigned long, 0, ULONG_MAX) X(long, long, LONG_MIN, LONG_MAX, ullong, unsigned long long, 0, ULLONG_MAX) \
    X(llong, long long, LLONG_MIN, LLONG_MAX, _Bool, _Bool, 0, 1) X(llong, long long, LLONG_MIN, LLONG_MAX, char, char, CHAR_MIN, CHAR_MAX) X(llong, long long, LLONG_MIN, LLONG_MAX, schar, signed char, SCHAR_MIN, SCHAR_MAX) X(llong, long long, LLONG_MIN, LLONG_MAX, short, short, SHRT_MIN, SHRT_MAX) X(llong, long long, LLONG_MIN, LLONG_MAX, int, int, INT_MIN, INT_MAX) X(llong, long long, LLONG_MIN, LLONG_MAX, long, long, LONG_MIN, LONG_MAX) X(llong, long long, LLONG_MIN, LLONG_MAX, uchar, unsigned char, 0, UCHAR_MAX) X(llong, long long, LLONG_MIN, LLONG_MAX, ushort, unsigned short, 0, USHRT_MAX) X(llong, long long, LLONG_MIN, LLONG_MAX, uint, unsigned int, 0, UINT_MAX) X(llong, long long, LLONG_MIN, LLONG_MAX, ulong, unsigned long, 0, ULONG_MAX) X(llong, long long, LLONG_MIN, LLONG_MAX, ullong, unsigned long long, 0, ULLONG_MAX) \
    X(uchar, unsigned char, 0, UCHAR_MAX, _Bool, _Bool, 0, 1) X(uchar, unsigned char, 0, UCHAR_MAX, char, char, CHAR_MIN, CHAR_MAX) X(uchar, unsigned char, 0, UCHAR_MAX, schar, signed char, SCHAR_MIN, SCHAR_MAX) X(uchar, unsigned char, 0, UCHAR_MAX, short, short, SHRT_MIN, SHRT_MAX) X(uchar, unsigned char, 0, UCHAR_MAX, int, int, INT_MIN, INT_MAX) X(uchar, unsigned char, 0, UCHAR_MAX, long, long, LONG_MIN, LONG_MAX) X(uchar, unsigned char, 0, UCHAR_MAX, llong, long long, LLONG_MIN, LLONG_MAX) X(uchar, unsigned char, 0, UCHAR_MAX, ushort, unsigned short, 0, USHRT_MAX) X(uchar, unsigned char, 0, UCHAR_MAX, uint, unsigned int, 0, UINT_MAX) X(uchar, unsigned char, 0, UCHAR_MAX, ulong, unsigned long, 0, ULONG_MAX) X(uchar, unsigned char, 0, UCHAR_MAX, ullong, unsigned long long, 0, ULLONG_MAX) \
    X(ushort, unsigned short, 0, USHRT_MAX, _Bool, _Bool, 0, 1) X(ushort, unsigned short, 0, USHRT_MAX, char, char, CHAR_MIN, CHAR_MAX) X(ushort, unsigned short, 0, USHRT_MAX, schar, signed char, SCHAR_MIN, SCHAR_MAX) X(ushort, unsigned short, 0, USHRT_MAX, short, short, SHRT_MIN, SHRT_MAX) X(ushort, unsigned short, 0, USHRT_MAX, int, int, INT_MIN, INT_MAX) X(ushort, unsigned short, 0, USHRT_MAX, long, long, LONG_MIN, LONG_MAX) X(ushort, unsigned short, 0, USHRT_MAX, llong, long long, LLONG_MIN, LLONG_MAX) X(ushort, unsigned short, 0, USHRT_MAX, uchar, unsigned char, 0, UCHAR_MAX) X(ushort, unsigned short, 0, USHRT_MAX, uint, unsigned int, 0, UINT_MAX) X(ushort, unsigned short, 0, USHRT_MAX, ulong, unsigned long, 0, ULONG_MAX) X(ushort, unsigned short, 0, USHRT_MAX, ullong, unsigned long long, 0, ULLONG_MAX) \
    X(uint, unsigned int, 0, UINT_MAX, _Bool, _Bool, 0, 1) X(uint, unsigned int, 0, UINT_MAX, char, char, CHAR_MIN, CHAR_MAX) X(uint, unsigned int, 0, UINT_MAX, schar, signed char, SCHAR_MIN, SCHAR_MAX) X(uint, unsigned int, 0, UINT_MAX, short, short, SHRT_MIN, SHRT_MAX) X(uint, unsigned int, 0, UINT_MAX, int, int, INT_MIN, INT_MAX) X(uint, unsigned int, 0, UINT_MAX, long, long, LONG_MIN, LONG_MAX) X(uint, unsigned int, 0, UINT_MAX, llong, long long, LLONG_MIN, LLONG_MAX) X(uint, unsigned int, 0, UINT_MAX, uchar, unsigned char, 0, UCHAR_MAX) X(uint, unsigned int, 0, UINT_MAX, ushort, unsigned short, 0, USHRT_MAX) X(uint, unsigned int, 0, UINT_MAX, ulong, unsigned long, 0, ULONG_MAX) X(uint, unsigned int, 0, UINT_MAX, ullong, unsigned long long, 0, ULLONG_MAX) \
    X(ulong, unsigned long, 0, ULONG_MAX, _Bool, _Bool, 0, 1) X(ulong, unsigned long, 0, ULONG_MAX, char, char, CHAR_MIN, CHAR_MAX) X(ulong, unsigned long, 0, ULONG_MAX, schar, signed char, SCHAR_MIN, SCHAR_MAX) X(ulong, unsigned long, 0, ULONG_MAX, short, short, SHRT_MIN, SHRT_MAX) X(ulong, unsigned long, 0, ULONG_MAX, int, int, INT_MIN, INT_MAX) X(ulong, unsigned long, 0, ULONG_MAX, long, long, LONG_MIN, LONG_MAX) X(ulong, unsigned long, 0, ULONG_MAX, llong, long long, LLONG_MIN, LLONG_MAX) X(ulong, unsigned long, 0, ULONG_MAX, uchar, unsigned char, 0, UCHAR_MAX) X(ulong, unsigned long, 0, ULONG_MAX, ushort, unsigned short, 0, USHRT_MAX) X(ulong, unsigned long, 0, ULONG_MAX, uint, unsigned int, 0, UINT_MAX) X(ulong, unsigned long, 0, ULONG_MAX, ullong, unsigned long long, 0, ULLONG_MAX) \
    X(ullong, unsigned long long, 0, ULLONG_MAX, _Bool, _Bool, 0, 1) X(ullong, unsigned long long, 0, ULLONG_MAX, char, char, CHAR_MIN, CHAR_MAX) X(ullong, unsigned long long, 0, ULLONG_MAX, schar, signed char, SCHAR_MIN, SCHAR_MAX) X(ullong, unsigned long long, 0, ULLONG_MAX, short, short, SHRT_MIN, SHRT_MAX) X(ullong, unsigned long long, 0, ULLONG_MAX, int, int, INT_MIN, INT_MAX) X(ullong, unsigned long long, 0, ULLONG_MAX, long, long, LONG_MIN, LONG_MAX) X(ullong, unsigned long long, 0, ULLONG_MAX, llong, long long, LLONG_MIN, LLONG_MAX) X(ullong, unsigned long long, 0, ULLONG_MAX, uchar, unsigned char, 0, UCHAR_MAX) X(ullong, unsigned long long, 0, ULLONG_MAX, ushort, unsigned short, 0, USHRT_MAX) X(ullong, unsigned long long, 0, ULLONG_MAX, uint, unsigned int, 0, UINT_MAX) X(ullong, unsigned long long, 0, ULLONG_MAX, ulong, unsigned long, 0, ULONG_MAX) \
    X(_Bool, _Bool, 0, 1, nib, nib, -8, 7) X(_Bool, _Bool, 0, 1, dec, dec, 0, 99) X(_Bool, _Bool, 0, 1, mid, mid, 10, 20) X(_Bool, _Bool, 0, 1, smid, smid, 10, 20) X(_Bool, _Bool, 0, 1, neg, neg, -20, -10) \
    X(char, char, CHAR_MIN, CHAR_MAX, nib, nib, -8, 7) X(char, char, CHAR_MIN, CHAR_MAX, dec, dec, 0, 99) X(char, char, CHAR_MIN, CHAR_MAX, mid, mid, 10, 20) X(char, char, CHAR_MIN, CHAR_MAX, smid, smid, 10, 20) X(char, char, CHAR_MIN, CHAR_MAX, neg, neg, -20, -10) \
    X(schar, signed char, SCHAR_MIN, SCHAR_MAX, nib, nib, -8, 7) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, dec, dec, 0, 99) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, mid, mid, 10, 20) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, smid, smid, 10, 20) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, neg, neg, -20, -10) \
    X(short, short, SHRT_MIN, SHRT_MAX, nib, nib, -8, 7) X(short, short, SHRT_MIN, SHRT_MAX, dec, dec, 0, 99) X(short, short, SHRT_MIN, SHRT_MAX, mid, mid, 10, 20) X(short, short, SHRT_MIN, SHRT_MAX, smid, smid, 10, 20) X(short, short, SHRT_MIN, SHRT_MAX, neg, neg, -20, -10) \
    X(int, int, INT_MIN, INT_MAX, nib, nib, -8, 7) X(int, int, INT_MIN, INT_MAX, dec, dec, 0, 99) X(int, int, INT_MIN, INT_MAX, mid, mid, 10, 20) X(int, int, INT_MIN, INT_MAX, smid, smid, 10, 20) X(int, int, INT_MIN, INT_MAX, neg, neg, -20, -10) \
    X(long, long, LONG_MIN, LONG_MAX, nib, nib, -8, 7) X(long, long, LONG_MIN, LONG_MAX, dec, dec, 0, 99) X(long, long, LONG_MIN, LONG_MAX, mid, mid, 10, 20) X(long, long, LONG_MIN, LONG_MAX, smid, smid, 10, 20) X(long, long, LONG_MIN, LONG_MAX, neg, neg, -20, -10) \
    X(llong, long long, LLONG_MIN, LLONG_MAX, nib, nib, -8, 7) X(llong, long long, LLONG_MIN, LLONG_MAX, dec, dec, 0, 99) X(llong, long long, LLONG_MIN, LLONG_MAX, mid, mid, 10, 20) X(llong, long long, LLONG_MIN, LLONG_MAX, smid, smid, 10, 20) X(llong, long long, LLONG_MIN, LLONG_MAX, neg, neg, -20, -10) \
    X(uchar, unsigned char, 0, UCHAR_MAX, nib, nib, -8, 7) X(uchar, unsigned char, 0, UCHAR_MAX, dec, dec, 0, 99) X(uchar, unsigned char, 0, UCHAR_MAX, mid, mid, 10, 20) X(uchar, unsigned char, 0, UCHAR_MAX, smid, smid, 10, 20) X(uchar, unsigned char, 0, UCHAR_MAX, neg, neg, -20, -10) \
    X(ushort, unsigned short, 0, USHRT_MAX, nib, nib, -8, 7) X(ushort, unsigned short, 0, USHRT_MAX, dec, dec, 0, 99) X(ushort, unsigned short, 0, USHRT_MAX, mid, mid, 10, 20) X(ushort, unsigned short, 0, USHRT_MAX, smid, smid, 10, 20) X(ushort, unsigned short, 0, USHRT_MAX, neg, neg, -20, -10) \
    X(uint, unsigned int, 0, UINT_MAX, nib, nib, -8, 7) X(uint, unsigned int, 0, UINT_MAX, dec, dec, 0, 99) X(uint, unsigned int, 0, UINT_MAX, mid, mid, 10, 20) X(uint, unsigned int, 0, UINT_MAX, smid, smid, 10, 20) X(uint, unsigned int, 0, UINT_MAX, neg, neg, -20, -10) \
    X(ulong, unsigned long, 0, ULONG_MAX, nib, nib, -8, 7) X(ulong, unsigned long, 0, ULONG_MAX, dec, dec, 0, 99) X(ulong, unsigned long, 0, ULONG_MAX, mid, mid, 10, 20) X(ulong, unsigned long, 0, ULONG_MAX, smid, smid, 10, 20) X(ulong, unsigned long, 0, ULONG_MAX, neg, neg, -20, -10) \
    X(ullong, unsigned long long, 0, ULLONG_MAX, nib, nib, -8, 7) X(ullong, unsigned long long, 0, ULLONG_MAX, dec, dec, 0, 99) X(ullong, unsigned long long, 0, ULLONG_MAX, mid, mid, 10, 20) X(ullong, unsigned long long, 0, ULLONG_MAX, smid, smid, 10, 20) X(ullong, unsigned long long, 0, ULLONG_MAX, neg, neg, -20, -10) \

#define CUSTOM(X) \
    X(_Bool, _Bool, nib, nib, -8, 7) X(_Bool, _Bool, dec, dec, 0, 99) X(_Bool, _Bool, mid, mid, 10, 20) X(_Bool, _Bool, smid, smid, 10, 20) X(_Bool, _Bool, neg, neg, -20, -10) \
    X(char, char, nib, nib, -8, 7) X(char, char, dec, dec, 0, 99) X(char, char, mid, mid, 10, 20) X(char, char, smid, smid, 10, 20) X(char, char, neg, neg, -20, -10) \
    X(schar, signed char, nib, nib, -8, 7) X(schar, signed char, dec, dec, 0, 99) X(schar, signed char, mid, mid, 10, 20) X(schar, signed char, smid, smid, 10, 20) X(schar, signed char, neg, neg, -20, -10) \
    X(short, short, nib, nib, -8, 7) X(short, short, dec, dec, 0, 99) X(short, short, mid, mid, 10, 20) X(short, short, smid, smid, 10, 20) X(short, short, neg, neg, -20, -10) \
    X(int, int, nib, nib, -8, 7) X(int, int, dec, dec, 0, 99) X(int, int, mid, mid, 10, 20) X(int, int, smid, smid, 10, 20) X(int, int, neg, neg, -20, -10) \
    X(long, long, nib, nib, -8, 7) X(long, long, dec, dec, 0, 99) X(long, long, mid, mid, 10, 20) X(long, long, smid, smid, 10, 20) X(long, long, neg, neg, -20, -10) \
    X(llong, long long, nib, nib, -8, 7) X(llong, long long, dec, dec, 0, 99) X(llong, long long, mid, mid, 10, 20) X(llong, long long, smid, smid, 10, 20) X(llong, long long, neg, neg, -20, -10) \
    X(uchar, unsigned char, nib, nib, -8, 7) X(uchar, unsigned char, dec, dec, 0, 99) X(uchar, unsigned char, mid, mid, 10, 20) X(uchar, unsigned char, smid, smid, 10, 20) X(uchar, unsigned char, neg, neg, -20, -10) \
    X(ushort, unsigned short, nib, nib, -8, 7) X(ushort, unsigned short, dec, dec, 0, 99) X(ushort, unsigned short, mid, mid, 10, 20) X(ushort, unsigned short, smid, smid, 10, 20) X(ushort, unsigned short, neg, neg, -20, -10) \
    X(uint, unsigned int, nib, nib, -8, 7) X(uint, unsigned int, dec, dec, 0, 99) X(uint, unsigned int, mid, mid, 10, 20) X(uint, unsigned int, smid, smid, 10, 20) X(uint, unsigned int, neg, neg, -20, -10) \
    X(ulong, unsigned long, nib, nib, -8, 7) X(ulong, unsigned long, dec, dec, 0, 99) X(ulong, unsigned long, mid, mid, 10, 20) X(ulong, unsigned long, smid, smid, 10, 20) X(ulong, unsigned long, neg, neg, -20, -10) \
    X(ullong, unsigned long long, nib, nib, -8, 7) X(ullong, unsigned long long, dec, dec, 0, 99) X(ullong, unsigned long long, mid, mid, 10, 20) X(ullong, unsigned long long, smid, smid, 10, 20) X(ullong, unsigned long long, neg, neg, -20, -10) \

#define INTFLT(X) \
    X(_Bool, _Bool, 0, 1, float, float) X(_Bool, _Bool, 0, 1, double, double) X(_Bool, _Bool, 0, 1, ldouble, long double) \
    X(char, char, CHAR_MIN, CHAR_MAX, float, float) X(char, char, CHAR_MIN, CHAR_MAX, double, double) X(char, char, CHAR_MIN, CHAR_MAX, ldouble, long double) \
    X(schar, signed char, SCHAR_MIN, SCHAR_MAX, float, float) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, double, double) X(schar, signed char, SCHAR_MIN, SCHAR_MAX, ldouble, long double) \
    X(short, short, SHRT_MIN, SHRT_MAX, float, float) X(short, short, SHRT_MIN, SHRT_MAX, double, double) X(short, short, SHRT_MIN, SHRT_MAX, ldouble, long double) \
    X(int, int, INT_MIN, INT_MAX, float, float) X(int, int, INT_MIN, INT_MAX, double, double) X(int, int, INT_MIN, INT_MAX, ldouble, long double) \
    X(long, long, LONG_MIN, LONG_MAX, float, float) X(long, long, LONG_MIN, LONG_MAX, double, double) X(long, long, LONG_MIN, LONG_MAX, ldouble, long double) \
    X(llong, long long, LLONG_MIN, LLONG_MAX, float, float) X(llong, long long, LLONG_MIN, LLONG_MAX, double, double) X(llong, long long, LLONG_MIN, LLONG_MAX, ldouble, long double) \
    X(uchar, unsigned char, 0, UCHAR_MAX, float, float) X(uchar, unsigned char, 0, UCHAR_MAX, double, double) X(uchar, unsigned char, 0, UCHAR_MAX, ldouble, long double) \
    X(ushort, unsigned short, 0, USHRT_MAX, float, float) X(ushort, unsigned short, 0, USHRT_MAX, double, double) X(ushort, unsigned short, 0, USHRT_MAX, ldouble, long double) \
    X(uint, unsigned int, 0, UINT_MAX, float, float) X(uint, unsigned int, 0, UINT_MAX, double, double) X(uint, unsigned int, 0, UINT_MAX, ldouble, long double) \
    X(ulong, unsigned long, 0, ULONG_MAX, float, float) X(ulong, unsigned long, 0, ULONG_MAX, double, double) X(ulong, unsigned long, 0, ULONG_MAX, ldouble, long double) \
    X(ullong, unsigned long long, 0, ULLONG_MAX, float, float) X(ullong, unsigned long long, 0, ULLONG_MAX, double, double) X(ullong, unsigned long long, 0, ULLONG_MAX, ldouble, long double) \

#define MAKE(SN, ST, DN, DT, LO, HI) PICOTM_CAST_TX(SN, ST, DN, DT, LO, HI)
CUSTOM(MAKE)
PICOTM_CAST_TX(int, int, f100, f100, -100, 100)
PICOTM_CAST_TX(ulong, unsigned long, f100, f100, -100, 100)
PICOTM_CAST_TX(float, float, f100, f100, -100, 100)
PICOTM_CAST_TX(double, double, f100, f100, -100, 100)
PICOTM_CAST_TX(llong, long long, l1000, l1000, -1000, 1000)

static long sentinel;
#define EVAL(SN, ST, DN, DT) \
static struct { ST a[BATCH]; DT r[BATCH]; int err[BATCH]; } bt_##SN##_##DN; \
static void eval_##SN##_##DN(size_t n) \
{ \
    static volatile size_t pos; \
    pos = 0; \
    while (pos < n) { \
        long old = sentinel; \
        volatile bool failed = false; \
        picotm_begin \
            store_long_tx(&sentinel, old + 1); \
            for (size_t k = 0; pos < n && k < 512; ++k) { \
                bt_##SN##_##DN.r[pos] = cast_##SN##_to_##DN##_tx(bt_##SN##_##DN.a[pos]); \
                bt_##SN##_##DN.err[pos] = 0; ++pos; \
            } \
        picotm_commit \
            failed = true; \
            if (picotm_error_status() != PICOTM_ERRNO || picotm_error_is_non_recoverable()) \
                bt_##SN##_##DN.err[pos] = -1; \
            else bt_##SN##_##DN.err[pos] = picotm_error_as_errno(); \
            ++pos; \
        picotm_end \
        if (sentinel != old + !failed) { \
            vf_viol("cast-rollback", "cast_" #SN "_to_" #DN "_tx %s but the memory written before is %s", \
                    failed ? "failed" : "succeeded", failed ? "not restored" : "not written"); \
            sentinel = old; \
        } \
    } \
}
static void pr(char *o, i128 v)
{
    char t[48]; int n = 0; bool ng = v < 0; unsigned __int128 u = ng ? -(unsigned __int128)v : (unsigned __int128)v;
    do t[n++] = '0' + (int)(u % 10); while (u /= 10);
    if (ng) *o++ = '-';
    while (n) *o++ = t[--n];
    *o = 0;
}
static i128 pick(i128 lo, i128 hi, i128 dlo, i128 dhi)
{
    i128 v;
    switch (rndn(&R, 8)) {
    case 0: v = (int)rndn(&R, 9) - 4; break;
    case 1: v = hi - (i128)rndn(&R, 4); break;
    case 2: v = lo + (i128)rndn(&R, 4); break;
    case 3: v = dhi + (int)rndn(&R, 5) - 2; break;
    case 4: v = dlo + (int)rndn(&R, 5) - 2; break;
    case 5: v = ((i128)1 << rndn(&R, 65)) + (int)rndn(&R, 5) - 2; if (rndp(&R, 50)) v = -v; break;
    case 6: v = (i128)(rnd(&R) >> rndn(&R, 64)); if (rndp(&R, 50)) v = -v; break;
    default: v = lo + (i128)(((unsigned __int128)rnd(&R) << 64 | rnd(&R)) % ((unsigned __int128)(hi - lo) + 1)); break;
    }
    return v < lo || v > hi ? lo + (i128)rndn(&R, 3) : v;
}
static void hashval(const char *s, const char *d, uint64_t a)
{
    uint64_t h = vf_hash(vf_hash(0xcbf29ce484222325ull, s, strlen(s)), d, strlen(d));
    vf_distinct(vf_hash(h, &a, 8));
}
static size_t fill(i128 *v, i128 lo, i128 hi, i128 dlo, i128 dhi, uint64_t part)
{
    uint64_t span = (uint64_t)(hi - lo) + 1; size_t n = 0;
    if (span && span <= 65536) {
        uint64_t nb = (span + BATCH - 1) / BATCH, at = (part % nb) * BATCH;
        for (; n < BATCH && at < span; ++n, ++at) v[n] = lo + (i128)at;
        vf_count("exhaustive-batches", 1);
    } else for (; n < 512; ++n) v[n] = pick(lo, hi, dlo, dhi);
    return n;
}
#define II(SN, ST, SLO, SHI, DN, DT, DLO, DHI) \
EVAL(SN, ST, DN, DT) \
static void case_##SN##_##DN(uint64_t part) \
{ \
    static i128 v[BATCH]; const i128 dlo = DLO, dhi = DHI; \
    size_t n = fill(v, SLO, SHI, dlo, dhi, part); \
    for (size_t i = 0; i < n; ++i) bt_##SN##_##DN.a[i] = (ST)v[i]; \
    eval_##SN##_##DN(n); \
    for (size_t i = 0; i < n && vf_more(); ++i) { \
        bool ok = v[i] >= dlo && v[i] <= dhi; int err = bt_##SN##_##DN.err[i]; i128 got = bt_##SN##_##DN.r[i]; \
        if (ok ? !err && got == v[i] : err == ERANGE) { \
            if (!ok) vf_count("range-errors", 1); else { vf_count("values-kept", 1); if (v[i] == dlo || v[i] == dhi) vf_count("values-at-limits", 1); } \
        } else { \
            char sv[48], sg[48]; pr(sv, v[i]); pr(sg, got); \
            vf_viol(err ? "cast-error" : "cast-result", "cast_" #SN "_to_" #DN "_tx(%s): %s%d, returned %s", sv, err ? "error " : "no error ", err, err ? "nothing" : sg); \
        } \
        if (i % 4 == 0) hashval(#SN, #DN, (uint64_t)v[i]); \
    } \
    vf_count("casts", n); \
}
INTINT(II)
/* integer to floating point: the C conversion; all native values are in range */
#define IFB(SN, ST, SLO, SHI, DN, DT, LIM) \
EVAL(SN, ST, DN, DT) \
static void case_##SN##_##DN(uint64_t part) \
{ \
    static i128 v[BATCH]; \
    size_t n = fill(v, SLO, SHI, (LIM) ? -(i128)(LIM) : SLO, (LIM) ? (i128)(LIM) : SHI, part); \
    for (size_t i = 0; i < n; ++i) bt_##SN##_##DN.a[i] = (ST)v[i]; \
    eval_##SN##_##DN(n); \
    for (size_t i = 0; i < n && vf_more(); ++i) { \
        bool ok = !(LIM) || (v[i] >= -(i128)(LIM) && v[i] <= (i128)(LIM)); \
        DT want = (DT)(ST)v[i], got = bt_##SN##_##DN.r[i]; int err = bt_##SN##_##DN.err[i]; \
        if (ok ? !err && got == want : err == ERANGE) { if (ok) vf_count("values-to-float", 1); else vf_count("range-errors", 1); } \
        else { \
            char sv[48]; pr(sv, v[i]); \
            vf_viol(err ? "cast-error" : "cast-result", "cast_" #SN "_to_" #DN "_tx(%s): %s%d, returned %La instead of %La", sv, err ? "error " : "no error ", err, \
                    (long double)got, (long double)want); \
        } \
        if (i % 4 == 0) hashval(#SN, #DN, (uint64_t)v[i]); \
    } \
    vf_count("casts", n); \
}
#define IF(SN, ST, SLO, SHI, DN, DT) IFB(SN, ST, SLO, SHI, DN, DT, 0)
INTFLT(IF)
IFB(int, int, INT_MIN, INT_MAX, f100, f100, 100)
IFB(ulong, unsigned long, 0, ULONG_MAX, f100, f100, 100)
IFB(llong, long long, LLONG_MIN, LLONG_MAX, l1000, l1000, 1000)

#define FLTFLT(X) X(double, double, DBL_MAX, nextafter, float, float, FLT_MAX) X(double, double, DBL_MAX, nextafter, ldouble, long double, LDBL_MAX) \
    X(float, float, FLT_MAX, nextafterf, double, double, DBL_MAX) X(float, float, FLT_MAX, nextafterf, ldouble, long double, LDBL_MAX) \
    X(ldouble, long double, LDBL_MAX, nextafterl, float, float, FLT_MAX) X(ldouble, long double, LDBL_MAX, nextafterl, double, double, DBL_MAX) \
    X(float, float, FLT_MAX, nextafterf, f100, f100, 100.f) X(double, double, DBL_MAX, nextafter, f100, f100, 100.f)
#define FF(SN, ST, SMAX, NEXT, DN, DT, DMAX) \
EVAL(SN, ST, DN, DT) \
static void case_##SN##_##DN(uint64_t part) \
{ \
    size_t n = 512; \
    for (size_t i = 0; i < n; ++i) { \
        ST v; long double dm = DMAX < SMAX ? DMAX : SMAX; \
        switch (rndn(&R, 7)) { \
        case 0: v = (ST)((int)rndn(&R, 9) - 4); break; \
        case 1: v = SMAX; for (int k = rndn(&R, 4); k; --k) v = NEXT(v, (ST)0); break; \
        case 2: case 3: v = (ST)dm; for (int k = rndn(&R, 5); k; --k) v = NEXT(v, rndp(&R, 50) ? (ST)0 : (ST)SMAX); break; \
        case 4: v = 0; for (int k = rndn(&R, 4); k; --k) v = NEXT(v, (ST)1); break; \
        case 5: v = (ST)(rnd(&R) >> 11) / (ST)(1ull << 53); v *= (ST)(dm / (rndp(&R, 50) ? 1 : 7)); break; \
        default: v = (ST)ldexpl((long double)rnd(&R), (int)rndn(&R, 400) - 260); if (!(v <= SMAX)) v = 1; break; \
        } \
        bt_##SN##_##DN.a[i] = rndp(&R, 50) ? -v : v; \
    } \
    eval_##SN##_##DN(n); \
    for (size_t i = 0; i < n && vf_more(); ++i) { \
        ST v = bt_##SN##_##DN.a[i]; DT want = (DT)v, got = bt_##SN##_##DN.r[i]; int err = bt_##SN##_##DN.err[i]; \
        long double m = fabsl((long double)v); \
        /* values beyond the limit that round to it may go either way */ \
        bool must_ok = m <= (long double)DMAX, must_err = !(fabsl((long double)want) <= (long double)DMAX); \
        if (must_ok ? !err && got == want : must_err ? err == ERANGE : err ? err == ERANGE : got == want) { \
            if (must_ok) vf_count("float-values", 1); else if (must_err) vf_count("float-range-errors", 1); else vf_count("float-at-limit", 1); \
        } else vf_viol(err ? "cast-error" : "cast-result", "cast_" #SN "_to_" #DN "_tx(%La): %s%d, returned %La, converted value %La", (long double)v, \
                     err ? "error " : "no error ", err, (long double)got, (long double)want); \
        uint64_t h = 0; memcpy(&h, &v, sizeof(v) < 8 ? sizeof(v) : 8); if (i % 4 == 0) hashval(#SN, #DN, h); \
    } \
    vf_count("casts", n); \
}
FLTFLT(FF)

int main(int argc, char **argv)
{
    vf_init(argc, argv);
    static void (*const fn[])(uint64_t) = {
#define P(SN, ST, SLO, SHI, DN, ...) case_##SN##_##DN,
        INTINT(P) INTFLT(P) FLTFLT(P) case_int_f100, case_ulong_f100, case_llong_l1000,
    };
    const size_t nt = sizeof(fn) / sizeof(*fn);
    vf_count("cast-functions", nt);
    for (uint64_t c = vf_from; c < vf_from + vf_cases && vf_more(); ++c) {
        vf_case(c);
        R = vf_rng(vf_seed, 24, c);
        if (c < 3) vf_sample("cast function %zu of %zu, part %" PRIu64, (size_t)(c % nt), nt, c / nt);
        fn[c % nt](c / nt);
    }
    picotm_release();
    vf_finish(0);
}
