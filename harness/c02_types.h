/* Every type with typed loads, stores and privatizations.  X(name, type, first padding byte, last+1) */
#define TYPES(X) \
    X(char, char, 0, 0) X(schar, signed char, 0, 0) X(uchar, unsigned char, 0, 0) X(short, short, 0, 0) X(ushort, unsigned short, 0, 0) \
    X(int, int, 0, 0) X(uint, unsigned int, 0, 0) X(long, long, 0, 0) X(ulong, unsigned long, 0, 0) \
    X(llong, long long, 0, 0) X(ullong, unsigned long long, 0, 0) X(float, float, 0, 0) X(double, double, 0, 0) \
    X(ldouble, long double, 10, 16) X(cfloat, float _Complex, 0, 0) X(cdouble, double _Complex, 0, 0) X(cldouble, long double _Complex, 10, 16) \
    X(float_t, float_t, 0, 0) X(double_t, double_t, 0, 0) \
    X(int8_t, int8_t, 0, 0) X(int16_t, int16_t, 0, 0) X(int32_t, int32_t, 0, 0) X(int64_t, int64_t, 0, 0) \
    X(uint8_t, uint8_t, 0, 0) X(uint16_t, uint16_t, 0, 0) X(uint32_t, uint32_t, 0, 0) X(uint64_t, uint64_t, 0, 0) \
    X(int_fast8_t, int_fast8_t, 0, 0) X(int_fast16_t, int_fast16_t, 0, 0) X(int_fast32_t, int_fast32_t, 0, 0) X(int_fast64_t, int_fast64_t, 0, 0) \
    X(uint_fast8_t, uint_fast8_t, 0, 0) X(uint_fast16_t, uint_fast16_t, 0, 0) X(uint_fast32_t, uint_fast32_t, 0, 0) X(uint_fast64_t, uint_fast64_t, 0, 0) \
    X(int_least8_t, int_least8_t, 0, 0) X(int_least16_t, int_least16_t, 0, 0) X(int_least32_t, int_least32_t, 0, 0) X(int_least64_t, int_least64_t, 0, 0) \
    X(uint_least8_t, uint_least8_t, 0, 0) X(uint_least16_t, uint_least16_t, 0, 0) X(uint_least32_t, uint_least32_t, 0, 0) X(uint_least64_t, uint_least64_t, 0, 0) \
    X(intmax_t, intmax_t, 0, 0) X(uintmax_t, uintmax_t, 0, 0) X(intptr_t, intptr_t, 0, 0) X(uintptr_t, uintptr_t, 0, 0) \
    X(ptrdiff_t, ptrdiff_t, 0, 0) X(size_t, size_t, 0, 0) X(ssize_t, ssize_t, 0, 0) X(wchar_t, wchar_t, 0, 0) \
    X(blkcnt_t, blkcnt_t, 0, 0) X(blksize_t, blksize_t, 0, 0) X(clock_t, clock_t, 0, 0) X(clockid_t, clockid_t, 0, 0) X(dev_t, dev_t, 0, 0) \
    X(fsblkcnt_t, fsblkcnt_t, 0, 0) X(fsfilcnt_t, fsfilcnt_t, 0, 0) X(gid_t, gid_t, 0, 0) X(id_t, id_t, 0, 0) X(ino_t, ino_t, 0, 0) X(key_t, key_t, 0, 0) \
    X(mode_t, mode_t, 0, 0) X(nlink_t, nlink_t, 0, 0) X(off_t, off_t, 0, 0) X(pid_t, pid_t, 0, 0) X(suseconds_t, suseconds_t, 0, 0) X(time_t, time_t, 0, 0) \
    X(timer_t, timer_t, 0, 0) X(uid_t, uid_t, 0, 0) X(pthread_t, pthread_t, 0, 0) X(locale_t, locale_t, 0, 0) \
    X(div_t, div_t, 0, 0) X(ldiv_t, ldiv_t, 0, 0) X(lldiv_t, lldiv_t, 0, 0) \
    X(struct_timespec, struct timespec, 0, 0) X(struct_itimerspec, struct itimerspec, 0, 0) X(struct_tm, struct tm, 36, 40) X(struct_lconv, struct lconv, 94, 96) \
    X(bool, bool, 0, 0) X(_Bool, _Bool, 0, 0) X(own, struct own, 0, 0)
