/* config/config.h.  Generated from config.h.in by configure.  */
/* config/config.h.in.  Generated from configure.ac by autoheader.  */

/* SPDX-License-Identifier: LGPL-3.0-or-later */

/* Define to 1 if using 'alloca.c'. */
/* #undef C_ALLOCA */

/* Define to 1 if you have 'alloca', as a function or macro. */
#define HAVE_ALLOCA 1

/* Define to 1 if <alloca.h> works. */
#define HAVE_ALLOCA_H 1

/* Define to 1 if you have the <complex.h> header file. */
#define HAVE_COMPLEX_H 1

/* Define to 1 if you have the declaration of `get_current_dir_name', and to 0
   if you don't. */
#define HAVE_DECL_GET_CURRENT_DIR_NAME 1

/* Define to 1 if you have the declaration of `malloc_size', and to 0 if you
   don't. */
/* #undef HAVE_DECL_MALLOC_SIZE */

/* Define to 1 if you have the declaration of `malloc_usable_size', and to 0
   if you don't. */
#define HAVE_DECL_MALLOC_USABLE_SIZE 1

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H 1

/* Define to 1 if you have the <errno.h> header file. */
#define HAVE_ERRNO_H 1

/* Define to 1 if you have the <fcntl.h> header file. */
#define HAVE_FCNTL_H 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define to 1 if the system has the type `kern_return_t'. */
/* #undef HAVE_KERN_RETURN_T */

/* Define to 1 if you have the `c' library (-lc). */
#define HAVE_LIBC 1

/* Define to 1 if you have the `m' library (-lm). */
#define HAVE_LIBM 1

/* Define to 1 if you have the <locale.h> header file. */
#define HAVE_LOCALE_H 1

/* Define to 1 if you have the <malloc.h> header file. */
#define HAVE_MALLOC_H 1

/* Define to 1 if you have the <malloc/malloc.h> header file. */
/* #undef HAVE_MALLOC_MALLOC_H */

/* Define to 1 if you have the <malloc_np.h> header file. */
/* #undef HAVE_MALLOC_NP_H */

/* Define to 1 if you have the <math.h> header file. */
#define HAVE_MATH_H 1

/* Define to 1 if you have the <minix/config.h> header file. */
/* #undef HAVE_MINIX_CONFIG_H */

/* Define to 1 if you have the `posix_memalign' function. */
#define HAVE_POSIX_MEMALIGN 1

/* Define if you have POSIX threads libraries and header files. */
#define HAVE_PTHREAD 1

/* Define to 1 if the system has the type `pthread_barrierattr_t'. */
#define HAVE_PTHREAD_BARRIERATTR_T 1

/* Define to 1 if the system has the type `pthread_barrier_t'. */
#define HAVE_PTHREAD_BARRIER_T 1

/* Define to 1 if you have the <pthread.h> header file. */
#define HAVE_PTHREAD_H 1

/* Have PTHREAD_PRIO_INHERIT. */
#define HAVE_PTHREAD_PRIO_INHERIT 1

/* Define to 1 if you have the <sched.h> header file. */
#define HAVE_SCHED_H 1

/* Define to 1 if you have the <setjmp.h> header file. */
#define HAVE_SETJMP_H 1

/* Define to 1 if the system has the type `siginfo_t'. */
#define HAVE_SIGINFO_T 1

/* Define to 1 if the system has the type `sigjmp_buf'. */
#define HAVE_SIGJMP_BUF 1

/* Define to 1 if you have the <signal.h> header file. */
#define HAVE_SIGNAL_H 1

/* Define to 1 if you have the <stdbool.h> header file. */
#define HAVE_STDBOOL_H 1

/* Define to 1 if you have the <stddef.h> header file. */
#define HAVE_STDDEF_H 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the <sys/cdefs.h> header file. */
#define HAVE_SYS_CDEFS_H 1

/* Define to 1 if you have the <sys/socket.h> header file. */
#define HAVE_SYS_SOCKET_H 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <time.h> header file. */
#define HAVE_TIME_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to 1 if you have the <wchar.h> header file. */
#define HAVE_WCHAR_H 1

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#define LT_OBJDIR ".libs/"

/* Maximum number of file descriptors */
#define MAXNUMFD 1024

/* Define to 1 if assertions should be disabled. */
/* #undef NDEBUG */

/* Name of package */
#define PACKAGE "picotm"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "bugs@picotm.org"

/* Define to the full name of this package. */
#define PACKAGE_NAME "picotm"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "picotm 0.13.0"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "picotm"

/* Define to the home page for this package. */
#define PACKAGE_URL "http://picotm.org"

/* Define to the version of this package. */
#define PACKAGE_VERSION "0.13.0"

/* Define to 1 if the system has the type `char'. */
#define PICOTM_ARITHMETIC_HAVE_TYPE_CHAR 1

/* Define to 1 if the system has the type `double'. */
#define PICOTM_ARITHMETIC_HAVE_TYPE_DOUBLE 1

/* Define to 1 if the system has the type `float'. */
#define PICOTM_ARITHMETIC_HAVE_TYPE_FLOAT 1

/* Define to 1 if the system has the type `int'. */
#define PICOTM_ARITHMETIC_HAVE_TYPE_INT 1

/* Define to 1 if the system has the type `long'. */
#define PICOTM_ARITHMETIC_HAVE_TYPE_LONG 1

/* Define to 1 if the system has the type `long double'. */
#define PICOTM_ARITHMETIC_HAVE_TYPE_LONG_DOUBLE 1

/* Define to 1 if the system has the type `long long'. */
#define PICOTM_ARITHMETIC_HAVE_TYPE_LONG_LONG 1

/* Define to 1 if the system has the type `short'. */
#define PICOTM_ARITHMETIC_HAVE_TYPE_SHORT 1

/* Define to 1 if the system has the type `signed char'. */
#define PICOTM_ARITHMETIC_HAVE_TYPE_SIGNED_CHAR 1

/* Define to 1 if the system has the type `unsigned char'. */
#define PICOTM_ARITHMETIC_HAVE_TYPE_UNSIGNED_CHAR 1

/* Define to 1 if the system has the type `unsigned int'. */
#define PICOTM_ARITHMETIC_HAVE_TYPE_UNSIGNED_INT 1

/* Define to 1 if the system has the type `unsigned long'. */
#define PICOTM_ARITHMETIC_HAVE_TYPE_UNSIGNED_LONG 1

/* Define to 1 if the system has the type `unsigned long long'. */
#define PICOTM_ARITHMETIC_HAVE_TYPE_UNSIGNED_LONG_LONG 1

/* Define to 1 if the system has the type `unsigned short'. */
#define PICOTM_ARITHMETIC_HAVE_TYPE_UNSIGNED_SHORT 1

/* Define to 1 if the system has the type `_Bool'. */
#define PICOTM_ARITHMETIC_HAVE_TYPE__BOOL 1

/* Define to 1 if the system has the type `char'. */
#define PICOTM_CAST_HAVE_TYPE_CHAR 1

/* Define to 1 if the system has the type `double'. */
#define PICOTM_CAST_HAVE_TYPE_DOUBLE 1

/* Define to 1 if the system has the type `float'. */
#define PICOTM_CAST_HAVE_TYPE_FLOAT 1

/* Define to 1 if the system has the type `int'. */
#define PICOTM_CAST_HAVE_TYPE_INT 1

/* Define to 1 if the system has the type `long'. */
#define PICOTM_CAST_HAVE_TYPE_LONG 1

/* Define to 1 if the system has the type `long double'. */
#define PICOTM_CAST_HAVE_TYPE_LONG_DOUBLE 1

/* Define to 1 if the system has the type `long long'. */
#define PICOTM_CAST_HAVE_TYPE_LONG_LONG 1

/* Define to 1 if the system has the type `short'. */
#define PICOTM_CAST_HAVE_TYPE_SHORT 1

/* Define to 1 if the system has the type `signed char'. */
#define PICOTM_CAST_HAVE_TYPE_SIGNED_CHAR 1

/* Define to 1 if the system has the type `unsigned char'. */
#define PICOTM_CAST_HAVE_TYPE_UNSIGNED_CHAR 1

/* Define to 1 if the system has the type `unsigned int'. */
#define PICOTM_CAST_HAVE_TYPE_UNSIGNED_INT 1

/* Define to 1 if the system has the type `unsigned long'. */
#define PICOTM_CAST_HAVE_TYPE_UNSIGNED_LONG 1

/* Define to 1 if the system has the type `unsigned long long'. */
#define PICOTM_CAST_HAVE_TYPE_UNSIGNED_LONG_LONG 1

/* Define to 1 if the system has the type `unsigned short'. */
#define PICOTM_CAST_HAVE_TYPE_UNSIGNED_SHORT 1

/* Define to 1 if the system has the type `_Bool'. */
#define PICOTM_CAST_HAVE_TYPE__BOOL 1

/* Define to 1 if you have the <setjmp.h> header file. */
#define PICOTM_HAVE_SETJMP_H 1

/* Define to 1 if you have the <signal.h> header file. */
#define PICOTM_HAVE_SIGNAL_H 1

/* Define to 1 if the system has the type 'kern_return_t'. */
/* #undef PICOTM_HAVE_TYPE_KERN_RETURN_T */

/* Define to 1 if the system has the type 'siginfo_t'. */
#define PICOTM_HAVE_TYPE_SIGINFO_T 1

/* Define to 1 if the system has the type 'sigjmp_buf'. */
#define PICOTM_HAVE_TYPE_SIGJMP_BUF 1

/* Define to 1 if you have abort. */
#define PICOTM_LIBC_HAVE_ABORT 1

/* Define to 1 if you have accept. */
#define PICOTM_LIBC_HAVE_ACCEPT 1

/* Define to 1 if you have bind. */
#define PICOTM_LIBC_HAVE_BIND 1

/* Define to 1 if you have calloc. */
#define PICOTM_LIBC_HAVE_CALLOC 1

/* Define to 1 if you have chdir. */
#define PICOTM_LIBC_HAVE_CHDIR 1

/* Define to 1 if you have chmod. */
#define PICOTM_LIBC_HAVE_CHMOD 1

/* Define to 1 if you have close. */
#define PICOTM_LIBC_HAVE_CLOSE 1

/* Define to 1 if you have connect. */
#define PICOTM_LIBC_HAVE_CONNECT 1

/* Define to 1 if you have creat. */
#define PICOTM_LIBC_HAVE_CREAT 1

/* Define to 1 if you have dup. */
#define PICOTM_LIBC_HAVE_DUP 1

/* Define to 1 if you have dup2. */
#define PICOTM_LIBC_HAVE_DUP2 1

/* Define to 1 if you have duplocale. */
#define PICOTM_LIBC_HAVE_DUPLOCALE 1

/* Define to 1 if you have errno. */
#define PICOTM_LIBC_HAVE_ERRNO 1

/* Define to 1 if you have exit. */
#define PICOTM_LIBC_HAVE_EXIT 1

/* Define to 1 if you have fchdir. */
#define PICOTM_LIBC_HAVE_FCHDIR 1

/* Define to 1 if you have fchmod. */
#define PICOTM_LIBC_HAVE_FCHMOD 1

/* Define to 1 if you have fcntl. */
#define PICOTM_LIBC_HAVE_FCNTL 1

/* Define to 1 if you have free. */
#define PICOTM_LIBC_HAVE_FREE 1

/* Define to 1 if you have freelocale. */
#define PICOTM_LIBC_HAVE_FREELOCALE 1

/* Define to 1 if you have fstat. */
#define PICOTM_LIBC_HAVE_FSTAT 1

/* Define to 1 if you have fsync. */
#define PICOTM_LIBC_HAVE_FSYNC 1

/* Define to 1 if you have getcwd. */
#define PICOTM_LIBC_HAVE_GETCWD 1

/* Define to 1 if you have link. */
#define PICOTM_LIBC_HAVE_LINK 1

/* Define to 1 if you have listen. */
#define PICOTM_LIBC_HAVE_LISTEN 1

/* Define to 1 if you have localeconv. */
#define PICOTM_LIBC_HAVE_LOCALECONV 1

/* Define to 1 if you have lseek. */
#define PICOTM_LIBC_HAVE_LSEEK 1

/* Define to 1 if you have lstat. */
#define PICOTM_LIBC_HAVE_LSTAT 1

/* Define to 1 if you have malloc. */
#define PICOTM_LIBC_HAVE_MALLOC 1

/* Define to 1 if you have memccpy. */
#define PICOTM_LIBC_HAVE_MEMCCPY 1

/* Define to 1 if you have memchr. */
#define PICOTM_LIBC_HAVE_MEMCHR 1

/* Define to 1 if you have memcmp. */
#define PICOTM_LIBC_HAVE_MEMCMP 1

/* Define to 1 if you have memcpy. */
#define PICOTM_LIBC_HAVE_MEMCPY 1

/* Define to 1 if you have memmove. */
#define PICOTM_LIBC_HAVE_MEMMOVE 1

/* Define to 1 if you have memrchr. */
#define PICOTM_LIBC_HAVE_MEMRCHR 1

/* Define to 1 if you have memset. */
#define PICOTM_LIBC_HAVE_MEMSET 1

/* Define to 1 if you have mkdir. */
#define PICOTM_LIBC_HAVE_MKDIR 1

/* Define to 1 if you have mkdtemp. */
#define PICOTM_LIBC_HAVE_MKDTEMP 1

/* Define to 1 if you have mkfifo. */
#define PICOTM_LIBC_HAVE_MKFIFO 1

/* Define to 1 if you have mknod. */
#define PICOTM_LIBC_HAVE_MKNOD 1

/* Define to 1 if you have mkstemp. */
#define PICOTM_LIBC_HAVE_MKSTEMP 1

/* Define to 1 if you have newlocale. */
#define PICOTM_LIBC_HAVE_NEWLOCALE 1

/* Define to 1 if you have open. */
#define PICOTM_LIBC_HAVE_OPEN 1

/* Define to 1 if you have pipe. */
#define PICOTM_LIBC_HAVE_PIPE 1

/* Define to 1 if you have posix_memalign. */
#define PICOTM_LIBC_HAVE_POSIX_MEMALIGN 1

/* Define to 1 if you have pread. */
#define PICOTM_LIBC_HAVE_PREAD 1

/* Define to 1 if you have pwrite. */
#define PICOTM_LIBC_HAVE_PWRITE 1

/* Define to 1 if you have qsort. */
#define PICOTM_LIBC_HAVE_QSORT 1

/* Define to 1 if you have rand_r. */
#define PICOTM_LIBC_HAVE_RAND_R 1

/* Define to 1 if you have rawmemchr. */
#define PICOTM_LIBC_HAVE_RAWMEMCHR 1

/* Define to 1 if you have read. */
#define PICOTM_LIBC_HAVE_READ 1

/* Define to 1 if you have realloc. */
#define PICOTM_LIBC_HAVE_REALLOC 1

/* Define to 1 if you have recv. */
#define PICOTM_LIBC_HAVE_RECV 1

/* Define to 1 if you have sched_yield. */
#define PICOTM_LIBC_HAVE_SCHED_YIELD 1

/* Define to 1 if you have send. */
#define PICOTM_LIBC_HAVE_SEND 1

/* Define to 1 if you have setlocale. */
#define PICOTM_LIBC_HAVE_SETLOCALE 1

/* Define to 1 if you have shutdown. */
#define PICOTM_LIBC_HAVE_SHUTDOWN 1

/* Define to 1 if you have sleep. */
#define PICOTM_LIBC_HAVE_SLEEP 1

/* Define to 1 if you have snprintf. */
#define PICOTM_LIBC_HAVE_SNPRINTF 1

/* Define to 1 if you have socket. */
#define PICOTM_LIBC_HAVE_SOCKET 1

/* Define to 1 if you have sscanf. */
#define PICOTM_LIBC_HAVE_SSCANF 1

/* Define to 1 if you have stat. */
#define PICOTM_LIBC_HAVE_STAT 1

/* Define to 1 if you have stpcpy. */
#define PICOTM_LIBC_HAVE_STPCPY 1

/* Define to 1 if you have stpncpy. */
#define PICOTM_LIBC_HAVE_STPNCPY 1

/* Define to 1 if you have strcat. */
#define PICOTM_LIBC_HAVE_STRCAT 1

/* Define to 1 if you have strchr. */
#define PICOTM_LIBC_HAVE_STRCHR 1

/* Define to 1 if you have strcmp. */
#define PICOTM_LIBC_HAVE_STRCMP 1

/* Define to 1 if you have strcoll_l. */
#define PICOTM_LIBC_HAVE_STRCOLL_L 1

/* Define to 1 if you have strcpy. */
#define PICOTM_LIBC_HAVE_STRCPY 1

/* Define to 1 if you have strcspn. */
#define PICOTM_LIBC_HAVE_STRCSPN 1

/* Define to 1 if you have strdup. */
#define PICOTM_LIBC_HAVE_STRDUP 1

/* Define to 1 if you have strerror_r. */
#define PICOTM_LIBC_HAVE_STRERROR_R 1

/* Define to 1 if you have strftime. */
#define PICOTM_LIBC_HAVE_STRFTIME 1

/* Define to 1 if you have strftime_l. */
#define PICOTM_LIBC_HAVE_STRFTIME_L 1

/* Define to 1 if you have strlen. */
#define PICOTM_LIBC_HAVE_STRLEN 1

/* Define to 1 if you have strncat. */
#define PICOTM_LIBC_HAVE_STRNCAT 1

/* Define to 1 if you have strncmp. */
#define PICOTM_LIBC_HAVE_STRNCMP 1

/* Define to 1 if you have strncpy. */
#define PICOTM_LIBC_HAVE_STRNCPY 1

/* Define to 1 if you have strndup. */
#define PICOTM_LIBC_HAVE_STRNDUP 1

/* Define to 1 if you have strnlen. */
#define PICOTM_LIBC_HAVE_STRNLEN 1

/* Define to 1 if you have strpbrk. */
#define PICOTM_LIBC_HAVE_STRPBRK 1

/* Define to 1 if you have strptime. */
#define PICOTM_LIBC_HAVE_STRPTIME 1

/* Define to 1 if you have strrchr. */
#define PICOTM_LIBC_HAVE_STRRCHR 1

/* Define to 1 if you have strspn. */
#define PICOTM_LIBC_HAVE_STRSPN 1

/* Define to 1 if you have strstr. */
#define PICOTM_LIBC_HAVE_STRSTR 1

/* Define to 1 if you have strtok_r. */
#define PICOTM_LIBC_HAVE_STRTOK_R 1

/* Define to 1 if you have sync. */
#define PICOTM_LIBC_HAVE_SYNC 1

/* Define to 1 if the system has the type `blkcnt_t'. */
#define PICOTM_LIBC_HAVE_TYPE_BLKCNT_T 1

/* Define to 1 if the system has the type `blksize_t'. */
#define PICOTM_LIBC_HAVE_TYPE_BLKSIZE_T 1

/* Define to 1 if the system has the type `bool'. */
#define PICOTM_LIBC_HAVE_TYPE_BOOL 1

/* Define to 1 if the system has the type `clockid_t'. */
#define PICOTM_LIBC_HAVE_TYPE_CLOCKID_T 1

/* Define to 1 if the system has the type `clock_t'. */
#define PICOTM_LIBC_HAVE_TYPE_CLOCK_T 1

/* Define to 1 if the system has the type `dev_t'. */
#define PICOTM_LIBC_HAVE_TYPE_DEV_T 1

/* Define to 1 if the system has the type `div_t'. */
#define PICOTM_LIBC_HAVE_TYPE_DIV_T 1

/* Define to 1 if the system has the type `fsblkcnt_t'. */
#define PICOTM_LIBC_HAVE_TYPE_FSBLKCNT_T 1

/* Define to 1 if the system has the type `fsfilcnt_t'. */
#define PICOTM_LIBC_HAVE_TYPE_FSFILCNT_T 1

/* Define to 1 if the system has the type `gid_t'. */
#define PICOTM_LIBC_HAVE_TYPE_GID_T 1

/* Define to 1 if the system has the type `id_t'. */
#define PICOTM_LIBC_HAVE_TYPE_ID_T 1

/* Define to 1 if the system has the type `ino_t'. */
#define PICOTM_LIBC_HAVE_TYPE_INO_T 1

/* Define to 1 if the system has the type `int16_t'. */
#define PICOTM_LIBC_HAVE_TYPE_INT16_T 1

/* Define to 1 if the system has the type `int32_t'. */
#define PICOTM_LIBC_HAVE_TYPE_INT32_T 1

/* Define to 1 if the system has the type `int64_t'. */
#define PICOTM_LIBC_HAVE_TYPE_INT64_T 1

/* Define to 1 if the system has the type `int8_t'. */
#define PICOTM_LIBC_HAVE_TYPE_INT8_T 1

/* Define to 1 if the system has the type `intmax_t'. */
#define PICOTM_LIBC_HAVE_TYPE_INTMAX_T 1

/* Define to 1 if the system has the type `intptr_t'. */
#define PICOTM_LIBC_HAVE_TYPE_INTPTR_T 1

/* Define to 1 if the system has the type `int_fast16_t'. */
#define PICOTM_LIBC_HAVE_TYPE_INT_FAST16_T 1

/* Define to 1 if the system has the type `int_fast32_t'. */
#define PICOTM_LIBC_HAVE_TYPE_INT_FAST32_T 1

/* Define to 1 if the system has the type `int_fast64_t'. */
#define PICOTM_LIBC_HAVE_TYPE_INT_FAST64_T 1

/* Define to 1 if the system has the type `int_fast8_t'. */
#define PICOTM_LIBC_HAVE_TYPE_INT_FAST8_T 1

/* Define to 1 if the system has the type `int_least16_t'. */
#define PICOTM_LIBC_HAVE_TYPE_INT_LEAST16_T 1

/* Define to 1 if the system has the type `int_least32_t'. */
#define PICOTM_LIBC_HAVE_TYPE_INT_LEAST32_T 1

/* Define to 1 if the system has the type `int_least64_t'. */
#define PICOTM_LIBC_HAVE_TYPE_INT_LEAST64_T 1

/* Define to 1 if the system has the type `int_least8_t'. */
#define PICOTM_LIBC_HAVE_TYPE_INT_LEAST8_T 1

/* Define to 1 if the system has the type `key_t'. */
#define PICOTM_LIBC_HAVE_TYPE_KEY_T 1

/* Define to 1 if the system has the type `ldiv_t'. */
#define PICOTM_LIBC_HAVE_TYPE_LDIV_T 1

/* Define to 1 if the system has the type `lldiv_t'. */
#define PICOTM_LIBC_HAVE_TYPE_LLDIV_T 1

/* Define to 1 if the system has the type `locale_t'. */
#define PICOTM_LIBC_HAVE_TYPE_LOCALE_T 1

/* Define to 1 if the system has the type `mode_t'. */
#define PICOTM_LIBC_HAVE_TYPE_MODE_T 1

/* Define to 1 if the system has the type `nlink_t'. */
#define PICOTM_LIBC_HAVE_TYPE_NLINK_T 1

/* Define to 1 if the system has the type `off_t'. */
#define PICOTM_LIBC_HAVE_TYPE_OFF_T 1

/* Define to 1 if the system has the type `pid_t'. */
#define PICOTM_LIBC_HAVE_TYPE_PID_T 1

/* Define to 1 if the system has the type `ptrdiff_t'. */
#define PICOTM_LIBC_HAVE_TYPE_PTRDIFF_T 1

/* Define to 1 if the system has the type `size_t'. */
#define PICOTM_LIBC_HAVE_TYPE_SIZE_T 1

/* Define to 1 if the system has the type `ssize_t'. */
#define PICOTM_LIBC_HAVE_TYPE_SSIZE_T 1

/* Define to 1 if the system has the type `struct itimerspec'. */
#define PICOTM_LIBC_HAVE_TYPE_STRUCT_ITIMERSPEC 1

/* Define to 1 if the system has the type `struct lconv'. */
#define PICOTM_LIBC_HAVE_TYPE_STRUCT_LCONV 1

/* Define to 1 if the system has the type `struct timespec'. */
#define PICOTM_LIBC_HAVE_TYPE_STRUCT_TIMESPEC 1

/* Define to 1 if the system has the type `struct tm'. */
#define PICOTM_LIBC_HAVE_TYPE_STRUCT_TM 1

/* Define to 1 if the system has the type `suseconds_t'. */
#define PICOTM_LIBC_HAVE_TYPE_SUSECONDS_T 1

/* Define to 1 if the system has the type `timer_t'. */
#define PICOTM_LIBC_HAVE_TYPE_TIMER_T 1

/* Define to 1 if the system has the type `time_t'. */
#define PICOTM_LIBC_HAVE_TYPE_TIME_T 1

/* Define to 1 if the system has the type `uid_t'. */
#define PICOTM_LIBC_HAVE_TYPE_UID_T 1

/* Define to 1 if the system has the type `uint16_t'. */
#define PICOTM_LIBC_HAVE_TYPE_UINT16_T 1

/* Define to 1 if the system has the type `uint32_t'. */
#define PICOTM_LIBC_HAVE_TYPE_UINT32_T 1

/* Define to 1 if the system has the type `uint64_t'. */
#define PICOTM_LIBC_HAVE_TYPE_UINT64_T 1

/* Define to 1 if the system has the type `uint8_t'. */
#define PICOTM_LIBC_HAVE_TYPE_UINT8_T 1

/* Define to 1 if the system has the type `uintmax_t'. */
#define PICOTM_LIBC_HAVE_TYPE_UINTMAX_T 1

/* Define to 1 if the system has the type `uintptr_t'. */
#define PICOTM_LIBC_HAVE_TYPE_UINTPTR_T 1

/* Define to 1 if the system has the type `uint_fast16_t'. */
#define PICOTM_LIBC_HAVE_TYPE_UINT_FAST16_T 1

/* Define to 1 if the system has the type `uint_fast32_t'. */
#define PICOTM_LIBC_HAVE_TYPE_UINT_FAST32_T 1

/* Define to 1 if the system has the type `uint_fast64_t'. */
#define PICOTM_LIBC_HAVE_TYPE_UINT_FAST64_T 1

/* Define to 1 if the system has the type `uint_fast8_t'. */
#define PICOTM_LIBC_HAVE_TYPE_UINT_FAST8_T 1

/* Define to 1 if the system has the type `uint_least16_t'. */
#define PICOTM_LIBC_HAVE_TYPE_UINT_LEAST16_T 1

/* Define to 1 if the system has the type `uint_least32_t'. */
#define PICOTM_LIBC_HAVE_TYPE_UINT_LEAST32_T 1

/* Define to 1 if the system has the type `uint_least64_t'. */
#define PICOTM_LIBC_HAVE_TYPE_UINT_LEAST64_T 1

/* Define to 1 if the system has the type `uint_least8_t'. */
#define PICOTM_LIBC_HAVE_TYPE_UINT_LEAST8_T 1

/* Define to 1 if the system has the type `wchar_t'. */
#define PICOTM_LIBC_HAVE_TYPE_WCHAR_T 1

/* Define to 1 if you have unlink. */
#define PICOTM_LIBC_HAVE_UNLINK 1

/* Define to 1 if you have uselocale. */
#define PICOTM_LIBC_HAVE_USELOCALE 1

/* Define to 1 if you have vsnprintf. */
#define PICOTM_LIBC_HAVE_VSNPRINTF 1

/* Define to 1 if you have vsscanf. */
#define PICOTM_LIBC_HAVE_VSSCANF 1

/* Define to 1 if you have write. */
#define PICOTM_LIBC_HAVE_WRITE 1

/* Define to 1 if you have _exit. */
#define PICOTM_LIBC_HAVE__EXIT 1

/* Define to 1 if you have acos. */
#define PICOTM_LIBM_HAVE_ACOS 1

/* Define to 1 if you have acosf. */
#define PICOTM_LIBM_HAVE_ACOSF 1

/* Define to 1 if you have acosh. */
#define PICOTM_LIBM_HAVE_ACOSH 1

/* Define to 1 if you have acoshf. */
#define PICOTM_LIBM_HAVE_ACOSHF 1

/* Define to 1 if you have acoshl. */
#define PICOTM_LIBM_HAVE_ACOSHL 1

/* Define to 1 if you have acosl. */
#define PICOTM_LIBM_HAVE_ACOSL 1

/* Define to 1 if you have asin. */
#define PICOTM_LIBM_HAVE_ASIN 1

/* Define to 1 if you have asinf. */
#define PICOTM_LIBM_HAVE_ASINF 1

/* Define to 1 if you have asinh. */
#define PICOTM_LIBM_HAVE_ASINH 1

/* Define to 1 if you have asinhf. */
#define PICOTM_LIBM_HAVE_ASINHF 1

/* Define to 1 if you have asinhl. */
#define PICOTM_LIBM_HAVE_ASINHL 1

/* Define to 1 if you have asinl. */
#define PICOTM_LIBM_HAVE_ASINL 1

/* Define to 1 if you have atan. */
#define PICOTM_LIBM_HAVE_ATAN 1

/* Define to 1 if you have atan2. */
#define PICOTM_LIBM_HAVE_ATAN2 1

/* Define to 1 if you have atan2f. */
#define PICOTM_LIBM_HAVE_ATAN2F 1

/* Define to 1 if you have atan2l. */
#define PICOTM_LIBM_HAVE_ATAN2L 1

/* Define to 1 if you have atanf. */
#define PICOTM_LIBM_HAVE_ATANF 1

/* Define to 1 if you have atanh. */
#define PICOTM_LIBM_HAVE_ATANH 1

/* Define to 1 if you have atanhf. */
#define PICOTM_LIBM_HAVE_ATANHF 1

/* Define to 1 if you have atanhl. */
#define PICOTM_LIBM_HAVE_ATANHL 1

/* Define to 1 if you have atanl. */
#define PICOTM_LIBM_HAVE_ATANL 1

/* Define to 1 if you have cabs. */
#define PICOTM_LIBM_HAVE_CABS 1

/* Define to 1 if you have cabsf. */
#define PICOTM_LIBM_HAVE_CABSF 1

/* Define to 1 if you have cabsl. */
#define PICOTM_LIBM_HAVE_CABSL 1

/* Define to 1 if you have cacos. */
#define PICOTM_LIBM_HAVE_CACOS 1

/* Define to 1 if you have cacosf. */
#define PICOTM_LIBM_HAVE_CACOSF 1

/* Define to 1 if you have cacosh. */
#define PICOTM_LIBM_HAVE_CACOSH 1

/* Define to 1 if you have cacoshf. */
#define PICOTM_LIBM_HAVE_CACOSHF 1

/* Define to 1 if you have cacoshl. */
#define PICOTM_LIBM_HAVE_CACOSHL 1

/* Define to 1 if you have cacosl. */
#define PICOTM_LIBM_HAVE_CACOSL 1

/* Define to 1 if you have carg. */
#define PICOTM_LIBM_HAVE_CARG 1

/* Define to 1 if you have cargf. */
#define PICOTM_LIBM_HAVE_CARGF 1

/* Define to 1 if you have cargl. */
#define PICOTM_LIBM_HAVE_CARGL 1

/* Define to 1 if you have casin. */
#define PICOTM_LIBM_HAVE_CASIN 1

/* Define to 1 if you have casinf. */
#define PICOTM_LIBM_HAVE_CASINF 1

/* Define to 1 if you have casinh. */
#define PICOTM_LIBM_HAVE_CASINH 1

/* Define to 1 if you have casinhf. */
#define PICOTM_LIBM_HAVE_CASINHF 1

/* Define to 1 if you have casinhl. */
#define PICOTM_LIBM_HAVE_CASINHL 1

/* Define to 1 if you have casinl. */
#define PICOTM_LIBM_HAVE_CASINL 1

/* Define to 1 if you have catan. */
#define PICOTM_LIBM_HAVE_CATAN 1

/* Define to 1 if you have catanf. */
#define PICOTM_LIBM_HAVE_CATANF 1

/* Define to 1 if you have catanh. */
#define PICOTM_LIBM_HAVE_CATANH 1

/* Define to 1 if you have catanhf. */
#define PICOTM_LIBM_HAVE_CATANHF 1

/* Define to 1 if you have catanhl. */
#define PICOTM_LIBM_HAVE_CATANHL 1

/* Define to 1 if you have catanl. */
#define PICOTM_LIBM_HAVE_CATANL 1

/* Define to 1 if you have cbrt. */
#define PICOTM_LIBM_HAVE_CBRT 1

/* Define to 1 if you have cbrtf. */
#define PICOTM_LIBM_HAVE_CBRTF 1

/* Define to 1 if you have cbrtl. */
#define PICOTM_LIBM_HAVE_CBRTL 1

/* Define to 1 if you have ccos. */
#define PICOTM_LIBM_HAVE_CCOS 1

/* Define to 1 if you have ccosf. */
#define PICOTM_LIBM_HAVE_CCOSF 1

/* Define to 1 if you have ccosh. */
#define PICOTM_LIBM_HAVE_CCOSH 1

/* Define to 1 if you have ccoshf. */
#define PICOTM_LIBM_HAVE_CCOSHF 1

/* Define to 1 if you have ccoshl. */
#define PICOTM_LIBM_HAVE_CCOSHL 1

/* Define to 1 if you have ccosl. */
#define PICOTM_LIBM_HAVE_CCOSL 1

/* Define to 1 if you have ceil. */
#define PICOTM_LIBM_HAVE_CEIL 1

/* Define to 1 if you have ceilf. */
#define PICOTM_LIBM_HAVE_CEILF 1

/* Define to 1 if you have ceill. */
#define PICOTM_LIBM_HAVE_CEILL 1

/* Define to 1 if you have cexp. */
#define PICOTM_LIBM_HAVE_CEXP 1

/* Define to 1 if you have cexpf. */
#define PICOTM_LIBM_HAVE_CEXPF 1

/* Define to 1 if you have cexpl. */
#define PICOTM_LIBM_HAVE_CEXPL 1

/* Define to 1 if you have cimag. */
#define PICOTM_LIBM_HAVE_CIMAG 1

/* Define to 1 if you have cimagf. */
#define PICOTM_LIBM_HAVE_CIMAGF 1

/* Define to 1 if you have cimagl. */
#define PICOTM_LIBM_HAVE_CIMAGL 1

/* Define to 1 if you have clog. */
#define PICOTM_LIBM_HAVE_CLOG 1

/* Define to 1 if you have clogf. */
#define PICOTM_LIBM_HAVE_CLOGF 1

/* Define to 1 if you have clogl. */
#define PICOTM_LIBM_HAVE_CLOGL 1

/* Define to 1 if you have conj. */
#define PICOTM_LIBM_HAVE_CONJ 1

/* Define to 1 if you have conjf. */
#define PICOTM_LIBM_HAVE_CONJF 1

/* Define to 1 if you have conjl. */
#define PICOTM_LIBM_HAVE_CONJL 1

/* Define to 1 if you have copysign. */
#define PICOTM_LIBM_HAVE_COPYSIGN 1

/* Define to 1 if you have copysignf. */
#define PICOTM_LIBM_HAVE_COPYSIGNF 1

/* Define to 1 if you have copysignl. */
#define PICOTM_LIBM_HAVE_COPYSIGNL 1

/* Define to 1 if you have cos. */
#define PICOTM_LIBM_HAVE_COS 1

/* Define to 1 if you have cosf. */
#define PICOTM_LIBM_HAVE_COSF 1

/* Define to 1 if you have cosh. */
#define PICOTM_LIBM_HAVE_COSH 1

/* Define to 1 if you have coshf. */
#define PICOTM_LIBM_HAVE_COSHF 1

/* Define to 1 if you have coshl. */
#define PICOTM_LIBM_HAVE_COSHL 1

/* Define to 1 if you have cosl. */
#define PICOTM_LIBM_HAVE_COSL 1

/* Define to 1 if you have cpow. */
#define PICOTM_LIBM_HAVE_CPOW 1

/* Define to 1 if you have cpowf. */
#define PICOTM_LIBM_HAVE_CPOWF 1

/* Define to 1 if you have cpowl. */
#define PICOTM_LIBM_HAVE_CPOWL 1

/* Define to 1 if you have cproj. */
#define PICOTM_LIBM_HAVE_CPROJ 1

/* Define to 1 if you have cprojf. */
#define PICOTM_LIBM_HAVE_CPROJF 1

/* Define to 1 if you have cprojl. */
#define PICOTM_LIBM_HAVE_CPROJL 1

/* Define to 1 if you have creal. */
#define PICOTM_LIBM_HAVE_CREAL 1

/* Define to 1 if you have crealf. */
#define PICOTM_LIBM_HAVE_CREALF 1

/* Define to 1 if you have creall. */
#define PICOTM_LIBM_HAVE_CREALL 1

/* Define to 1 if you have csin. */
#define PICOTM_LIBM_HAVE_CSIN 1

/* Define to 1 if you have csinf. */
#define PICOTM_LIBM_HAVE_CSINF 1

/* Define to 1 if you have csinh. */
#define PICOTM_LIBM_HAVE_CSINH 1

/* Define to 1 if you have csinhf. */
#define PICOTM_LIBM_HAVE_CSINHF 1

/* Define to 1 if you have csinhl. */
#define PICOTM_LIBM_HAVE_CSINHL 1

/* Define to 1 if you have csinl. */
#define PICOTM_LIBM_HAVE_CSINL 1

/* Define to 1 if you have csqrt. */
#define PICOTM_LIBM_HAVE_CSQRT 1

/* Define to 1 if you have csqrtf. */
#define PICOTM_LIBM_HAVE_CSQRTF 1

/* Define to 1 if you have csqrtl. */
#define PICOTM_LIBM_HAVE_CSQRTL 1

/* Define to 1 if you have ctan. */
#define PICOTM_LIBM_HAVE_CTAN 1

/* Define to 1 if you have ctanf. */
#define PICOTM_LIBM_HAVE_CTANF 1

/* Define to 1 if you have ctanh. */
#define PICOTM_LIBM_HAVE_CTANH 1

/* Define to 1 if you have ctanhf. */
#define PICOTM_LIBM_HAVE_CTANHF 1

/* Define to 1 if you have ctanhl. */
#define PICOTM_LIBM_HAVE_CTANHL 1

/* Define to 1 if you have ctanl. */
#define PICOTM_LIBM_HAVE_CTANL 1

/* Define to 1 if you have erf. */
#define PICOTM_LIBM_HAVE_ERF 1

/* Define to 1 if you have erfc. */
#define PICOTM_LIBM_HAVE_ERFC 1

/* Define to 1 if you have erfcf. */
#define PICOTM_LIBM_HAVE_ERFCF 1

/* Define to 1 if you have erfcl. */
#define PICOTM_LIBM_HAVE_ERFCL 1

/* Define to 1 if you have erff. */
#define PICOTM_LIBM_HAVE_ERFF 1

/* Define to 1 if you have erfl. */
#define PICOTM_LIBM_HAVE_ERFL 1

/* Define to 1 if you have exp. */
#define PICOTM_LIBM_HAVE_EXP 1

/* Define to 1 if you have exp2. */
#define PICOTM_LIBM_HAVE_EXP2 1

/* Define to 1 if you have exp2f. */
#define PICOTM_LIBM_HAVE_EXP2F 1

/* Define to 1 if you have exp2l. */
#define PICOTM_LIBM_HAVE_EXP2L 1

/* Define to 1 if you have expf. */
#define PICOTM_LIBM_HAVE_EXPF 1

/* Define to 1 if you have expl. */
#define PICOTM_LIBM_HAVE_EXPL 1

/* Define to 1 if you have expm1. */
#define PICOTM_LIBM_HAVE_EXPM1 1

/* Define to 1 if you have expm1f. */
#define PICOTM_LIBM_HAVE_EXPM1F 1

/* Define to 1 if you have expm1l. */
#define PICOTM_LIBM_HAVE_EXPM1L 1

/* Define to 1 if you have fabs. */
#define PICOTM_LIBM_HAVE_FABS 1

/* Define to 1 if you have fabsf. */
#define PICOTM_LIBM_HAVE_FABSF 1

/* Define to 1 if you have fabsl. */
#define PICOTM_LIBM_HAVE_FABSL 1

/* Define to 1 if you have fdim. */
#define PICOTM_LIBM_HAVE_FDIM 1

/* Define to 1 if you have fdimf. */
#define PICOTM_LIBM_HAVE_FDIMF 1

/* Define to 1 if you have fdiml. */
#define PICOTM_LIBM_HAVE_FDIML 1

/* Define to 1 if you have floor. */
#define PICOTM_LIBM_HAVE_FLOOR 1

/* Define to 1 if you have floorf. */
#define PICOTM_LIBM_HAVE_FLOORF 1

/* Define to 1 if you have floorl. */
#define PICOTM_LIBM_HAVE_FLOORL 1

/* Define to 1 if you have fma. */
#define PICOTM_LIBM_HAVE_FMA 1

/* Define to 1 if you have fmaf. */
#define PICOTM_LIBM_HAVE_FMAF 1

/* Define to 1 if you have fmal. */
#define PICOTM_LIBM_HAVE_FMAL 1

/* Define to 1 if you have fmax. */
#define PICOTM_LIBM_HAVE_FMAX 1

/* Define to 1 if you have fmaxf. */
#define PICOTM_LIBM_HAVE_FMAXF 1

/* Define to 1 if you have fmaxl. */
#define PICOTM_LIBM_HAVE_FMAXL 1

/* Define to 1 if you have fmin. */
#define PICOTM_LIBM_HAVE_FMIN 1

/* Define to 1 if you have fminf. */
#define PICOTM_LIBM_HAVE_FMINF 1

/* Define to 1 if you have fminl. */
#define PICOTM_LIBM_HAVE_FMINL 1

/* Define to 1 if you have fmod. */
#define PICOTM_LIBM_HAVE_FMOD 1

/* Define to 1 if you have fmodf. */
#define PICOTM_LIBM_HAVE_FMODF 1

/* Define to 1 if you have fmodl. */
#define PICOTM_LIBM_HAVE_FMODL 1

/* Define to 1 if you have frexp. */
#define PICOTM_LIBM_HAVE_FREXP 1

/* Define to 1 if you have frexpf. */
#define PICOTM_LIBM_HAVE_FREXPF 1

/* Define to 1 if you have frexpl. */
#define PICOTM_LIBM_HAVE_FREXPL 1

/* Define to 1 if you have hypot. */
#define PICOTM_LIBM_HAVE_HYPOT 1

/* Define to 1 if you have hypotf. */
#define PICOTM_LIBM_HAVE_HYPOTF 1

/* Define to 1 if you have hypotl. */
#define PICOTM_LIBM_HAVE_HYPOTL 1

/* Define to 1 if you have ilogb. */
#define PICOTM_LIBM_HAVE_ILOGB 1

/* Define to 1 if you have ilogbf. */
#define PICOTM_LIBM_HAVE_ILOGBF 1

/* Define to 1 if you have ilogbl. */
#define PICOTM_LIBM_HAVE_ILOGBL 1

/* Define to 1 if you have j0. */
#define PICOTM_LIBM_HAVE_J0 1

/* Define to 1 if you have j1. */
#define PICOTM_LIBM_HAVE_J1 1

/* Define to 1 if you have jn. */
#define PICOTM_LIBM_HAVE_JN 1

/* Define to 1 if you have ldexp. */
#define PICOTM_LIBM_HAVE_LDEXP 1

/* Define to 1 if you have ldexpf. */
#define PICOTM_LIBM_HAVE_LDEXPF 1

/* Define to 1 if you have ldexpl. */
#define PICOTM_LIBM_HAVE_LDEXPL 1

/* Define to 1 if you have lgamma. */
#define PICOTM_LIBM_HAVE_LGAMMA 1

/* Define to 1 if you have lgammaf. */
#define PICOTM_LIBM_HAVE_LGAMMAF 1

/* Define to 1 if you have lgammal. */
#define PICOTM_LIBM_HAVE_LGAMMAL 1

/* Define to 1 if you have llrint. */
#define PICOTM_LIBM_HAVE_LLRINT 1

/* Define to 1 if you have llrintf. */
#define PICOTM_LIBM_HAVE_LLRINTF 1

/* Define to 1 if you have llrintl. */
#define PICOTM_LIBM_HAVE_LLRINTL 1

/* Define to 1 if you have llround. */
#define PICOTM_LIBM_HAVE_LLROUND 1

/* Define to 1 if you have llroundf. */
#define PICOTM_LIBM_HAVE_LLROUNDF 1

/* Define to 1 if you have llroundl. */
#define PICOTM_LIBM_HAVE_LLROUNDL 1

/* Define to 1 if you have log. */
#define PICOTM_LIBM_HAVE_LOG 1

/* Define to 1 if you have log10. */
#define PICOTM_LIBM_HAVE_LOG10 1

/* Define to 1 if you have log10f. */
#define PICOTM_LIBM_HAVE_LOG10F 1

/* Define to 1 if you have log10l. */
#define PICOTM_LIBM_HAVE_LOG10L 1

/* Define to 1 if you have log1p. */
#define PICOTM_LIBM_HAVE_LOG1P 1

/* Define to 1 if you have log1pf. */
#define PICOTM_LIBM_HAVE_LOG1PF 1

/* Define to 1 if you have log1pl. */
#define PICOTM_LIBM_HAVE_LOG1PL 1

/* Define to 1 if you have log2. */
#define PICOTM_LIBM_HAVE_LOG2 1

/* Define to 1 if you have log2f. */
#define PICOTM_LIBM_HAVE_LOG2F 1

/* Define to 1 if you have log2l. */
#define PICOTM_LIBM_HAVE_LOG2L 1

/* Define to 1 if you have logb. */
#define PICOTM_LIBM_HAVE_LOGB 1

/* Define to 1 if you have logbf. */
#define PICOTM_LIBM_HAVE_LOGBF 1

/* Define to 1 if you have logbl. */
#define PICOTM_LIBM_HAVE_LOGBL 1

/* Define to 1 if you have logf. */
#define PICOTM_LIBM_HAVE_LOGF 1

/* Define to 1 if you have logl. */
#define PICOTM_LIBM_HAVE_LOGL 1

/* Define to 1 if you have lrint. */
#define PICOTM_LIBM_HAVE_LRINT 1

/* Define to 1 if you have lrintf. */
#define PICOTM_LIBM_HAVE_LRINTF 1

/* Define to 1 if you have lrintl. */
#define PICOTM_LIBM_HAVE_LRINTL 1

/* Define to 1 if you have lround. */
#define PICOTM_LIBM_HAVE_LROUND 1

/* Define to 1 if you have lroundf. */
#define PICOTM_LIBM_HAVE_LROUNDF 1

/* Define to 1 if you have lroundl. */
#define PICOTM_LIBM_HAVE_LROUNDL 1

/* Define to 1 if you have modf. */
#define PICOTM_LIBM_HAVE_MODF 1

/* Define to 1 if you have modff. */
#define PICOTM_LIBM_HAVE_MODFF 1

/* Define to 1 if you have modfl. */
#define PICOTM_LIBM_HAVE_MODFL 1

/* Define to 1 if you have nan. */
#define PICOTM_LIBM_HAVE_NAN 1

/* Define to 1 if you have nanf. */
#define PICOTM_LIBM_HAVE_NANF 1

/* Define to 1 if you have nanl. */
#define PICOTM_LIBM_HAVE_NANL 1

/* Define to 1 if you have nearbyint. */
#define PICOTM_LIBM_HAVE_NEARBYINT 1

/* Define to 1 if you have nearbyintf. */
#define PICOTM_LIBM_HAVE_NEARBYINTF 1

/* Define to 1 if you have nearbyintl. */
#define PICOTM_LIBM_HAVE_NEARBYINTL 1

/* Define to 1 if you have nextafter. */
#define PICOTM_LIBM_HAVE_NEXTAFTER 1

/* Define to 1 if you have nextafterf. */
#define PICOTM_LIBM_HAVE_NEXTAFTERF 1

/* Define to 1 if you have nextafterl. */
#define PICOTM_LIBM_HAVE_NEXTAFTERL 1

/* Define to 1 if you have nexttoward. */
#define PICOTM_LIBM_HAVE_NEXTTOWARD 1

/* Define to 1 if you have nexttowardf. */
#define PICOTM_LIBM_HAVE_NEXTTOWARDF 1

/* Define to 1 if you have nexttowardl. */
#define PICOTM_LIBM_HAVE_NEXTTOWARDL 1

/* Define to 1 if you have pow. */
#define PICOTM_LIBM_HAVE_POW 1

/* Define to 1 if you have powf. */
#define PICOTM_LIBM_HAVE_POWF 1

/* Define to 1 if you have powl. */
#define PICOTM_LIBM_HAVE_POWL 1

/* Define to 1 if you have remainder. */
#define PICOTM_LIBM_HAVE_REMAINDER 1

/* Define to 1 if you have remainderf. */
#define PICOTM_LIBM_HAVE_REMAINDERF 1

/* Define to 1 if you have remainderl. */
#define PICOTM_LIBM_HAVE_REMAINDERL 1

/* Define to 1 if you have remquo. */
#define PICOTM_LIBM_HAVE_REMQUO 1

/* Define to 1 if you have remquof. */
#define PICOTM_LIBM_HAVE_REMQUOF 1

/* Define to 1 if you have remquol. */
#define PICOTM_LIBM_HAVE_REMQUOL 1

/* Define to 1 if you have rint. */
#define PICOTM_LIBM_HAVE_RINT 1

/* Define to 1 if you have rintf. */
#define PICOTM_LIBM_HAVE_RINTF 1

/* Define to 1 if you have rintl. */
#define PICOTM_LIBM_HAVE_RINTL 1

/* Define to 1 if you have round. */
#define PICOTM_LIBM_HAVE_ROUND 1

/* Define to 1 if you have roundf. */
#define PICOTM_LIBM_HAVE_ROUNDF 1

/* Define to 1 if you have roundl. */
#define PICOTM_LIBM_HAVE_ROUNDL 1

/* Define to 1 if you have scalbln. */
#define PICOTM_LIBM_HAVE_SCALBLN 1

/* Define to 1 if you have scalblnf. */
#define PICOTM_LIBM_HAVE_SCALBLNF 1

/* Define to 1 if you have scalblnl. */
#define PICOTM_LIBM_HAVE_SCALBLNL 1

/* Define to 1 if you have scalbn. */
#define PICOTM_LIBM_HAVE_SCALBN 1

/* Define to 1 if you have scalbnf. */
#define PICOTM_LIBM_HAVE_SCALBNF 1

/* Define to 1 if you have scalbnl. */
#define PICOTM_LIBM_HAVE_SCALBNL 1

/* Define to 1 if you have sin. */
#define PICOTM_LIBM_HAVE_SIN 1

/* Define to 1 if you have sinf. */
#define PICOTM_LIBM_HAVE_SINF 1

/* Define to 1 if you have sinh. */
#define PICOTM_LIBM_HAVE_SINH 1

/* Define to 1 if you have sinhf. */
#define PICOTM_LIBM_HAVE_SINHF 1

/* Define to 1 if you have sinhl. */
#define PICOTM_LIBM_HAVE_SINHL 1

/* Define to 1 if you have sinl. */
#define PICOTM_LIBM_HAVE_SINL 1

/* Define to 1 if you have sqrt. */
#define PICOTM_LIBM_HAVE_SQRT 1

/* Define to 1 if you have sqrtf. */
#define PICOTM_LIBM_HAVE_SQRTF 1

/* Define to 1 if you have sqrtl. */
#define PICOTM_LIBM_HAVE_SQRTL 1

/* Define to 1 if you have tan. */
#define PICOTM_LIBM_HAVE_TAN 1

/* Define to 1 if you have tanf. */
#define PICOTM_LIBM_HAVE_TANF 1

/* Define to 1 if you have tanh. */
#define PICOTM_LIBM_HAVE_TANH 1

/* Define to 1 if you have tanhf. */
#define PICOTM_LIBM_HAVE_TANHF 1

/* Define to 1 if you have tanhl. */
#define PICOTM_LIBM_HAVE_TANHL 1

/* Define to 1 if you have tanl. */
#define PICOTM_LIBM_HAVE_TANL 1

/* Define to 1 if you have tgamma. */
#define PICOTM_LIBM_HAVE_TGAMMA 1

/* Define to 1 if you have tgammaf. */
#define PICOTM_LIBM_HAVE_TGAMMAF 1

/* Define to 1 if you have tgammal. */
#define PICOTM_LIBM_HAVE_TGAMMAL 1

/* Define to 1 if you have trunc. */
#define PICOTM_LIBM_HAVE_TRUNC 1

/* Define to 1 if you have truncf. */
#define PICOTM_LIBM_HAVE_TRUNCF 1

/* Define to 1 if you have truncl. */
#define PICOTM_LIBM_HAVE_TRUNCL 1

/* Define to 1 if the system has the type `double_t'. */
#define PICOTM_LIBM_HAVE_TYPE_DOUBLE_T 1

/* Define to 1 if the system has the type `double _Complex'. */
#define PICOTM_LIBM_HAVE_TYPE_DOUBLE__COMPLEX 1

/* Define to 1 if the system has the type `float_t'. */
#define PICOTM_LIBM_HAVE_TYPE_FLOAT_T 1

/* Define to 1 if the system has the type `float _Complex'. */
#define PICOTM_LIBM_HAVE_TYPE_FLOAT__COMPLEX 1

/* Define to 1 if the system has the type `long double _Complex'. */
#define PICOTM_LIBM_HAVE_TYPE_LONG_DOUBLE__COMPLEX 1

/* Define to 1 if you have y0. */
#define PICOTM_LIBM_HAVE_Y0 1

/* Define to 1 if you have y1. */
#define PICOTM_LIBM_HAVE_Y1 1

/* Define to 1 if you have yn. */
#define PICOTM_LIBM_HAVE_YN 1

/* Define to 1 if you have pthread_equal. */
#define PICOTM_LIBPTHREAD_HAVE_PTHREAD_EQUAL 1

/* Define to 1 if you have pthread_self. */
#define PICOTM_LIBPTHREAD_HAVE_PTHREAD_SELF 1

/* Define to 1 if the system has the type `pthread_t'. */
#define PICOTM_LIBPTHREAD_HAVE_TYPE_PTHREAD_T 1

/* Define to 1 if the system has the type `char'. */
#define PICOTM_TM_HAVE_TYPE_CHAR 1

/* Define to 1 if the system has the type `double'. */
#define PICOTM_TM_HAVE_TYPE_DOUBLE 1

/* Define to 1 if the system has the type `float'. */
#define PICOTM_TM_HAVE_TYPE_FLOAT 1

/* Define to 1 if the system has the type `int'. */
#define PICOTM_TM_HAVE_TYPE_INT 1

/* Define to 1 if the system has the type `long'. */
#define PICOTM_TM_HAVE_TYPE_LONG 1

/* Define to 1 if the system has the type `long double'. */
#define PICOTM_TM_HAVE_TYPE_LONG_DOUBLE 1

/* Define to 1 if the system has the type `long long'. */
#define PICOTM_TM_HAVE_TYPE_LONG_LONG 1

/* Define to 1 if the system has the type `short'. */
#define PICOTM_TM_HAVE_TYPE_SHORT 1

/* Define to 1 if the system has the type `signed char'. */
#define PICOTM_TM_HAVE_TYPE_SIGNED_CHAR 1

/* Define to 1 if the system has the type `unsigned char'. */
#define PICOTM_TM_HAVE_TYPE_UNSIGNED_CHAR 1

/* Define to 1 if the system has the type `unsigned int'. */
#define PICOTM_TM_HAVE_TYPE_UNSIGNED_INT 1

/* Define to 1 if the system has the type `unsigned long'. */
#define PICOTM_TM_HAVE_TYPE_UNSIGNED_LONG 1

/* Define to 1 if the system has the type `unsigned long long'. */
#define PICOTM_TM_HAVE_TYPE_UNSIGNED_LONG_LONG 1

/* Define to 1 if the system has the type `unsigned short'. */
#define PICOTM_TM_HAVE_TYPE_UNSIGNED_SHORT 1

/* Define to 1 if the system has the type `_Bool'. */
#define PICOTM_TM_HAVE_TYPE__BOOL 1

/* Define to necessary symbol if this constant uses a non-standard name on
   your system. */
/* #undef PTHREAD_CREATE_JOINABLE */

/* Bits per file record */
#define RECBITS 5

/* If using the C implementation of alloca, define if you know the
   direction of stack growth for your system; otherwise it will be
   automatically deduced at runtime.
	STACK_DIRECTION > 0 => grows toward higher addresses
	STACK_DIRECTION < 0 => grows toward lower addresses
	STACK_DIRECTION = 0 => direction of growth unknown */
/* #undef STACK_DIRECTION */

/* Define to 1 if all of the C90 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1

/* Enable extensions on AIX 3, Interix.  */
#ifndef _ALL_SOURCE
# define _ALL_SOURCE 1
#endif
/* Enable general extensions on macOS.  */
#ifndef _DARWIN_C_SOURCE
# define _DARWIN_C_SOURCE 1
#endif
/* Enable general extensions on Solaris.  */
#ifndef __EXTENSIONS__
# define __EXTENSIONS__ 1
#endif
/* Enable GNU extensions on systems that have them.  */
#ifndef _GNU_SOURCE
# define _GNU_SOURCE 1
#endif
/* Enable X/Open compliant socket functions that do not require linking
   with -lxnet on HP-UX 11.11.  */
#ifndef _HPUX_ALT_XOPEN_SOCKET_API
# define _HPUX_ALT_XOPEN_SOCKET_API 1
#endif
/* Identify the host operating system as Minix.
   This macro does not affect the system headers' behavior.
   A future release of Autoconf may stop defining this macro.  */
#ifndef _MINIX
/* # undef _MINIX */
#endif
/* Enable general extensions on NetBSD.
   Enable NetBSD compatibility extensions on Minix.  */
#ifndef _NETBSD_SOURCE
# define _NETBSD_SOURCE 1
#endif
/* Enable OpenBSD compatibility extensions on NetBSD.
   Oddly enough, this does nothing on OpenBSD.  */
#ifndef _OPENBSD_SOURCE
# define _OPENBSD_SOURCE 1
#endif
/* Define to 1 if needed for POSIX-compatible behavior.  */
#ifndef _POSIX_SOURCE
/* # undef _POSIX_SOURCE */
#endif
/* Define to 2 if needed for POSIX-compatible behavior.  */
#ifndef _POSIX_1_SOURCE
/* # undef _POSIX_1_SOURCE */
#endif
/* Enable POSIX-compatible threading on Solaris.  */
#ifndef _POSIX_PTHREAD_SEMANTICS
# define _POSIX_PTHREAD_SEMANTICS 1
#endif
/* Enable extensions specified by ISO/IEC TS 18661-5:2014.  */
#ifndef __STDC_WANT_IEC_60559_ATTRIBS_EXT__
# define __STDC_WANT_IEC_60559_ATTRIBS_EXT__ 1
#endif
/* Enable extensions specified by ISO/IEC TS 18661-1:2014.  */
#ifndef __STDC_WANT_IEC_60559_BFP_EXT__
# define __STDC_WANT_IEC_60559_BFP_EXT__ 1
#endif
/* Enable extensions specified by ISO/IEC TS 18661-2:2015.  */
#ifndef __STDC_WANT_IEC_60559_DFP_EXT__
# define __STDC_WANT_IEC_60559_DFP_EXT__ 1
#endif
/* Enable extensions specified by ISO/IEC TS 18661-4:2015.  */
#ifndef __STDC_WANT_IEC_60559_FUNCS_EXT__
# define __STDC_WANT_IEC_60559_FUNCS_EXT__ 1
#endif
/* Enable extensions specified by ISO/IEC TS 18661-3:2015.  */
#ifndef __STDC_WANT_IEC_60559_TYPES_EXT__
# define __STDC_WANT_IEC_60559_TYPES_EXT__ 1
#endif
/* Enable extensions specified by ISO/IEC TR 24731-2:2010.  */
#ifndef __STDC_WANT_LIB_EXT2__
# define __STDC_WANT_LIB_EXT2__ 1
#endif
/* Enable extensions specified by ISO/IEC 24747:2009.  */
#ifndef __STDC_WANT_MATH_SPEC_FUNCS__
# define __STDC_WANT_MATH_SPEC_FUNCS__ 1
#endif
/* Enable extensions on HP NonStop.  */
#ifndef _TANDEM_SOURCE
# define _TANDEM_SOURCE 1
#endif
/* Enable X/Open extensions.  Define to 500 only if necessary
   to make mbstate_t available.  */
#ifndef _XOPEN_SOURCE
/* # undef _XOPEN_SOURCE */
#endif


/* Version number of package */
#define VERSION "0.13.0"

/* Enable extensions on Darwin. */
#define _DARWIN_C_SOURCE 1

/* Define to `unsigned int' if <sys/types.h> does not define. */
/* #undef size_t */
