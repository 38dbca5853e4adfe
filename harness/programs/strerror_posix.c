/* strerror_r(), as declared by POSIX */
#define _POSIX_C_SOURCE 200809L
#include "picotm/picotm.h"
#include "picotm/string.h"
#include "picotm/string-tm.h"
#include <errno.h>
#include <stdio.h>

int main(void)
{
    static char a[100], b[100];
    volatile int r = -1, s = -1;
    picotm_begin
        int p = strerror_r_tx(ENOENT, a, sizeof(a));
        int q = strerror_r_tm(EPERM, b, sizeof(b));
        r = p; s = q;
    picotm_commit
        return 1;
    picotm_end
    if (r || s || strcmp(a, strerror(ENOENT)) || strcmp(b, strerror(EPERM))) { printf("%d, %d, %s, %s\n", r, s, a, b); return 1; }
    picotm_release();
    return 0;
}
