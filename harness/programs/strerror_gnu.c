/* strerror_r(), as declared with _GNU_SOURCE */
#define _GNU_SOURCE 1
#include "picotm/picotm.h"
#include "picotm/string.h"
#include "picotm/string-tm.h"
#include <errno.h>
#include <stdio.h>

int main(void)
{
    static char a[100], b[100];
    const char *volatile r = NULL, *volatile s = NULL;
    picotm_begin
        char *p = strerror_r_tx(ENOENT, a, sizeof(a));
        char *q = strerror_r_tm(EPERM, b, sizeof(b));
        r = p; s = q;
    picotm_commit
        return 1;
    picotm_end
    if (!r || !s || strcmp(r, strerror(ENOENT)) || strcmp(s, strerror(EPERM))) { printf("%s, %s\n", r, s); return 1; }
    picotm_release();
    return 0;
}
