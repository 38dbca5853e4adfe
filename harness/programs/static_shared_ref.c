/* The initialiser of shared references */
#include "picotm/picotm-lib-ref.h"
#include <stdio.h>

static struct picotm_shared_ref16 shared = PICOTM_SHARED_REF16_INITIALIZER(2);

int main(void)
{
    if (picotm_ref_count(&shared) != 2) { printf("count is %u\n", picotm_ref_count(&shared)); return 1; }
    return 0;
}
