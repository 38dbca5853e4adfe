/* The example of the documentation */
#include "picotm/picotm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/stdlib.h"
#include "picotm/string.h"
#include <stdio.h>

static int value = 41;

int main(void)
{
    char *volatile copy = NULL;
    picotm_begin
        int v = load_int_tx(&value);
        store_int_tx(&value, v + 1);
        copy = strdup_tx("text");
    picotm_commit
        return 1;
    picotm_end
    if (value != 42 || !copy || copy[0] != 't') { printf("value is %d\n", value); return 1; }
    picotm_begin
        free_tx(copy);
    picotm_commit
        return 1;
    picotm_end
    picotm_release();
    return 0;
}
