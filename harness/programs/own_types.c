/* Typed operations for an application's type, and for types of the C library */
#include "picotm/picotm.h"
#include "picotm/picotm-tm.h"
#include "picotm/complex.h"
#include "picotm/math.h"
#include "picotm/string.h"
#include <stdio.h>

struct point { short x, y; char name[9]; };
PICOTM_TM_LOAD_TX(point, struct point)
PICOTM_TM_STORE_TX(point, struct point)
PICOTM_TM_PRIVATIZE_TX(point, struct point)

static struct point a = { 1, 2, "a" }, b;
static double _Complex z = 3, y;
static float_t f = 4;
static char text[20];

int main(void)
{
    picotm_begin
        struct point p = load_point_tx(&a);
        p.x += p.y;
        store_point_tx(&b, p);
        privatize_point_tx(&a, PICOTM_TM_PRIVATIZE_LOADSTORE);
        a.y = 77;
        store_cdouble_tx(&y, load_cdouble_tx(&z) * 2);
        store_float_t_tx(&f, load_float_t_tx(&f) + asinl_tx(0));
        strcpy_tx(text, "some text");
    picotm_commit
        return 1;
    picotm_end
    if (b.x != 3 || b.y != 2 || b.name[0] != 'a' || a.x != 1 || a.y != 77 || y != 6 || f != 4 || strcmp(text, "some text")) { printf("wrong values\n"); return 1; }
    picotm_release();
    return 0;
}
