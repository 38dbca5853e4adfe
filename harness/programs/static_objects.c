/* Lists, references and locks that are initialised statically */
#include "picotm/picotm-lib-slist.h"
#include "picotm/picotm-lib-ref.h"
#include "picotm/picotm-lib-spinlock.h"
#include "picotm/picotm-lib-rwlock.h"
#include "picotm/picotm-lib-rwstate.h"
#include "picotm/picotm-error.h"
#include <stdio.h>
#include <stdbool.h>

static struct picotm_slist head = PICOTM_SLIST_HEAD_INITIALIZER(&head);
static struct picotm_slist item = PICOTM_SLIST_ITEM_INITIALIZER;
static struct picotm_spinlock spin = PICOTM_SPINLOCK_INITIALIZER;
static struct picotm_rwlock lock = PICOTM_RWLOCK_INITIALIZER;
static struct picotm_rwstate state = PICOTM_RWSTATE_INITIALIZER;
static struct picotm_ref16 ref = PICOTM_REF_INITIALIZER(1);
static struct picotm_shared_ref16 shared = PICOTM_SHARED_REF_INITIALIZER(1);
static struct picotm_error error = PICOTM_ERROR_INITIALIZER;

#define CHECK(x) do { if (!(x)) { printf("%s\n", #x); return 1; } } while (0)

int main(void)
{
    CHECK(picotm_slist_is_empty(&head));
    CHECK(!picotm_slist_is_enqueued(&item));
    picotm_slist_enqueue_front(&head, &item);
    CHECK(picotm_slist_is_enqueued(&item) && !picotm_slist_is_empty(&head));
    CHECK(picotm_slist_front(&head) == &item);
    picotm_slist_dequeue(&item);
    CHECK(picotm_slist_is_empty(&head));
    CHECK(picotm_spinlock_try_lock(&spin) && !picotm_spinlock_try_lock(&spin));
    picotm_spinlock_unlock(&spin);
    CHECK(picotm_spinlock_try_lock(&spin));
    CHECK(!picotm_error_is_set(&error));
    CHECK(picotm_rwstate_get_status(&state) == PICOTM_RWSTATE_UNLOCKED);
    picotm_rwlock_try_wrlock(&lock, false, &error);
    CHECK(!picotm_error_is_set(&error));
    picotm_rwlock_try_rdlock(&lock, &error);
    CHECK(picotm_error_is_conflicting(&error));
    picotm_rwlock_unlock(&lock);
    CHECK(picotm_ref_count(&ref) == 1 && !picotm_ref_up(&ref) && !picotm_ref_down(&ref) && picotm_ref_down(&ref));
    CHECK(picotm_ref_count(&shared) == 1 && !picotm_ref_up(&shared) && !picotm_ref_down(&shared) && picotm_ref_down(&shared));
    return 0;
}
