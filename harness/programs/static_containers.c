/* Statically initialised containers and entries, used in transactions */
#include "picotm/picotm-txstack.h"
#include "picotm/picotm-txqueue.h"
#include "picotm/picotm-txlist.h"
#include "picotm/picotm-txmultiset.h"
#include "picotm/picotm.h"
#include <stdbool.h>
#include <stdio.h>

static int compare(const void *a, const void *b) { return (a > b) - (a < b); }
static const void *key(struct txmultiset_entry *e) { return e; }

static struct txstack_state stack = TXSTACK_STATE_INITIALIZER(stack);
static struct txstack_entry sentry = TXSTACK_ENTRY_INITIALIZER;
static struct txqueue_state queue = TXQUEUE_STATE_INITIALIZER(queue);
static struct txqueue_entry qentry = TXQUEUE_ENTRY_INITIALIZER;
static struct txlist_state list = TXLIST_STATE_INITIALIZER(list);
static struct txlist_entry lentry = TXLIST_ENTRY_INITIALIZER;
static struct txmultiset_state ms = TXMULTISET_STATE_INITIALIZER(ms, key, compare);
static struct txmultiset_entry mentry = TXMULTISET_ENTRY_INITIALIZER;

#define CHECK(x) do { if (!(x)) { printf("%s\n", #x); bad = 1; } } while (0)

int main(void)
{
    volatile int bad = 0;
    picotm_begin
        struct txstack *s = txstack_of_state_tx(&stack);
        CHECK(txstack_empty_tx(s));
        txstack_push_tx(s, &sentry);
        CHECK(!txstack_empty_tx(s) && txstack_top_tx(s) == &sentry);
        struct txqueue *q = txqueue_of_state_tx(&queue);
        CHECK(txqueue_empty_tx(q));
        txqueue_push_tx(q, &qentry);
        CHECK(!txqueue_empty_tx(q) && txqueue_front_tx(q) == &qentry && txqueue_back_tx(q) == &qentry);
        struct txlist *l = txlist_of_state_tx(&list);
        CHECK(txlist_empty_tx(l) && txlist_size_tx(l) == 0 && txlist_begin_tx(l) == txlist_end_tx(l));
        txlist_push_back_tx(l, &lentry);
        CHECK(txlist_size_tx(l) == 1 && txlist_front_tx(l) == &lentry && txlist_back_tx(l) == &lentry);
        struct txmultiset *m = txmultiset_of_state_tx(&ms);
        CHECK(txmultiset_empty_tx(m) && txmultiset_size_tx(m) == 0);
        txmultiset_insert_tx(m, &mentry);
        CHECK(txmultiset_size_tx(m) == 1 && txmultiset_begin_tx(m) == &mentry);
    picotm_commit
        printf("error %d\n", (int)picotm_error_status());
        bad = 1;
    picotm_end
    picotm_begin
        struct txstack *s = txstack_of_state_tx(&stack);
        txstack_pop_tx(s);
        CHECK(txstack_empty_tx(s));
        struct txqueue *q = txqueue_of_state_tx(&queue);
        txqueue_pop_tx(q);
        CHECK(txqueue_empty_tx(q));
        struct txlist *l = txlist_of_state_tx(&list);
        txlist_pop_front_tx(l);
        CHECK(txlist_empty_tx(l));
        struct txmultiset *m = txmultiset_of_state_tx(&ms);
        txmultiset_erase_tx(m, &mentry);
        CHECK(txmultiset_empty_tx(m));
    picotm_commit
        printf("error %d\n", (int)picotm_error_status());
        bad = 1;
    picotm_end
    picotm_release();
    return bad;
}
