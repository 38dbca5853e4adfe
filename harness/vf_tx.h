/* Ticket module: a picotm module, registered through the public module
 * interface, that numbers commits.  Tickets are drawn while the committing
 * transaction still holds everything it locked, so their order is a
 * serialization order of conflicting transactions. */
#ifndef VF_TX_H
#define VF_TX_H
#include "vf.h"
#include "picotm/picotm.h"
#include "picotm/picotm-module.h"
#include "picotm/picotm-error.h"

static _Atomic uint64_t vf_ticket_ctr;
struct vf_txmon {
    uint64_t ticket;     /* of the latest commit, 0 if the execution has not committed */
    uint64_t begins, prepares, applies, undos, finishes;
    bool registered;
};
static void vf_m_begin(void *d, struct picotm_error *e) { struct vf_txmon *m = d; m->ticket = 0; m->begins++; }
static void vf_m_prep(void *d, int irr, struct picotm_error *e) { ((struct vf_txmon*)d)->prepares++; }
static void vf_m_apply(void *d, struct picotm_error *e)
{
    struct vf_txmon *m = d; m->applies++;
    m->ticket = atomic_fetch_add(&vf_ticket_ctr, 1) + 1;
}
static void vf_m_undo(void *d, struct picotm_error *e) { ((struct vf_txmon*)d)->undos++; }
static void vf_m_finish(void *d, struct picotm_error *e) { ((struct vf_txmon*)d)->finishes++; }
static void vf_m_release(void *d) { ((struct vf_txmon*)d)->registered = false; }
static const struct picotm_module_ops vf_txmon_ops = {
    .begin = vf_m_begin, .prepare_commit = vf_m_prep, .apply = vf_m_apply,
    .undo = vf_m_undo, .finish = vf_m_finish, .release = vf_m_release,
};
/* call outside of a transaction */
static void vf_txmon_register(struct vf_txmon *m)
{
    if (m->registered) return;
    struct picotm_error err = PICOTM_ERROR_INITIALIZER;
    picotm_register_module(&vf_txmon_ops, m, &err);
    if (picotm_error_is_set(&err)) { fprintf(stderr, "register failed\n"); exit(2); }
    m->registered = true;
}
/* an abort for the reason of a conflict; does not return */
static inline void vf_conflict(void) { picotm_resolve_conflict(NULL); }
#endif
