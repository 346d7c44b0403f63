#include "gel/pagemanager/page_manager.h"
#include "gel/state_machine/state_machine.h"
#include "page_api.h"

static const struct page_hooks *H;
#define KIND(n)                                                                                                          \
    static pman_page_data_t create##n(pman_model_t m, void *x) { return H->create(n, m, x); }                            \
    static void             destroy##n(pman_page_data_t d, void *x) { H->destroy(n, d, x); }                             \
    static void             open##n(pman_model_t m, pman_page_data_t d) { H->open(n, m, d); }                            \
    static void             close##n(pman_page_data_t d) { H->close(n, d); }                                             \
    static pman_view_t      update##n(pman_model_t m, pman_page_data_t d) { return H->update(n, m, d); }                 \
    static pman_message_t   event##n(pman_model_t m, pman_page_data_t d, pman_event_t e) { return H->event(n, m, d, e); }
KIND(0) KIND(1) KIND(2) KIND(3) KIND(4) KIND(5) KIND(6) KIND(7)
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
#define UPD(n) p.update = pk_has[n] & PH_UPDATE ? update##n : NULL;
#else
#define UPD(n)
#endif
#define FILL(n)                                                                                                          \
    case n:                                                                                                              \
        p.create = pk_has[n] & PH_CREATE ? create##n : NULL;                                                             \
        p.destroy = pk_has[n] & PH_DESTROY ? destroy##n : NULL;                                                          \
        p.open = pk_has[n] & PH_OPEN ? open##n : NULL;                                                                   \
        p.close = pk_has[n] & PH_CLOSE ? close##n : NULL;                                                                \
        p.process_event = event##n;                                                                                      \
        UPD(n)                                                                                                           \
        break;
static pman_page_t page(int kind, int id) {
    pman_page_t p;
    memset(&p, 0, sizeof p);
    switch (kind) { FILL(0) FILL(1) FILL(2) FILL(3) FILL(4) FILL(5) FILL(6) FILL(7) }
    p.id    = id;
    p.data  = -77777;                 // whatever the application left there
    p.extra = (void *)&H;
    return p;
}
static void p_bind(const struct page_hooks *h) { H = h; }
static void p_init(void *m) { pman_init(m); }
static int  p_change(void *m, int md, int k, int id, void *x, int plain) { return plain ? pman_change_page(m, md, page(k, id)) : pman_change_page_extra(m, md, page(k, id), x); }
static int  p_swap(void *m, int md, int k, int id, void *x, int plain) { return plain ? pman_swap_page(m, md, page(k, id)) : pman_swap_page_extra(m, md, page(k, id), x); }
static int  p_rebase(void *m, int md, int k, int id, void *x, int plain) { return plain ? pman_rebase_page(m, md, page(k, id)) : pman_rebase_page_extra(m, md, page(k, id), x); }
static int  p_back(void *m, int md) { return pman_back(m, md); }
static int  p_update(void *m, int md) { return pman_page_update(m, md); }
static int  p_reset(void *m, int md, int id, uint8_t *f) { return pman_reset_to_page(m, md, id, f); }
static int  p_event(void *m, int md, int e) { return pman_process_page_event(m, md, e); }

struct big_event { int64_t a; char pad[24]; int64_t b; };
typedef struct big_event big_event_t;
typedef struct { char dummy; } sm_model_t;
DEFINE_STATE_MACHINE(small, int, void *)
DECLARE_STATE_MACHINE(small, int, void *)
DEFINE_STATE_MACHINE(big, big_event_t, sm_model_t)
DECLARE_STATE_MACHINE(big, big_event_t, sm_model_t)
#define HANDLER(n)                                                                                                       \
    static int small##n(void **m, int e) { return H->handler(n, m, e); }                                                 \
    static int big##n(sm_model_t *m, big_event_t e) { return H->handler(n, m, e.a == e.b ? e.a : -1); }
HANDLER(0) HANDLER(1) HANDLER(2) HANDLER(3) HANDLER(4) HANDLER(5) HANDLER(6) HANDLER(7)
static small_event_manager_t small_f[8] = {small0, small1, small2, small3, small4, small5, small6, small7};
static big_event_manager_t   big_f[8]   = {big0, big1, big2, big3, big4, big5, big6, big7};
static void s_init(void *sm, int which, unsigned state, void *table, size_t states) {
    for (size_t i = 0; i < states; i++) {
        if (which) ((big_event_manager_t *)table)[i] = big_f[(i * 5 + i / 8) % 8];
        else ((small_event_manager_t *)table)[i] = small_f[(i * 5 + i / 8) % 8];
    }
    if (which) { big_state_machine_t *s = sm; s->managers = table; s->state = state; }
    else { small_state_machine_t *s = sm; s->managers = table; s->state = state; }
}
static int s_send(void *sm, int which, void *model, int64_t e) {
    if (which) { big_event_t b; memset(&b, 0, sizeof b); b.a = b.b = e; return big_sm_send_event(sm, model, b); }
    return small_sm_send_event(sm, model, (int)e);
}
static unsigned s_state(void *sm, int which) { return which ? ((big_state_machine_t *)sm)->state : ((small_state_machine_t *)sm)->state; }

#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
#define HAS 1
#else
#define HAS 0
#endif
const struct page_api VARIANT = {HAS, sizeof(page_manager_t), PMAN_NAVIGATION_DEPTH, p_bind, p_init, p_change, p_swap, p_rebase, p_back, p_update, p_reset, p_event,
                                 sizeof(small_state_machine_t) > sizeof(big_state_machine_t) ? sizeof(small_state_machine_t) : sizeof(big_state_machine_t), s_init, s_send, s_state};
