#include <stddef.h>
#include <string.h>
#include "gel/collections/listx.h"
#include "coll_api.h"
typedef struct { uint32_t id; uint8_t pad[5]; struct list_head link; uint32_t id2; } elem_t;
static void hi(void *h) { INIT_LIST_HEAD(h); }
static void hs(void *h) { struct list_head *l = h; struct list_head x = LIST_HEAD_INIT(*l); *l = x; }
static void es(void *e, uint32_t id) { elem_t *x = e; x->id = id; x->id2 = ~id; }
static void ad(void *e, void *h) { list_add(&((elem_t *)e)->link, h); }
static void at(void *e, void *h) { list_add_tail(&((elem_t *)e)->link, h); }
static void de(void *e) { list_del(&((elem_t *)e)->link); }
static int  em(void *h) { return list_empty(h); }
static int  il(void *e, void *h) { return list_is_last(&((elem_t *)e)->link, h); }
static void *wrap(struct list_head *l, void *h) {
    if (!l || l == h) return l;
    return container_of(l, elem_t, link);
}
static void *ne(void *e, void *h) { return wrap(list_next(e ? &((elem_t *)e)->link : (struct list_head *)h), h); }
static void *pr(void *e, void *h) { return wrap(list_prev(e ? &((elem_t *)e)->link : (struct list_head *)h), h); }
static int walk(void *hd, int how, uint32_t *out, int max) {
    struct list_head *h = hd, *it;
    elem_t *x;
    int n = 0;
#define PUT(E) { if (n >= max) return n + 1; out[n++] = (E)->id == ~(E)->id2 ? (E)->id : 0xFFFFFFFFu; }
    switch (how) {
        case 0: list_for_each(it, h) { x = container_of(it, elem_t, link); PUT(x) } break;
        case 1: list_for_each_prev(it, h) { x = container_of(it, elem_t, link); PUT(x) } break;
        case 2: list_for_each_entry(x, h, link) { PUT(x) } break;
        default: list_for_each_entry_reverse(x, h, link) { PUT(x) } break;
    }
    return n;
}
static void aa(void *e, void *r, int before) { (before ? list_add_tail : list_add)(&((elem_t *)e)->link, &((elem_t *)r)->link); }
static int reap(void *hd, int back, uint32_t mask, uint32_t *out, int max) {
    struct list_head *h = hd, *it, *keep;
    int n = 0;
    for (it = back ? h->prev : h->next; it != h; it = keep) {
        elem_t *x = container_of(it, elem_t, link);
        keep = back ? it->prev : it->next;
        PUT(x)
        if (mask >> ((x->id - 100) & 31) & 1) {
            list_del(it);
            memset(&x->link, 0xDD, sizeof x->link);      // gone for good
        }
    }
    return n;
}
const struct list_api g_list = {sizeof(elem_t), sizeof(struct list_head), hi, es, ad, at, de, em, il, ne, pr, hs, aa, reap, walk};
