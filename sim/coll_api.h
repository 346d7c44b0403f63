// C view of the macro-generated containers: one table per instance.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct queue_api {
    const char *name;
    size_t size, cap, item;
    void   (*init)(void *);
    size_t (*count)(void *);
    int    (*enqueue)(void *, void *);       // 0 accepted
    int    (*dequeue)(void *, void *);       // 0 delivered
    int    (*drop)(void *);
    int    (*is_empty)(void *);
    int    (*is_full)(void *);
};
struct stack_api {
    const char *name;
    size_t size, cap, item;
    void   (*init)(void *);
    int    (*push)(void *, void *);
    int    (*pop)(void *, void *);
    int    (*peek)(void *, void *);
    void   (*dequeue)(void *);
    int    (*is_empty)(void *);
    int    (*is_full)(void *);
};
extern const struct queue_api g_queues[];
extern const struct stack_api g_stacks[];
extern const int g_nqueues, g_nstacks;

// intrusive list: nodes and heads by index; the node sits in the middle of its element
struct list_api {
    size_t elem_size, head_size;
    void (*head_init)(void *head);
    void (*elem_set)(void *elem, uint32_t id);
    void (*add)(void *elem, void *head);
    void (*add_tail)(void *elem, void *head);
    void (*del)(void *elem);
    int  (*empty)(void *head);
    int  (*is_last)(void *elem, void *head);
    void *(*next)(void *elem, void *head);      // element after elem, head for the sentinel, NULL as the library
    void *(*prev)(void *elem, void *head);
    void (*head_static)(void *head);            // by LIST_HEAD_INIT
    void (*add_at)(void *elem, void *ref, int before);      // next to another element
    int  (*reap)(void *head, int back, uint32_t mask, uint32_t *out, int max);   // walk with the next one remembered, removing those in the mask
    int  (*walk)(void *head, int how, uint32_t *out, int max);   // 0..3: each, each_prev, each_entry, each_entry_reverse
};
extern const struct list_api g_list;
#ifdef __cplusplus
}
#endif
