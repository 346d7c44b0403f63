#pragma once
#include <stddef.h>
#include <stdint.h>
enum { PK_KINDS = 8, SM_FUNCS = 8, SM_STATES = 400, SM_MANY = 70000 };
// what the pages' callbacks tell the simulator
struct page_hooks {
    int (*create)(int kind, int model, void *extra);
    void (*destroy)(int kind, int data, void *extra);
    void (*open)(int kind, int model, int data);
    void (*close)(int kind, int data);
    int (*update)(int kind, int model, int data);
    int (*event)(int kind, int model, int data, int event);
    int (*handler)(int func, void *model, int64_t event);
};
struct page_api {
    int    has_update;
    size_t size, depth;
    void (*bind)(const struct page_hooks *h);
    void (*init)(void *m);
    int (*change)(void *m, int model, int kind, int id, void *extra, int plain);     // plain: the call without extra
    int (*swap)(void *m, int model, int kind, int id, void *extra, int plain);
    int (*rebase)(void *m, int model, int kind, int id, void *extra, int plain);
    int (*back)(void *m, int model);
    int (*update)(void *m, int model);
    int (*reset)(void *m, int model, int id, uint8_t *found);
    int (*event)(void *m, int model, int event);
    // state machines: one with integer events, one with structured ones
    size_t sm_size;
    void (*sm_init)(void *sm, int which, unsigned state, void *table, size_t states);     // table: room for that many pointers
    int (*sm_send)(void *sm, int which, void *model, int64_t event);
    unsigned (*sm_state)(void *sm, int which);
};
// which callbacks the pages of a kind have
enum { PH_CREATE = 1, PH_DESTROY = 2, PH_OPEN = 4, PH_CLOSE = 8, PH_UPDATE = 16 };
static const int pk_has[PK_KINDS] = {31, 31, 31, 31, 31 & ~PH_CREATE, 31 & ~(PH_OPEN | PH_CLOSE), PH_OPEN | PH_CLOSE, PH_CREATE | PH_DESTROY | PH_UPDATE};
#ifdef __cplusplus
extern "C" const struct page_api page_update, page_plain, page_ndebug, page_one, page_deep;
#endif
