#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include "gel/data_structures/watcher.h"
#include "gel/data_structures/struct_update.h"
#include "data_api.h"
#undef malloc
#undef free
extern void *malloc(size_t);
extern void free(void *);
typedef unsigned long ul;
#ifdef GEL_WATCHER_REDUCE_RAM_FOOTPRINT
#define MAXDELAY 65535
#else
#define MAXDELAY (sizeof(ul) == 8 ? (int64_t)1 << 36 : (int64_t)1 << 29)
#endif
#if !GEL_MALLOC_AVAILABLE
#define MAXBLOCK GEL_STATIC_BLOCK_SIZE
#elif defined GEL_WATCHER_REDUCE_RAM_FOOTPRINT
#define MAXBLOCK 255
#else
#define MAXBLOCK 70000
#endif
static void *ln(int n, void **mem, const size_t *size, data_cb_t cb, void **data, const uint64_t *delay) {
    watcher_t *l = malloc(sizeof(watcher_t) * (size_t)(n + 1));
    for (int i = 0; i < n; i++) {
        uint8_t *m = mem[i];
        uint32_t *m4 = mem[i];
        struct { uint8_t b[3]; } *m3 = mem[i];
        if (delay[i]) {
            if (size[i] == 4) l[i] = WATCHER_DELAYED(m4, cb, data[i], (ul)delay[i]);
            else if (size[i] == 3) l[i] = WATCHER_DELAYED(m3, cb, data[i], (ul)delay[i]);
            else if (size[i] % 4 == 0) l[i] = WATCHER_DELAYED_ARRAY(m4, size[i] / 4, cb, data[i], (ul)delay[i]);
            else l[i] = WATCHER_DELAYED_ARRAY(m, size[i], cb, data[i], (ul)delay[i]);
        } else {
            if (size[i] == 4) l[i] = WATCHER(m4, cb, data[i]);
            else if (size[i] == 3) l[i] = WATCHER(m3, cb, data[i]);
            else if (size[i] % 4 == 0) l[i] = WATCHER_ARRAY(m4, size[i] / 4, cb, data[i]);
            else l[i] = WATCHER_ARRAY(m, size[i], cb, data[i]);
        }
    }
    l[n] = WATCHER_NULL;
    return l;
}
static void lf(void *l) { free(l); }
static void li(void *l) { watcher_list_init(l); }
static int  lc(void *l) { return watcher_check_for_changes(l); }
static int  lp(void *l, uint64_t t) { return watcher_process_changes(l, (ul)t); }
static void lcl(void *l, uint64_t t) { watcher_clear_changes(l, (ul)t); }
static void lt(void *l, int i) { watcher_trigger_cb(l, i); }
static void lta(void *l) { watcher_trigger_all(l); }

typedef struct { uint8_t a; uint16_t b; uint32_t c; uint64_t d; uint8_t e[7]; uint16_t f[5]; double g; } obj_t;
static void sm(void *t, size_t off, void *d, size_t n) { *(struct_update_t *)t = struct_update_from_data(off, d, n); }
static void sa(void *dest, void *t) { struct_update_apply(dest, *(struct_update_t *)t); }
static void sf(void *t) { struct_update_free(*(struct_update_t *)t); }
static void fill(void *p, size_t n, uint64_t v) { uint8_t *b = p; for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(v >> (8 * (i % 8))) + (uint8_t)i; }
static void *sfi(void *tok, void *o, int w, uint64_t v) {
    obj_t obj = *(obj_t *)o;
    struct_update_t *t = tok;
    uint8_t  e[7];
    uint16_t f[5];
    fill(e, sizeof e, v);
    fill(f, sizeof f, v);
    switch (w) {
        case 0: *t = STRUCT_UPDATE(obj, a, v); break;
        case 1: *t = STRUCT_UPDATE(obj, b, v); break;
        case 2: *t = STRUCT_UPDATE(obj, c, v); break;
        case 3: *t = STRUCT_UPDATE(obj, d, v); break;
        case 4: *t = STRUCT_UPDATE_ARRAY(obj, e, e, 1 + v % 7); break;
        case 5: *t = STRUCT_UPDATE_ARRAY(obj, f, f, 1 + v % 5); break;
        default: *t = STRUCT_UPDATE(obj, g, (double)v / 7); break;
    }
    return t;
}
static void os(void *o, int w, uint64_t v) {
    obj_t *obj = o;
    uint8_t  e[7];
    uint16_t f[5];
    fill(e, sizeof e, v);
    fill(f, sizeof f, v);
    switch (w) {
        case 0: obj->a = (uint8_t)v; break;
        case 1: obj->b = (uint16_t)v; break;
        case 2: obj->c = (uint32_t)v; break;
        case 3: obj->d = v; break;
        case 4: memcpy(obj->e, e, 1 + v % 7); break;
        case 5: memcpy(obj->f, f, 2 * (1 + v % 5)); break;
        default: obj->g = (double)v / 7; break;
    }
}
const struct data_api VARIANT = {sizeof(ul) * 8, GEL_MALLOC_AVAILABLE, MAXBLOCK, MAXDELAY, ln, li, lc, lp, lcl, lt, lta, lf,
                                 sizeof(struct_update_t), sm, sa, sf, sfi, sizeof(obj_t), os};
