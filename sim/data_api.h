#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef void (*data_cb_t)(void *mem, void *data);
struct data_api {
    int    bits, dynamic;
    size_t max_block;
    int64_t max_delay;
    void *(*list_new)(int n, void **mem, const size_t *size, data_cb_t cb, void **data, const uint64_t *delay);   // a terminated list, not initialised
    void  (*list_init)(void *l);
    int   (*check)(void *l);
    int   (*process)(void *l, uint64_t ts);
    void  (*clear)(void *l, uint64_t ts);
    void  (*trigger)(void *l, int i);
    void  (*trigger_all)(void *l);
    void  (*list_free)(void *l);
    // deferred struct updates: an opaque token per update
    size_t token_size;
    void  (*su_make)(void *tok, size_t off, void *data, size_t size);
    void  (*su_apply)(void *dest, void *tok);
    void  (*su_free)(void *tok);
    void *(*su_field)(void *tok, void *obj, int which, uint64_t val);   // the STRUCT_UPDATE macro on a real structure
    size_t obj_size;
    void  (*obj_set)(void *obj, int which, uint64_t val);               // the same assignment made directly
};
extern const struct data_api data_static, data_32, data_malloc, data_packed, data_packed_malloc;
#ifdef __cplusplus
}
#endif
