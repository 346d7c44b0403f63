#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef void (*param_rt_t)(void *handle, void *arg);
struct param_api {
    int    max_size;
    size_t handle_size;
    // build handle i of the array; how selects the construction macro; limits point at values of the type
    void (*build)(void *arr, int i, int type, int how, void *ptr, void *pmin, void *pmax, const void *min, const void *max, const void *def, const void *step, unsigned lvl,
                  int64_t data, param_rt_t rt, void *arg);
    int (*op)(void *arr, int i, int mod);
    int (*check)(void *arr, size_t n);
    void (*reset)(void *arr, size_t n);
    size_t (*count)(void *arr, size_t n, unsigned al);
    void *(*get)(void *arr, size_t n, size_t num, unsigned al);
    void (*set_max)(void *handle, const void *v, size_t len);
    void (*set_level)(void *handle, unsigned lvl);
    int64_t (*to_long)(void *arr, int i);
    uint64_t (*to_index)(void *arr, int i);
    int (*to_bool)(void *arr, int i);
    uint64_t (*total)(void *arr, int i);
    void (*format)(void *arr, int i, char *out, char *fmt);
    int64_t (*user)(void *arr, int i);
    int (*copy)(void *arr, int dst, int src);             // -1: NULL
    void (*clone)(void *arr, int dst, int src, void *ptr);
    void (*clone_buf)(void *arr, int dst, int src, uint8_t *buf);
    int (*type_of)(void *arr, int i);
    void *(*ptr_of)(void *arr, int i);
};
extern const struct param_api param_8, param_4, param_2, param_1;
#ifdef __cplusplus
}
#endif
