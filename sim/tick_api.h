#pragma once
#include <stdint.h>
struct tick_api {
    int bits;
    int (*after)(uint64_t a, uint64_t b);
    int (*after_eq)(uint64_t a, uint64_t b);
    int (*before)(uint64_t a, uint64_t b);
    int (*expired)(uint64_t start, uint64_t now, uint64_t delay);
    int (*loosely)(uint64_t start, uint64_t now, uint64_t delay);
    int (*strictly)(uint64_t start, uint64_t now, uint64_t delay);
    uint64_t (*interval)(uint64_t a, uint64_t b);
};
#ifdef __cplusplus
extern "C" const struct tick_api tick_native, tick_v32, tick_u32, tick_u16, tick_u64, tick_nocheck;
#endif
