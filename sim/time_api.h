#pragma once
#include <stddef.h>
#include <stdint.h>
typedef void (*time_cb_t)(void *timer, void *user, void *arg);
struct time_api {
    int    bits;
    size_t sw_size, tm_size;
    void (*sw_init)(void *);
    void (*sw_null)(void *);          // by the static initialiser
    int (*sw_start)(void *, uint64_t);
    int (*sw_stop)(void *);
    int (*sw_pause)(void *, uint64_t);
    int (*sw_restart)(void *, uint64_t);
    int (*sw_set)(void *, uint64_t);
    void (*sw_change)(void *, uint64_t, uint64_t);
    void (*sw_setngo)(void *, uint64_t, uint64_t);
    int (*sw_state)(void *);       // 0 stopped, 1 counting, 2 paused
    uint64_t (*sw_total)(void *);
    uint64_t (*sw_elapsed)(void *, uint64_t);
    int (*sw_set_elapsed)(void *, uint64_t);
    uint64_t (*sw_remaining)(void *, uint64_t);
    int (*sw_reached)(void *, uint64_t);
    void *(*tm_init)(void *, uint64_t, uint64_t, time_cb_t, void *);
    void (*tm_stop)(void *);
    void (*tm_autoreload)(void *, int);
    int (*tm_poll)(void *, uint64_t, void *);
    void (*tm_pause)(void *, uint64_t);
    void (*tm_resume)(void *, uint64_t);
    void (*tm_reset)(void *, uint64_t);
    void (*tm_change)(void *, uint64_t, uint64_t);
    int64_t (*tm_remaining)(void *, uint64_t);   // -1: not available
};
#ifdef __cplusplus
extern "C" const struct time_api time_64, time_32;
#endif
