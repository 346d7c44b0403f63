#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { EV_NOTHING, EV_PRESS, EV_PRESSING, EV_CLICK, EV_LONGCLICK, EV_LONGPRESS, EV_RELEASE, EV_UNKNOWN };
struct input_api {
    int      bits;
    int      inputs, pulses;
    size_t   deb_size, pul_size, key_size;
    void     (*deb_init)(void *f);
    void     (*deb_set)(void *f, unsigned v);
    unsigned (*deb_all)(void *f, unsigned in, int deb);
    unsigned (*deb_one)(void *f, unsigned in, size_t i, int deb);
    int      (*deb_read)(void *f, size_t i);
    unsigned (*deb_value)(void *f);
    void     (*pul_init)(void *f, int low, unsigned init);
    int      (*pul_filter)(void *f, unsigned in, int deb);
    int      (*pul_count)(void *f, int i);
    int      (*pul_level)(void *f, int i);
    void     (*pul_clear)(void *f, int i);
    void     (*key_make)(void *keys, int n, const uint64_t *bits, const int *codes);    // n keys and the terminator
    void     (*key_reset)(void *keys);
    int      (*key_poll)(void *keys, uint64_t click, uint64_t lclick, uint64_t period, uint64_t ts, uint64_t bits, int *code);
    int      (*key_state)(void *keys, int i);
};
extern const struct input_api input_64, input_32;
#ifdef __cplusplus
}
#endif
