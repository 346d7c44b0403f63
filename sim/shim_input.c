#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include "gel/debounce/debounce.h"
#undef NTH
#include "gel/debounce/pulsecounter.h"
#include "gel/keypad/keypad.h"
#include "input_api.h"
typedef unsigned long ul;
static void d1(void *f) { debounce_filter_init(f); }
static void d2(void *f, unsigned v) { debounce_filter_set(f, v); }
static unsigned d3(void *f, unsigned v, int d) { return debounce_filter(f, v, d); }
static unsigned d4(void *f, unsigned v, size_t i, int d) { return debounce_filter_single(f, v, i, d); }
#define NTH(x, i) ((x >> i) & 0x1)
static int d5(void *f, size_t i) { return debounce_read(f, i); }
static unsigned d6(void *f) { return debounce_value(f); }
static void p1(void *f, int low, unsigned i) { pulse_filter_init(f, low ? COUNT_LOW_PULSE : COUNT_HIGH_PULSE, i); }
static int  p2(void *f, unsigned v, int d) { return pulse_filter(f, v, d); }
static int  p3(void *f, int i) { return pulse_count(f, i); }
static int  p4(void *f, int i) { return pulse_level(f, i); }
static void p5(void *f, int i) { pulse_clear(f, i); }
static void k1(void *keys, int n, const uint64_t *bits, const int *codes) {
    keypad_key_t *k = keys;
    for (int i = 0; i < n; i++) k[i] = (keypad_key_t)KEYPAD_KEY((ul)bits[i], codes[i]);
    k[n] = (keypad_key_t)KEYPAD_NULL_KEY;
}
static void k2(void *keys) { keypad_reset_keys(keys); }
static int  k3(void *keys, uint64_t c, uint64_t l, uint64_t p, uint64_t t, uint64_t b, int *code) {
    keypad_update_t u = keypad_routine(keys, (ul)c, (ul)l, (ul)p, (ul)t, (ul)b);
    *code = u.code;
    switch (u.event) {
        case KEY_NOTHING: return EV_NOTHING;
        case KEY_PRESS: return EV_PRESS;
        case KEY_PRESSING: return EV_PRESSING;
        case KEY_CLICK: return EV_CLICK;
        case KEY_LONGCLICK: return EV_LONGCLICK;
        case KEY_LONGPRESS: return EV_LONGPRESS;
        case KEY_RELEASE: return EV_RELEASE;
    }
    return EV_UNKNOWN;
}
static int k4(void *keys, int i) { return keypad_get_key_state(&((keypad_key_t *)keys)[i]); }
const struct input_api VARIANT = {sizeof(ul) * 8, NUM_INPUTS, PULSE_NUM, sizeof(debounce_filter_t), sizeof(pulse_filter_t), sizeof(keypad_key_t),
                                  d1, d2, d3, d4, d5, d6, p1, p2, p3, p4, p5, k1, k2, k3, k4};
