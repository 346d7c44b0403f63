#include "gel/timer/stopwatch.h"
#include "gel/timer/timer.h"
#include "gel/timer/timecheck.h"
#include "time_api.h"
typedef unsigned long ul;
extern unsigned long gel_timer_get_remaining(gel_timer_t *timer, unsigned long timestamp) __attribute__((weak));
static void     f1(void *s) { stopwatch_init(s); }
static void     f1s(void *s) { static const stopwatch_t null = STOPWATCH_NULL; *(stopwatch_t *)s = null; }
static int      f2(void *s, uint64_t t) { return stopwatch_start(s, (ul)t); }
static int      f3(void *s) { return stopwatch_stop(s); }
static int      f4(void *s, uint64_t t) { return stopwatch_pause(s, (ul)t); }
static int      f5(void *s, uint64_t t) { return stopwatch_restart(s, (ul)t); }
static int      f6(void *s, uint64_t p) { return stopwatch_set(s, (ul)p); }
static void     f7(void *s, uint64_t p, uint64_t t) { stopwatch_change(s, (ul)p, (ul)t); }
static void     f7b(void *s, uint64_t p, uint64_t t) { stopwatch_t *q = s; stopwatch_setngo(q, (ul)p, (ul)t); }
static int      f8(void *s) { switch (stopwatch_get_state(s)) { case TIMER_STOPPED: return 0; case TIMER_COUNTING: return 1; case TIMER_PAUSED: return 2; } return 99; }
static uint64_t f9(void *s) { return stopwatch_get_total_time(s); }
static uint64_t f10(void *s, uint64_t t) { return stopwatch_get_elapsed(s, (ul)t); }
static int      f11(void *s, uint64_t e) { return stopwatch_set_elapsed(s, (ul)e); }
static uint64_t f12(void *s, uint64_t t) { return stopwatch_get_remaining(s, (ul)t); }
static int      f13(void *s, uint64_t t) { return stopwatch_is_timer_reached(s, (ul)t); }
static void    *g1(void *m, uint64_t p, uint64_t t, time_cb_t cb, void *a) { return gel_timer_init(m, (ul)p, (ul)t, (gel_timer_callback_t)cb, a); }
static void     g2(void *m) { gel_timer_stop(m); }
static void     g3(void *m, int a) { gel_timer_set_autoreload(m, (uint8_t)a); }
static int      g4(void *m, uint64_t t, void *u) { return gel_timer_manage_callback(m, (ul)t, u); }
static void     g5(void *m, uint64_t t) { gel_timer_pause(m, (ul)t); }
static void     g6(void *m, uint64_t t) { gel_timer_resume(m, (ul)t); }
static void     g7(void *m, uint64_t t) { gel_timer_reset(m, (ul)t); }
static void     g8(void *m, uint64_t p, uint64_t t) { gel_timer_change_period(m, (ul)p, (ul)t); }
static int64_t  g9(void *m, uint64_t t) { return gel_timer_get_remaining ? (int64_t)gel_timer_get_remaining(m, (ul)t) : -1; }
const struct time_api VARIANT = {sizeof(ul) * 8, sizeof(stopwatch_t), sizeof(gel_timer_t), f1, f1s, f2, f3, f4, f5, f6, f7, f7b, f8, f9, f10, f11, f12, f13,
                                 g1, g2, g3, g4, g5, g6, g7, g8, g9};
