#include "gel/scheduler/scheduler.h"
#include "gel/wearleveling/wearleveling.h"
#include "gel/crc/crc16-ccitt.h"
#include "gel/serializer/serializer.h"
#include <string.h>
#include "sched_api.h"
// external functions the header does not declare
extern int           s_is_active(scheduler_t *, struct tm *) __asm__("scheduler_is_active") __attribute__((weak));
extern int           s_current(scheduler_t *, struct tm *, int *) __asm__("scheduler_current_value") __attribute__((weak));
extern int           s_next(scheduler_t *, size_t) __asm__("scheduler_get_next_enabled_entry") __attribute__((weak));
extern int           s_first_free(scheduler_t *) __asm__("scheduler_get_first_available_entry") __attribute__((weak));
extern uint16_t      s_map(scheduler_t *, struct tm *) __asm__("scheduler_get_active_entries_map") __attribute__((weak));
extern unsigned long s_remaining(scheduler_t *, size_t, struct tm *) __asm__("scheduler_get_schedule_remaining_duration") __attribute__((weak));
extern unsigned long s_cur_remaining(scheduler_t *, struct tm *) __asm__("scheduler_get_current_remaining_duration") __attribute__((weak));
extern size_t        s_max(scheduler_t *) __asm__("scheduler_get_max_schedule_entries") __attribute__((weak));

static scheduler_entry_t in(const struct sched_entry *w) {
    scheduler_entry_t e;
    memset(&e, 0, sizeof e);
    e.enabled = (uint8_t)w->en; e.days = (uint8_t)w->days; e.start_second = (uint32_t)w->start; e.end_second = (uint32_t)w->end; e.value = (int)w->value;
    return e;
}
static void out(struct sched_entry *w, const scheduler_entry_t *e) {
    w->en = e->enabled != 0; w->days = e->days; w->start = e->start_second; w->end = e->end_second; w->value = e->value;
}
static void f1(void *s) { scheduler_init(s); }
static int f2(void *s, size_t i, struct sched_entry *w) { const scheduler_entry_t *e = scheduler_get_entry(s, i); if (e) out(w, e); return e != NULL; }
static int f3(void *s, size_t i, int field, int64_t v) {
    scheduler_entry_t *e = scheduler_get_entry_mut(s, i);
    if (!e) return 0;
    switch (field) { case 0: e->enabled = (uint8_t)v; break; case 1: e->value = (int)v; break; case 2: e->days = (uint8_t)v; break; }
    return 1;
}
static int f4(void *s, size_t i, const struct sched_entry *w) { return scheduler_set_entry(s, i, in(w)); }
static int f5(void *s, size_t i) { return scheduler_is_schedule_entry_enabled(s, i); }
static int f6(void *s, size_t i) { return scheduler_disable_schedule_entry(s, i); }
static int f7(void *s, struct tm *t) { return scheduler_get_active_entry_number(s, t); }
static int64_t f8(const struct sched_entry *w) { scheduler_entry_t e = in(w); return (int64_t)scheduler_get_entry_duration(&e); }
static size_t f9(void *s, const struct sched_entry *w) { scheduler_entry_t e = in(w); return scheduler_are_there_overlapping_entries(s, &e); }
static size_t f10(uint8_t *b, void *s, size_t i) { return scheduler_entry_serialize(b, scheduler_get_entry(s, i)); }
static size_t f11(struct sched_entry *w, uint8_t *b, void *s, size_t i, int *res) {
    scheduler_entry_t e;
    memset(&e, 0x77, sizeof e);
    size_t n = scheduler_entry_deserialize(&e, b);
    *res = scheduler_set_entry(s, i, e);
    out(w, &e);
    return n;
}
static int g1(void *s, struct tm *t) { return s_is_active ? s_is_active(s, t) : -1; }
static int g2(void *s, struct tm *t, int *v) { return s_current ? s_current(s, t, v) : -1; }
static int g3(void *s, size_t i) { return s_next ? s_next(s, i) : -2; }
static int g4(void *s) { return s_first_free ? s_first_free(s) : -2; }
static unsigned g5(void *s, struct tm *t) { return s_map ? s_map(s, t) : 0x10000u; }
static int64_t g6(void *s, size_t i, struct tm *t) { return s_remaining ? (int64_t)s_remaining(s, i, t) : -1; }
static int64_t g7(void *s, struct tm *t) { return s_cur_remaining ? (int64_t)s_cur_remaining(s, t) : -1; }
static size_t g8(void *s) { return s_max ? s_max(s) : (size_t)-1; }
static int h1(void *w, int (*rd)(size_t, uint8_t *, size_t), int (*wr)(size_t, uint8_t, uint8_t *, size_t), int (*rm)(size_t, uint8_t *), size_t n) { return wearleveling_init(w, rd, wr, rm, n); }
static int h2(void *w, uint8_t *b, size_t n) { return wearleveling_read(w, b, n); }
static int h3(void *w, uint8_t *b, size_t n) { return wearleveling_write(w, b, n); }
static uint16_t h4(const uint8_t *b, size_t n, uint16_t i) { return crc16_ccitt(b, (unsigned)n, i); }
static size_t h5(uint8_t *b, uint16_t v) { return serialize_uint16_be(b, v); }
static size_t h6(uint16_t *v, uint8_t *b) { return deserialize_uint16_be(v, b); }
const struct sched_api VARIANT = {GEL_SCHEDULER_MAX_ENTRIES, sizeof(scheduler_t), sizeof(scheduler_entry_t), sizeof(wear_leveled_memory_t), SCHEDULER_ENTRY_SERIALIZED_SIZE,
    f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, g1, g2, g3, g4, g5, g6, g7, g8, h1, h2, h3, h4, h5, h6};
