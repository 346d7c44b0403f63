#pragma once
#include <stddef.h>
#include <stdint.h>
#include <time.h>
struct sched_entry { int64_t en, days, start, end, value; };
struct sched_api {
    int    n;
    size_t size, entry_size, wl_size, ser_size;
    void (*init)(void *);
    int (*get)(void *, size_t, struct sched_entry *);                  // 0: no such entry
    int (*get_mut)(void *, size_t, int field, int64_t value);          // 0: no such entry; field -1: only ask
    int (*set)(void *, size_t, const struct sched_entry *);
    int (*enabled)(void *, size_t);
    int (*disable)(void *, size_t);
    int (*active)(void *, struct tm *);
    int64_t (*duration)(const struct sched_entry *);
    size_t (*overlapping)(void *, const struct sched_entry *);
    size_t (*serialize)(uint8_t *, void *, size_t);
    size_t (*deserialize)(struct sched_entry *, uint8_t *, void *, size_t, int *set_result);
    // functions the header does not declare: null when they are not there
    int (*is_active)(void *, struct tm *);
    int (*current)(void *, struct tm *, int *);
    int (*next)(void *, size_t);
    int (*first_free)(void *);
    unsigned (*map)(void *, struct tm *);
    int64_t (*remaining)(void *, size_t, struct tm *);
    int64_t (*cur_remaining)(void *, struct tm *);
    size_t (*max)(void *);
    int (*wl_init)(void *, int (*rd)(size_t, uint8_t *, size_t), int (*wr)(size_t, uint8_t, uint8_t *, size_t), int (*rm)(size_t, uint8_t *), size_t);
    int (*wl_read)(void *, uint8_t *, size_t);
    int (*wl_write)(void *, uint8_t *, size_t);
    uint16_t (*crc)(const uint8_t *, size_t, uint16_t);
    size_t (*put16)(uint8_t *, uint16_t);
    size_t (*take16)(uint16_t *, uint8_t *);
};
#ifdef __cplusplus
extern "C" const struct sched_api sched_7, sched_1, sched_16, sched_300;
#endif
