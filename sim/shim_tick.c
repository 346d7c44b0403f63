#include "gel/timer/timecheck.h"
#include "tick_api.h"
typedef timestamp_t T;
static int      h1(uint64_t a, uint64_t b) { T x = (T)a, y = (T)b; return time_after(x, y); }
static int      h2(uint64_t a, uint64_t b) { T x = (T)a, y = (T)b; return time_after_or_equal(x, y); }
static int      h3(uint64_t a, uint64_t b) { T x = (T)a, y = (T)b; return time_before(x, y); }
static int      h4(uint64_t s, uint64_t n, uint64_t d) { return is_expired((T)s, (T)n, (T)d); }
static int      h5(uint64_t s, uint64_t n, uint64_t d) { return is_loosely_expired((T)s, (T)n, (T)d); }
static int      h6(uint64_t s, uint64_t n, uint64_t d) { return is_strictly_expired((T)s, (T)n, (T)d); }
static uint64_t h7(uint64_t a, uint64_t b) { return time_interval((T)a, (T)b); }
const struct tick_api VARIANT = {sizeof(T) * 8, h1, h2, h3, h4, h5, h6, h7};
