// One instrumented build variant of the circular buffer, seen by the simulator as a table of functions.
#include "gel/collections/circular_buffer.h"
#include "circ_api.h"
static int  w_init(void *c, void *b, size_t n) { return circular_buf_init((circular_buf_t *)c, (GEL_CBUF_TYPE *)b, n); }
static void w_reset(void *c) { circular_buf_reset((circular_buf_t *)c); }
static int  w_puts(void *c, void *d, size_t n) { return circular_buf_puts((circular_buf_t *)c, (GEL_CBUF_TYPE *)d, n); }
static int  w_putc(void *c, uint64_t v) { return circular_buf_putc((circular_buf_t *)c, (GEL_CBUF_TYPE)v); }
static int  w_gets(void *c, void *d, int n) { return circular_buf_gets((circular_buf_t *)c, (GEL_CBUF_TYPE *)d, n); }
static int  w_drop(void *c, int n) { return circular_buf_drop((circular_buf_t *)c, n); }
static int  w_getc(void *c, void *d) { return circular_buf_getc((circular_buf_t *)c, (GEL_CBUF_TYPE *)d); }
static int  w_peek(void *c, void *d, int n) { return circular_buf_peek((circular_buf_t *)c, (GEL_CBUF_TYPE *)d, n); }
static int  w_empty(void *c) { return is_circular_buf_empty((circular_buf_t *)c); }
static int  w_full(void *c) { return is_circular_buf_full((circular_buf_t *)c); }
static size_t w_cap(void *c) { return circular_buf_capacity((circular_buf_t *)c); }
static size_t w_size(void *c) { return circular_buf_size((circular_buf_t *)c); }
const struct circ_api CIRC_VARIANT = {sizeof(circular_buf_t), sizeof(GEL_CBUF_TYPE), w_init, w_reset, w_puts, w_putc, w_gets, w_drop,
                                      w_getc, w_peek, w_empty, w_full, w_cap, w_size};
