#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct circ_api {
    size_t ctx_size, elem;
    int (*init)(void *, void *, size_t);
    void (*reset)(void *);
    int (*puts)(void *, void *, size_t);
    int (*putc)(void *, uint64_t);
    int (*gets)(void *, void *, int);
    int (*drop)(void *, int);
    int (*getc)(void *, void *);
    int (*peek)(void *, void *, int);
    int (*empty)(void *);
    int (*full)(void *);
    size_t (*cap)(void *);
    size_t (*size)(void *);
};
extern const struct circ_api circ_u8_O0, circ_u8_O2, circ_u32_O1, circ_u8_gcc;
#ifdef __cplusplus
}
#endif
