#include "gel/collections/queue.h"
#include "gel/collections/stack.h"
#include <stdlib.h>
#include "coll_api.h"
struct wide { uint8_t b[13]; };
typedef struct { uint64_t x, y; } pair_t;

#define Q(NAME, TYPE, CAP)                                                                                             \
    QUEUE_DECLARATION(NAME, TYPE, CAP)                                                                                 \
    QUEUE_DEFINITION(NAME, TYPE)                                                                                       \
    static void   NAME##_i(void *q) { NAME##_init(q); }                                                                \
    static size_t NAME##_c(void *q) { return NAME##_count(q); }                                                        \
    static int    NAME##_e(void *q, void *v) { return NAME##_enqueue(q, v) == ENQUEUE_RESULT_SUCCESS ? 0 : 1; }        \
    static int    NAME##_d(void *q, void *v) { return NAME##_dequeue(q, v) == DEQUEUE_RESULT_SUCCESS ? 0 : 1; }        \
    static int    NAME##_r(void *q) { return NAME##_drop(q) == DEQUEUE_RESULT_SUCCESS ? 0 : 1; }                       \
    static int    NAME##_em(void *q) { return NAME##_is_empty(q); }                                                    \
    static int    NAME##_fu(void *q) { return NAME##_is_full(q); }
#define QE(NAME, TYPE, CAP) {#NAME, sizeof(struct NAME), CAP, sizeof(TYPE), NAME##_i, NAME##_c, NAME##_e, NAME##_d, NAME##_r, NAME##_em, NAME##_fu}
Q(q_u8_1, uint8_t, 1)
Q(q_u32_2, uint32_t, 2)
Q(q_u32_4, uint32_t, 4)
Q(q_wide_8, struct wide, 8)
Q(q_u16_16, uint16_t, 16)
Q(q_pair_32, pair_t, 32)
Q(q_u8_256, uint8_t, 256)
Q(q_u32_1024, uint32_t, 1024)
Q(q_u16_32768, uint16_t, 32768)
const struct queue_api g_queues[] = {QE(q_u8_1, uint8_t, 1), QE(q_u32_2, uint32_t, 2), QE(q_u32_4, uint32_t, 4), QE(q_wide_8, struct wide, 8),
                                     QE(q_u16_16, uint16_t, 16), QE(q_pair_32, pair_t, 32), QE(q_u8_256, uint8_t, 256), QE(q_u32_1024, uint32_t, 1024),
                                     QE(q_u16_32768, uint16_t, 32768)};
const int g_nqueues = sizeof g_queues / sizeof *g_queues;

#define ST(NAME, TYPE, CAP)                                                                                            \
    STACK_DECLARATION(NAME, TYPE, CAP)                                                                                 \
    STACK_DEFINITION(NAME, TYPE)                                                                                       \
    static void NAME##_i(void *q) { NAME##_init(q); }                                                                  \
    static int  NAME##_pu(void *q, void *v) { return NAME##_push(q, v) == PUSH_RESULT_SUCCESS ? 0 : 1; }               \
    static int  NAME##_po(void *q, void *v) { return NAME##_pop(q, v) == POP_RESULT_SUCCESS ? 0 : 1; }                 \
    static int  NAME##_pe(void *q, void *v) { return NAME##_peek(q, v) == POP_RESULT_SUCCESS ? 0 : 1; }                \
    static void NAME##_dq(void *q) { NAME##_dequeue(q); }                                                              \
    static int  NAME##_em(void *q) { return NAME##_is_empty(q); }                                                      \
    static int  NAME##_fu(void *q) { return NAME##_is_full(q); }
#define SE(NAME, TYPE, CAP) {#NAME, sizeof(struct NAME), CAP, sizeof(TYPE), NAME##_i, NAME##_pu, NAME##_po, NAME##_pe, NAME##_dq, NAME##_em, NAME##_fu}
ST(s_u8_1, uint8_t, 1)
ST(s_u32_2, uint32_t, 2)
ST(s_u32_3, uint32_t, 3)
ST(s_wide_5, struct wide, 5)
ST(s_u16_8, uint16_t, 8)
ST(s_pair_17, pair_t, 17)
ST(s_u8_255, uint8_t, 255)
ST(s_u8_256, uint8_t, 256)
ST(s_u32_300, uint32_t, 300)
const struct stack_api g_stacks[] = {SE(s_u8_1, uint8_t, 1), SE(s_u32_2, uint32_t, 2), SE(s_u32_3, uint32_t, 3), SE(s_wide_5, struct wide, 5), SE(s_u16_8, uint16_t, 8),
                                     SE(s_pair_17, pair_t, 17), SE(s_u8_255, uint8_t, 255), SE(s_u8_256, uint8_t, 256), SE(s_u32_300, uint32_t, 300)};
const int g_nstacks = sizeof g_stacks / sizeof *g_stacks;
