#include <string.h>
#include "gel/parameter/parameter.h"
#include "param_api.h"
typedef parameter_handle_t H;
typedef void (*rt_t)(H *, void *);
#define A ((H *)arr)
#define BUILD(T, TAG)                                                                                                  \
    {                                                                                                                  \
        T *p = ptr, mn, mx, df, st;                                                                                    \
        memcpy(&mn, min, sizeof mn); memcpy(&mx, max, sizeof mx); memcpy(&df, def, sizeof df); memcpy(&st, step, sizeof st); \
        GEL_PARAMETER_USER_DATA u = (GEL_PARAMETER_USER_DATA)(intptr_t)data;                                           \
        switch (how) {                                                                                                 \
            case 1: A[i] = PARAMETER_C99(TAG, p, pmin, pmax, mn, mx, df, st, lvl, u, (rt_t)rt, rarg); break;           \
            case 2: A[i] = PARAMETER(p, mn, mx, df, u, lvl); break;                                                    \
            case 3: A[i] = PARAMETER_STEP(p, mn, mx, df, st, u, lvl); break;                                           \
            case 4: A[i] = PARAMETER_DLIMITS(p, pmin, pmax, mn, mx, df, u, lvl); break;                                \
            default: A[i] = PARAMETER_FULL(p, pmin, pmax, mn, mx, df, st, lvl, u, (rt_t)rt, rarg); break;              \
        }                                                                                                              \
    }
static void build(void *arr, int i, int type, int how, void *ptr, void *pmin, void *pmax, const void *min, const void *max, const void *def, const void *step, unsigned lvl,
                  int64_t data, param_rt_t rt, void *rarg) {
    switch (type) {
        case 0: BUILD(uint8_t, PARAMETER_TYPE_UINT8) break;
        case 1: BUILD(int8_t, PARAMETER_TYPE_INT8) break;
#if GEL_PARAMETER_MAX_SIZE >= 2
        case 2: BUILD(uint16_t, PARAMETER_TYPE_UINT16) break;
        case 3: BUILD(int16_t, PARAMETER_TYPE_INT16) break;
#endif
#if GEL_PARAMETER_MAX_SIZE >= 4
        case 4: BUILD(uint32_t, PARAMETER_TYPE_UINT32) break;
        case 5: BUILD(int32_t, PARAMETER_TYPE_INT32) break;
        case 8: BUILD(float, PARAMETER_TYPE_FLOAT) break;
#endif
#if GEL_PARAMETER_MAX_SIZE >= 8
        case 6: BUILD(uint64_t, PARAMETER_TYPE_UINT64) break;
        case 7: BUILD(int64_t, PARAMETER_TYPE_INT64) break;
        case 9: BUILD(double, PARAMETER_TYPE_DOUBLE) break;
#endif
    }
}
static int      f1(void *arr, int i, int mod) { return parameter_operator(&A[i], mod); }
static int      f2(void *arr, size_t n) { return parameter_check_ranges(A, n); }
static void     f3(void *arr, size_t n) { parameter_reset_to_defaults(A, n); }
static size_t   f4(void *arr, size_t n, unsigned al) { return parameter_get_count(A, n, al); }
static void    *f5(void *arr, size_t n, size_t num, unsigned al) { return parameter_get_handle(A, n, num, al); }
static void     f6(void *h, const void *v, size_t len) { memcpy(&((H *)h)->max, v, len); }
static void     f7(void *h, unsigned l) { ((H *)h)->access_level = l; }
static int64_t  f8(void *arr, int i) { return parameter_to_long(&A[i]); }
static uint64_t f9(void *arr, int i) { return parameter_to_index(&A[i]); }
static int      f10(void *arr, int i) { return parameter_to_bool(&A[i]); }
static uint64_t f11(void *arr, int i) { return parameter_get_total_values(&A[i]); }
static void     f12(void *arr, int i, char *o, char *f) { parameter_to_string_format(&A[i], o, f); }
static int64_t  f13(void *arr, int i) { return (int64_t)(intptr_t)parameter_get_user_data(&A[i]); }
static int      f14(void *arr, int d, int s) { return parameter_copy_value(d < 0 ? NULL : &A[d], s < 0 ? NULL : &A[s]); }
static void     f15(void *arr, int d, int s, void *p) { parameter_clone(&A[d], &A[s], p); }
static void     f16(void *arr, int d, int s, uint8_t *b) { A[d] = parameter_clone_with_buffer(&A[s], b); }
static int      f17(void *arr, int i) { return (int)A[i].type; }
static void    *f18(void *arr, int i) { return A[i].pointer; }
const struct param_api VARIANT = {GEL_PARAMETER_MAX_SIZE, sizeof(H), build, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18};
