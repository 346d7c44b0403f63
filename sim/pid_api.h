#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct pid_api {
    int    isfloat, hist, delta;
    size_t size;
    void   (*init)(void *);
    void   (*tune)(void *, double, double, double);
    void   (*input)(void *, double);
    void   (*sp)(void *, double);
    double (*compute)(void *, int what);     // 0 whole, 1 P, 2 I, 3 D, 4 current error
    void   (*clear)(void *);
    void   (*thr)(void *, int which, uint64_t v);      // 0 integral high, 1 integral low, 2 derivative
    void   (*enable)(void *, int which, int on);       // same, 3 automatic integral clear
};
extern const struct pid_api pid_int, pid_flt, pid_small, pid_one, pid_long;
#ifdef __cplusplus
}
#endif
