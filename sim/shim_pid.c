#include "gel/pid/pid.h"
#include "pid_api.h"
static void   f1(void *p) { pid_init(p); }
static void   f2(void *p, double a, double b, double c) { pid_ctrl_tune(p, (float)a, (float)b, (float)c); }
static void   f3(void *p, double v) { pid_add_input(p, (pid_control_type_t)v); }
static void   f4(void *p, double v) { pid_set_sp(p, (pid_control_type_t)v); }
static double f5(void *p, int w) {
    switch (w) {
        case 0: return pid_compute(p);
        case 1: return pid_compute_p(p);
        case 2: return pid_compute_i(p);
        case 3: return pid_compute_d(p);
        default: return pid_current_error(p);
    }
}
static void f6(void *p) { pid_clear_integral_history(p); }
static void f7(void *p, int w, uint64_t v) {
    if (w == 0) pid_set_integral_high_threshold(p, (size_t)v);
    else if (w == 1) pid_set_integral_low_threshold(p, (size_t)v);
    else pid_set_derivative_threshold(p, (pid_control_type_t)v, (pid_control_type_t)v);
}
static void f8(void *p, int w, int on) {
    if (w == 0) pid_enable_integral_high_threshold(p, on);
    else if (w == 1) pid_enable_integral_low_threshold(p, on);
    else if (w == 2) pid_enable_derivative_threshold(p, on);
    else pid_set_auto_integral_clear(p, on);
}
const struct pid_api VARIANT = {((pid_control_type_t)0.5) != 0, GEL_PID_INTEGRAL_HISTORY_SIZE, GEL_PID_DERIVATIVE_DELTA, sizeof(pid_ctrl_t), f1, f2, f3, f4, f5, f6, f7, f8};
