// Configuration of the libraries for the simulated builds (same values as the project's own test build).
#ifndef SIM_GEL_CONF_H_INCLUDED
#define SIM_GEL_CONF_H_INCLUDED
#ifndef GEL_PARAMETER_MAX_SIZE
#define GEL_PARAMETER_MAX_SIZE 8
#endif
#ifndef PMAN_NAVIGATION_DEPTH
#define PMAN_NAVIGATION_DEPTH 5
#endif
#define PMAN_VIEW_NULL        0
#define PMAN_DATA_NULL        0
typedef int pman_message_t;
typedef int pman_event_t;
typedef int pman_page_data_t;
typedef int pman_model_t;
typedef int pman_view_t;
#ifndef SIM_PID_TYPE
#define SIM_PID_TYPE int
#endif
typedef SIM_PID_TYPE pid_control_type_t;
typedef SIM_PID_TYPE pid_output_type_t;
#ifndef GEL_PID_INTEGRAL_HISTORY_SIZE
#define GEL_PID_INTEGRAL_HISTORY_SIZE 200
#define GEL_PID_DERIVATIVE_DELTA      5
#endif
#ifndef GEL_MALLOC_AVAILABLE
#define GEL_MALLOC_AVAILABLE  0
#endif
#define GEL_STATIC_BLOCK_SIZE 80
#ifndef WL_BLOCK_SIZE
#define WL_BLOCK_SIZE 4
#endif
typedef int parameter_user_data_t;
#endif
