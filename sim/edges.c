// Edge-coverage callbacks: a deterministic step counter for the instrumented code under test.
#include <stdint.h>
#include <unistd.h>
extern uint64_t sim_edges __asm__("_ZN3sim7g_edgesE");
extern uint64_t sim_edge_limit __asm__("_ZN3sim12g_edge_limitE");
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; a++) *a = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    (void)g;
    if (++sim_edges > sim_edge_limit) _exit(77);
}
void __sanitizer_cov_trace_pc(void) {
    if (++sim_edges > sim_edge_limit) _exit(77);
}
