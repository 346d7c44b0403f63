#include "sim.h"
#include "simalloc.h"
#include <cstdlib>
#include <cstring>
#include <set>
namespace sim {
AllocSeam g_alloc;
static PerInstance pi(&g_alloc, sizeof g_alloc);
static std::set<void *> &live() { static std::set<void *> s[2]; return s[instance()]; }
void alloc_release_all() {
    for (void *p : live()) free(p);
    live().clear();
}
}
using namespace sim;
extern "C" {
void *sim_malloc(size_t n) {
    uint64_t k = g_alloc.calls++;
    if (g_alloc.fail && g_alloc.fail(k, n)) { g_alloc.failed++; return nullptr; }
    void *p = malloc(n ? n : 1);
    if (p) memset(p, 0xBE, n);
    g_alloc.live++;
    live().insert(p);
    return p;
}
void *sim_calloc(size_t a, size_t b) {
    void *p = sim_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
void sim_free(void *p) {
    if (!p) return;
    g_alloc.frees++;
    if (!live().erase(p)) { g_alloc.bad_frees++; }
    else g_alloc.live--;
    free(p);     // a double or foreign free is an AddressSanitizer report
}
void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    uint64_t k = g_alloc.calls++;
    if (g_alloc.fail && g_alloc.fail(k, n)) { g_alloc.failed++; return nullptr; }
    live().erase(p);
    void *q = realloc(p, n ? n : 1);
    live().insert(q);
    return q;
}
}
