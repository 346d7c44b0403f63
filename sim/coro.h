// Coroutines and the preemption seam: every instrumented memory access of the code under test is a point at
// which the simulator may switch to another simulated thread.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <vector>
namespace sim {
struct Coro {
    void                 *sp = nullptr;
    std::vector<char>     stack;
    std::function<void()> body;
    bool                  started = false, done = false;
    uint64_t              steps = 0;       // shared accesses performed
    uint64_t              own   = 0;       // every instrumented access and edge, since the current call began
    uint64_t              own_limit = ~0ull;
    bool                  overrun = false;
    bool                  wild = false;    // touched guarded memory outside the permitted regions, and was stopped there
    void start(std::function<void()> b);
};
extern Coro *g_cur;                       // the running coroutine (nullptr: the scheduler itself)
void coro_resume(Coro *c);                // from the scheduler: run c until it yields
void coro_yield();                        // from a coroutine: back to the scheduler
// called at each shared access, before it happens; decides whether to give up the processor
extern bool (*g_preempt)(Coro *c);
// private memory of the simulated threads: accesses there are no preemption points
void add_private(const void *p, size_t n);
void clear_private();
// an address range in which only the permitted regions may be touched
struct Region { const char *p, *e; };
enum { MAXPERMIT = 8 };
extern Region g_watch, g_permit[MAXPERMIT];
inline void permit(int i, const void *p, size_t n) { g_permit[i].p = (const char *)p; g_permit[i].e = (const char *)p + n; }
}
