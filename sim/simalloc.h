// The allocator seam: the code under test is compiled with malloc/calloc/realloc/free renamed to these.
#pragma once
#include <cstddef>
#include <cstdint>
namespace sim {
struct AllocSeam {
    // decides whether allocation number n (size s) fails; nullptr: never
    bool (*fail)(uint64_t n, size_t s) = nullptr;
    uint64_t calls = 0, failed = 0, frees = 0, bad_frees = 0;
    int64_t  live = 0;
    void reset() { *this = AllocSeam(); }
};
extern AllocSeam g_alloc;
void alloc_release_all();     // end of a run: whatever is still live goes away
}
