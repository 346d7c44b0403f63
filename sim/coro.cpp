#include "coro.h"
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include "sim.h"

namespace sim {
Coro *g_cur;
bool (*g_preempt)(Coro *c);
static void *g_main_sp;
static struct { const char *p, *e; } g_priv[16];
static int g_npriv;

void add_private(const void *p, size_t n) {
    if (g_npriv < 16) { g_priv[g_npriv].p = (const char *)p; g_priv[g_npriv++].e = (const char *)p + n; }
}
void clear_private() { g_npriv = 0; }
Region g_watch, g_permit[MAXPERMIT];
}

extern "C" void coro_switch(void **save_sp, void *load_sp);
asm(R"(
.text
.globl coro_switch
.type coro_switch,@function
coro_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size coro_switch,.-coro_switch
)");

namespace sim {
static void entry() {
    Coro *c = g_cur;
    c->body();
    c->done = true;
    for (;;) coro_yield();
}
void Coro::start(std::function<void()> b) {
    if (stack.empty()) stack.resize(256 * 1024);
    body = std::move(b);
    started = true;
    done = overrun = wild = false;
    steps = own = 0;
    own_limit = ~0ull;
    uintptr_t top = ((uintptr_t)stack.data() + stack.size()) & ~(uintptr_t)15;
    void **s = (void **)top;
    *--s = nullptr;           // alignment / fake return address
    *--s = (void *)entry;
    for (int i = 0; i < 6; i++) *--s = nullptr;
    sp = s;
}
void coro_resume(Coro *c) {
    g_cur = c;
    coro_switch(&g_main_sp, c->sp);
    g_cur = nullptr;
}
void coro_yield() {
    Coro *c = g_cur;
    coro_switch(&c->sp, g_main_sp);
}

static inline void account(Coro *c) {
    if (++c->own > c->own_limit) {
        c->overrun = true;
        for (;;) coro_yield();          // parked for good: the call never returns
    }
}
static void stop_wild(Coro *c) {
    c->wild = c->overrun = true;
    for (;;) coro_yield();              // the access is not carried out
}
static inline void access(const void *addr, size_t n = 1) {
    Coro *c = g_cur;
    if (!c) return;
    const char *p = (const char *)addr;
    account(c);
    if (p >= c->stack.data() && p < c->stack.data() + c->stack.size()) return;
    if (p + n > g_watch.p && p < g_watch.e) {
        int i = 0;
        while (i < MAXPERMIT && !(p >= g_permit[i].p && p + n <= g_permit[i].e)) i++;
        if (i == MAXPERMIT) stop_wild(c);
    }
    for (int i = 0; i < g_npriv; i++) if (p >= g_priv[i].p && p < g_priv[i].e) return;
    c->steps++;
    if (g_preempt && g_preempt(c)) coro_yield();
}
}
using sim::access;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void *p) { access(p, n); } \
    void __tsan_write##n(void *p) { access(p, n); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n); } \
    void __tsan_unaligned_write##n(void *p) { access(p, n); } \
    void __tsan_read_write##n(void *p) { access(p, n); } \
    void __tsan_unaligned_read_write##n(void *p) { access(p, n); } \
    void __tsan_volatile_read##n(void *p) { access(p, n); } \
    void __tsan_volatile_write##n(void *p) { access(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
    for (unsigned long i = 0; i < n; i++) {
        access((const char *)s + i);
        char v = ((const volatile char *)s)[i];
        access((char *)d + i);
        ((volatile char *)d)[i] = v;
    }
    return d;
}
void *__tsan_memmove(void *d, const void *s, unsigned long n) {
    if ((char *)d <= (const char *)s || (char *)d >= (const char *)s + n) return __tsan_memcpy(d, s, n);
    for (unsigned long i = n; i-- > 0;) {
        access((const char *)s + i);
        char v = ((const volatile char *)s)[i];
        access((char *)d + i);
        ((volatile char *)d)[i] = v;
    }
    return d;
}
void *__tsan_memset(void *d, int c, unsigned long n) {
    for (unsigned long i = 0; i < n; i++) {
        access((char *)d + i);
        ((volatile char *)d)[i] = (char)c;
    }
    return d;
}
#define AT(bits) \
    typedef uint##bits##_t a##bits; \
    a##bits __tsan_atomic##bits##_load(const volatile a##bits *p, int) { access((const void *)p); return *p; } \
    void __tsan_atomic##bits##_store(volatile a##bits *p, a##bits v, int) { access((const void *)p); *p = v; } \
    a##bits __tsan_atomic##bits##_exchange(volatile a##bits *p, a##bits v, int) { access((const void *)p); a##bits o = *p; *p = v; return o; } \
    a##bits __tsan_atomic##bits##_fetch_add(volatile a##bits *p, a##bits v, int) { access((const void *)p); a##bits o = *p; *p = (a##bits)(o + v); return o; } \
    a##bits __tsan_atomic##bits##_fetch_sub(volatile a##bits *p, a##bits v, int) { access((const void *)p); a##bits o = *p; *p = (a##bits)(o - v); return o; } \
    a##bits __tsan_atomic##bits##_fetch_and(volatile a##bits *p, a##bits v, int) { access((const void *)p); a##bits o = *p; *p = o & v; return o; } \
    a##bits __tsan_atomic##bits##_fetch_or(volatile a##bits *p, a##bits v, int) { access((const void *)p); a##bits o = *p; *p = o | v; return o; } \
    a##bits __tsan_atomic##bits##_fetch_xor(volatile a##bits *p, a##bits v, int) { access((const void *)p); a##bits o = *p; *p = o ^ v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile a##bits *p, a##bits *e, a##bits v, int, int) { access((const void *)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile a##bits *p, a##bits *e, a##bits v, int, int) { access((const void *)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    a##bits __tsan_atomic##bits##_compare_exchange_val(volatile a##bits *p, a##bits e, a##bits v, int, int) { access((const void *)p); a##bits o = *p; if (o == e) *p = v; return o; }
AT(8) AT(16) AT(32) AT(64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; a++) *a = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t *) {
    if (sim::g_cur) sim::account(sim::g_cur);
    else if (++sim::g_edges > sim::g_edge_limit) _exit(77);
}
void __sanitizer_cov_trace_pc() { __sanitizer_cov_trace_pc_guard(nullptr); }       // gcc's
}
