// Circular buffer shared by a producer, a consumer and an observer, pre-empted at every shared memory access.
// Properties C01 (stream integrity), C02 (truthful counts), C03 (bounded calls).
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
#include "circ_api.h"
#include "coro.h"
#include "sim.h"
using namespace sim;

namespace {
enum { OP_PUTS, OP_PUTC, OP_GETS, OP_GETC, OP_DROP, OP_PEEK, OP_PQ, OP_CQ, OP_OQ, OP_RUN, OP_CALLS };
enum { CF_SIZE, CF_ROT, CF_DIRTY, CF_RESET, CF_DRAIN, CF_OTHER, CF_N };
enum { F_PREP, F_PREC, F_NEST, F_STALL, F_PREO, F_OTHER };
enum { P_WRAPPUT, P_FULLPUT, P_PARTIAL, P_EMPTYGET, P_FULLGET, P_OVERGET, P_CONC, P_FREED };
enum { TP, TC, TO };

struct Mon {
    Ctx            *ctx;
    const circ_api *api;
    void           *cb;
    int64_t         cap, acc = 0, con = 0;          // completed transfers
    int64_t         infl_put = 0, infl_get = 0;     // lengths of calls in progress
    bool            in_call[3] = {false, false, false};
    uint64_t        acalls[3] = {0, 0, 0};
    uint64_t        value(int64_t i) const { return api->elem == 1 ? (uint64_t)(uint8_t)(i * 7 + 3 + (i >> 8) * 31 + (i >> 16) * 57) : (uint64_t)(uint32_t)(i * 2654435761u + 12345u); }
    void store(void *d, int64_t k, uint64_t v) const {
        if (api->elem == 1) ((uint8_t *)d)[k] = (uint8_t)v;
        else ((uint32_t *)d)[k] = (uint32_t)v;
    }
    uint64_t load(const void *d, int64_t k) const { return api->elem == 1 ? ((const uint8_t *)d)[k] : ((const uint32_t *)d)[k]; }
};

struct Seg { int mode, thread; int64_t n; };
struct Sched {
    std::vector<Seg> segs;
    size_t           i = 0;
    int64_t          left = 0;
    bool             have = false;
    Mon             *m;
    Coro            *co;
    bool alive(int t) const { return !co[t].done && !co[t].overrun; }
    // current thread to run, -1 when everybody is finished
    int pick() {
        while (i < segs.size()) {
            if (!have) { left = segs[i].n; have = true; }
            if (left > 0 && alive(segs[i].thread)) return segs[i].thread;
            i++;
            have = false;
        }
        for (int t : {TP, TC, TO}) if (alive(t)) return t;
        return -1;
    }
    bool tick(int t) {       // before a shared access of thread t: true = switch away
        if (i >= segs.size()) return false;
        if (segs[i].mode == 0) {
            if (left > 0) { left--; return false; }
            i++;
            have = false;
            int n = pick();
            if (n == t) { if (i < segs.size() && segs[i].mode == 0) left--; return false; }
            return true;
        }
        return false;
    }
    bool boundary(int t) {   // after a completed call of thread t
        (void)t;
        if (i >= segs.size() || segs[i].mode == 0) return false;
        if (--left > 0) return false;
        i++;
        have = false;
        return pick() != t;
    }
};
Sched *g_sched;
// a switch that leaves a call half done is the fault being injected
void on_switch(int from, int to, Mon &m) {
    if (from >= 0 && from != to && m.in_call[from]) {
        m.ctx->fault(from == TP ? F_PREP : from == TC ? F_PREC : F_PREO);
        if (m.in_call[to]) m.ctx->probe(P_CONC);
        m.ctx->nontrivial = true;
    }
}
bool preempt_cb(Coro *c) { return g_sched->tick((int)(c - g_sched->co)); }

void gen(Rng &r, Plan &p, int tier, const std::string &prop) {
    int64_t size = r.weighted({1, 12, 4}) == 0 ? 1 : r.chance(0.8) ? r.range(2, 9) : r.range(10, 40);
    // now and then a storage whose indices need more than 8, rarely more than 16 bits
    bool big = r.chance(0.01);
    if (big) size = r.chance(0.02) ? r.range(65500, 65800) : r.chance(0.5) ? r.range(250, 262) : r.range(120, 700);
    int64_t scale = big ? std::max<int64_t>(1, size / 8) : 1;
    p.cfg.resize(CF_N);
    p.cfg[CF_SIZE]  = size;
    p.cfg[CF_ROT]   = big && r.chance(0.5) ? size - r.range(0, 8) : r.range(0, size * 2);
    p.cfg[CF_DIRTY] = r.pick({0, 255, 165});
    p.cfg[CF_RESET] = r.chance(0.1);
    p.cfg[CF_DRAIN] = r.range(0, 2);
    p.cfg[CF_OTHER] = r.chance(0.3) ? r.range(1, 1 << 30) : 0;
    bool stationary = prop == "C02" || r.chance(0.5);
    int  most = size > 60000 ? 5 : tier ? 14 : 10, np = (int)r.range(1, most), nc = (int)r.range(1, most), no = r.chance(0.3) ? (int)r.range(1, 6) : 0;
    auto len = [&]() -> int64_t {
        switch (r.weighted({3, 3, 2, 2, 1})) {
            case 0: return r.range(0, size + 2);
            case 1: return r.range(1, 3);
            case 2: return size - 1;
            case 3: return size;
            default: return size + r.range(1, 6);
        }
    };
    for (int i = 0; i < np; i++) {
        switch (r.weighted({6, 3, stationary ? 3 : 1})) {
            case 0: p.ops.push_back(Op(OP_PUTS, len())); break;
            case 1: p.ops.push_back(Op(OP_PUTC)); break;
            default: p.ops.push_back(Op(OP_PQ, r.range(0, 3)));
        }
    }
    for (int i = 0; i < nc; i++) {
        switch (r.weighted({6, 2, 2, 2, stationary ? 3 : 1})) {
            case 0: p.ops.push_back(Op(OP_GETS, len())); break;
            case 1: p.ops.push_back(Op(OP_GETC, r.chance(0.2))); break;
            case 2: p.ops.push_back(Op(OP_DROP, len())); break;
            case 3: p.ops.push_back(Op(OP_PEEK, len())); break;
            default: p.ops.push_back(Op(OP_CQ, r.range(0, 3)));
        }
    }
    for (int i = 0; i < no; i++) p.ops.push_back(Op(OP_OQ, r.range(0, 3)));
    int threads = no ? 3 : 2;
    // schedule
    size_t first = p.ops.size();
    switch (r.weighted({4, 3, 4, 2})) {
        case 0:     // fine-grained random switching
            for (int i = 0, n = (int)r.range(10, 120), g = (int)r.range(1, 12); i < n; i++)
                p.ops.push_back(Op(OP_RUN, r.range(0, threads - 1), r.range(1, g)));
            break;
        case 1: {   // whole calls, with a few pre-emptions in the middle
            int n = (int)r.range(4, 30);
            for (int i = 0; i < n; i++) {
                int t = (int)r.range(0, threads - 1);
                if (r.chance(0.6)) p.ops.push_back(Op(OP_CALLS, t, r.range(1, 3)));
                else p.ops.push_back(Op(OP_RUN, t, r.range(1, 40)));
            }
            break;
        }
        case 2: {   // interrupt nesting: one side interrupted inside a call by whole calls of the other
            int irq = (int)r.range(0, 1), n = (int)r.range(3, 25);
            for (int i = 0; i < n; i++) {
                p.ops.push_back(Op(OP_RUN, 1 - irq, r.chance(0.3) ? r.range(1, 60) : r.range(1, 12)));
                p.ops.push_back(Op(OP_CALLS, irq, r.weighted({5, 2, 1}) + 1));
                if (threads == 3 && r.chance(0.3)) p.ops.push_back(Op(OP_CALLS, 2, 1));
            }
            break;
        }
        default: {  // one long stall at a random point
            p.ops.push_back(Op(OP_CALLS, r.range(0, 1), r.range(1, 5)));
            int t = (int)r.range(0, 1);
            p.ops.push_back(Op(OP_RUN, t, r.range(1, 50)));
            p.ops.push_back(Op(OP_CALLS, 1 - t, r.range(3, 8)));
            for (int i = 0; i < 6; i++) p.ops.push_back(Op(OP_RUN, r.range(0, 1), r.range(1, 20)));
        }
    }
    if (big)
        for (size_t i = first; i < p.ops.size(); i++)
            if (p.ops[i].kind == OP_RUN && r.chance(0.6)) p.ops[i].a[1] *= scale;
}

enum { GUARD = 64, MINN = 96, MAXSIZE = 66000, ARENA = 4 << 20 };
// The only memory the buffer may touch, between two large unmapped zones: a runaway copy ends there, at once
// and on every run, instead of damaging the simulator.
struct Arena {
    uint8_t *rw;
    Arena() {
        const size_t Z = (size_t)64 << 20;
        uint8_t *p = (uint8_t *)mmap(nullptr, Z * 2 + ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED || mprotect(p + Z, ARENA, PROT_READ | PROT_WRITE)) { perror("arena"); _exit(2); }
        rw        = p + Z;
        g_watch.p = (char *)p;
        g_watch.e = (char *)p + Z * 2 + ARENA;
    }
};
Arena &arena() { static Arena a; return a; }

// Another buffer of the same system, used by an interrupt handler of its own while the threads above are anywhere
// inside their calls. Nothing about it is concurrent: it must behave like a plain queue.
struct Other {
    Ctx             *ctx;
    const circ_api  *api;
    uint8_t         *cb, *buf, *tmp;
    int64_t          cap = 0, acc = 0, con = 0;
    uint64_t         draw;
    Mon              v;
    void start(Ctx *c, const circ_api *a, uint8_t *mem, uint64_t seed) {
        ctx = c; api = a; draw = seed;
        v.api = a;
        int64_t size = (int64_t)(Rng::splitmix(draw) % 12) + 2;
        cb = mem; buf = mem + 512; tmp = mem + 1024;
        memset(mem, 0x5C, 2048);
        api->init(cb, buf, (size_t)size);
        cap = size - 1;
    }
    void step() {
        uint64_t x = Rng::splitmix(draw);
        int64_t  len = (int64_t)((x >> 8) % 8), n;
        progress();
        bool c1 = ctx->on("C01"), c2 = ctx->on("C02");
        switch (x % 6) {
            case 0:
            case 1:
                for (int64_t k = 0; k < len; k++) v.store(tmp, k, v.value(acc + k + 1000));
                if (x & 64) { len = 1; n = api->putc(cb, v.value(acc + 1000)) == 0; }
                else n = (int64_t)api->puts(cb, tmp, (size_t)len);
                if (c2 && n != std::min(len, cap - (acc - con))) ctx->fail("accept", "a second buffer with %lld of %lld elements took %lld of %lld", (long long)(acc - con), (long long)cap, (long long)n, (long long)len);
                acc += std::max<int64_t>(0, std::min(n, len));
                break;
            case 2:
            case 3: {
                memset(tmp, 0xB2, 64);
                bool peek = x & 128;
                if (x & 64) { len = 1; peek = false; n = api->getc(cb, tmp) == 0; }
                else n = peek ? api->peek(cb, tmp, (int)len) : api->gets(cb, tmp, (int)len);
                if (c2 && n != std::min(len, acc - con)) ctx->fail("deliver", "a second buffer with %lld elements returned %lld of %lld", (long long)(acc - con), (long long)n, (long long)len);
                for (int64_t k = 0; c1 && k < n && k < len; k++)
                    if (v.load(tmp, k) != v.value(con + k + 1000)) ctx->fail("stream", "element %lld of a second buffer arrived as %llx", (long long)(con + k), (unsigned long long)v.load(tmp, k));
                if (!peek) con += std::max<int64_t>(0, std::min(n, len));
                break;
            }
            case 4:
                n = api->drop(cb, (int)len);
                if (c2 && n != std::min(len, acc - con)) ctx->fail("deliver", "a second buffer with %lld elements dropped %lld of %lld", (long long)(acc - con), (long long)n, (long long)len);
                con += std::max<int64_t>(0, std::min(n, len));
                break;
            default:
                n = (int64_t)api->size(cb);
                if (c2 && (n != acc - con || (api->full(cb) != 0) != (n == cap) || (api->empty(cb) != 0) != (n == 0) || (int64_t)api->cap(cb) != cap))
                    ctx->fail("count", "a second buffer holding %lld of %lld elements reports %lld", (long long)(acc - con), (long long)cap, (long long)n);
        }
        ctx->ev("other", (int64_t)(x % 6), n, acc - con);
    }
};

void run(const Plan &p, Ctx &ctx, const circ_api *api) {
    auto    cfg  = [&](int i, int64_t lo, int64_t hi) { return wrapi(i < (int)p.cfg.size() ? p.cfg[(size_t)i] : lo, lo, hi); };
    int64_t size = cfg(CF_SIZE, 1, MAXSIZE), maxn = std::max<int64_t>(MINN, size + 16);
    size_t  es   = api->elem;
    // guarded memory for the control block, the storage and the callers' data
    Arena &ar = arena();
    size_t ctxsz = (api->ctx_size + 15) & ~(size_t)15, bufsz = (size_t)size * es;
    size_t used = GUARD * 3 + ctxsz + bufsz;
    uint8_t *mem = ar.rw, *memend = mem + used;
    memset(mem, 0xC7, used);
    uint8_t *cb  = mem + GUARD;
    uint8_t *buf = cb + ctxsz + GUARD;
    memset(cb, (int)cfg(CF_DIRTY, 0, 255), api->ctx_size);
    memset(buf, 0xEE, bufsz);
    size_t   DATASZ = (size_t)maxn * 4 + GUARD;
    uint8_t *pdata = ar.rw + ARENA / 2, *cdata = ar.rw + ARENA / 4 * 3;

    Mon m;
    m.ctx = &ctx;
    m.api = api;
    m.cb  = cb;
    auto guards = [&](const char *where) {
        bool bad = false;
        for (uint8_t *q = mem; q < cb; q++) bad |= *q != 0xC7;
        for (uint8_t *q = cb + ctxsz; q < buf; q++) bad |= *q != 0xC7;
        for (uint8_t *q = buf + bufsz; q < memend; q++) bad |= *q != 0xC7;
        if (bad) ctx.fail("memory-error", "memory outside the buffer was overwritten (%s)", where);
    };
    if (ctx.on("C02") && (api->init(cb, nullptr, (size_t)size) == 0 || api->init(cb, buf, 0) == 0))
        ctx.fail("init-accepted", "init without a storage was accepted");
    if (api->init(cb, buf, (size_t)size) != 0) {
        if (ctx.on("C02")) ctx.fail("init-refused", "init of a buffer of %lld elements failed", (long long)size);
        return;
    }
    // rotate the indices, all while quiescent
    g_cur = nullptr;
    int64_t rot = cfg(CF_ROT, 0, 2 * MAXSIZE), left = rot;
    if (size > 100)
        while (left > 0) {
            int64_t n = std::min(left, size - 1), in = api->puts(cb, pdata, (size_t)n), out = api->drop(cb, (int)n);
            if (in != n || out != n) break;      // the checks below see what is wrong
            left -= n;
        }
    else if (size > 1) for (int64_t i = 0; i < rot; i++) {
        api->putc(cb, 0xEE);
        api->getc(cb, cdata);
    }
    m.cap = size - 1;
    Other    other;
    uint64_t oth = (uint64_t)cfg(CF_OTHER, 0, 1 << 30);
    if (oth) other.start(&ctx, api, ar.rw + ARENA / 4, oth);
    if (cfg(CF_RESET, 0, 1)) {
        for (int64_t i = 0; i < m.cap / 2 + 1; i++) api->putc(cb, 0xDD);
        api->reset(cb);
        SIM_CHECK(ctx, "C02", api->size(cb) == 0 && api->empty(cb), "count", "buffer not empty after reset");
    }

    std::vector<Op> script[3];
    Sched           sch;
    for (auto &o : p.ops) {
        if (o.kind <= OP_PUTC || o.kind == OP_PQ) script[TP].push_back(o);
        else if (o.kind <= OP_PEEK || o.kind == OP_CQ) script[TC].push_back(o);
        else if (o.kind == OP_OQ) script[TO].push_back(o);
        else sch.segs.push_back({o.kind == OP_CALLS, (int)wrapi(o.a[0], 0, 2), clampi(o.a[1], 0, 100000)});
    }
    static thread_local Coro co[3];
    sch.m  = &m;
    sch.co = co;
    bool      failed = false;
    Violation viol;
    bool      c02 = ctx.on("C02"), c01 = ctx.on("C01");
    auto      steplimit = [](int64_t len) { return (uint64_t)(3000 + 300 * len); };

    // bounds on the number of stored elements over a call's interval
    struct Snap { int64_t acc, con, ip, ig; };
    auto snap = [&] { return Snap{m.acc, m.con, m.infl_put, m.infl_get}; };
    // the most that may have been accepted / consumed by now, counting the calls still in progress
    auto acc_hi = [&](const Snap &s) { return s.acc + s.ip; };
    auto con_hi = [&](const Snap &s) { return s.con + s.ig; };

    auto query = [&](int who, int which, Coro &c) {
        Snap s = snap();
        (void)s;
        m.in_call[who] = true;
        c.own = 0;
        c.own_limit = steplimit(0);
        ctx.ev("query", who, which);
        int64_t v = 0;
        switch (which) {
            case 0: v = (int64_t)api->size(cb); break;
            case 1: v = api->full(cb) != 0; break;
            case 2: v = api->empty(cb) != 0; break;
            default: v = (int64_t)api->cap(cb);
        }
        m.in_call[who] = false;
        Snap e = snap();
        ctx.ev("answer", who, which, v);
        if (!c02) return;
        int64_t lo = std::max<int64_t>(0, s.acc - std::min(con_hi(e), acc_hi(e))), hi = std::min(m.cap, acc_hi(e) - s.con);
        switch (which) {
            case 0:
                if (v < 0 || v > m.cap) ctx.fail("count", "size reported as %lld, capacity %lld", (long long)v, (long long)m.cap);
                if (who != TO && (v < lo || v > hi))
                    ctx.fail("count", "thread %d was told size %lld while between %lld and %lld elements were stored", who, (long long)v, (long long)lo, (long long)hi);
                break;
            case 1:
                if (who == TO) break;
                if (v && hi < m.cap) ctx.fail("count", "reported full with at most %lld of %lld stored", (long long)hi, (long long)m.cap);
                if (!v && lo >= m.cap) ctx.fail("count", "reported not full with %lld of %lld stored", (long long)lo, (long long)m.cap);
                break;
            case 2:
                if (who == TO) break;
                if (v && lo > 0) ctx.fail("count", "reported empty with at least %lld stored", (long long)lo);
                if (!v && hi <= 0) ctx.fail("count", "reported not empty with nothing stored");
                break;
            default:
                if (v != m.cap) ctx.fail("count", "capacity reported as %lld instead of %lld", (long long)v, (long long)m.cap);
        }
    };
    auto guard_body = [&](std::function<void()> f) {
        return [&, f] {
            try { f(); } catch (Violation &v) { if (!failed) { failed = true; viol = v; } }
        };
    };

    auto producer = [&] {
        Coro &c = co[TP];
        for (auto &o : script[TP]) {
            if (failed) return;
            if (o.kind == OP_PQ) { query(TP, (int)wrapi(o.a[0], 0, 3), c); if (sch.boundary(TP)) coro_yield(); continue; }
            int64_t len = o.kind == OP_PUTC ? 1 : wrapi(o.a[0], 0, maxn - 1);
            for (int64_t k = 0; k < len; k++) m.store(pdata, k, m.value(m.acc + k));
            Snap s     = snap();
            m.infl_put = len;
            m.in_call[TP] = true;
            c.own = 0;
            c.own_limit = steplimit(len);
            permit(2, pdata, (size_t)len * es);
            ctx.ev(o.kind == OP_PUTC ? "putc" : "puts", len);
            int64_t n;
            if (o.kind == OP_PUTC) n = api->putc(cb, m.value(m.acc)) == 0 ? 1 : 0;
            else n = api->puts(cb, pdata, (size_t)len);
            m.in_call[TP] = false;
            m.infl_put    = 0;
            ctx.ev("accepted", n, len);
            Snap e = snap();
            int64_t before_hi = s.acc - s.con, before_lo = s.acc - std::min(con_hi(e), e.acc + len);
            if (n < len) ctx.probe(P_PARTIAL);
            if (before_hi == m.cap) ctx.probe(P_FULLPUT);
            if (len > 1 && e.con != s.con && n > 0) ctx.probe(P_FREED);
            if (n < 0 || n > len) {
                if (c02 || c01) ctx.fail("accept", "a write of %lld elements returned %lld", (long long)len, (long long)n);
                n = n < 0 ? 0 : len;
            }
            if (c02) {
                int64_t lo = std::min(len, m.cap - before_hi), hi = std::min(len, m.cap - before_lo);
                if (n < lo) ctx.fail("accept", "only %lld of %lld elements accepted with room for at least %lld", (long long)n, (long long)len, (long long)(m.cap - before_hi));
                if (n > hi) ctx.fail("accept", "%lld elements accepted with room for at most %lld", (long long)n, (long long)hi);
            }
            m.acc += n;
            if (c01 && m.con > m.acc) ctx.fail("stream", "%lld elements consumed, %lld accepted", (long long)m.con, (long long)m.acc);
            ctx.state(((uint64_t)size << 32) | (uint64_t)((m.acc + rot) % size & 0xff) << 16 | (uint64_t)((m.con + rot) % size & 0xff) << 8 | m.in_call[TC]);
            if (sch.boundary(TP)) coro_yield();
        }
    };
    auto consumer_op = [&](const Op &o, Coro *c) {
        int64_t len = o.kind == OP_GETC ? 1 : wrapi(o.a[0], 0, maxn - 1);
        bool    null = o.kind == OP_DROP || (o.kind == OP_GETC && (o.a[0] & 1));
        bool    takes = o.kind != OP_PEEK;
        memset(cdata, 0xB2, (size_t)DATASZ);
        Snap s = snap();
        if (takes) m.infl_get = len;
        m.in_call[TC] = true;
        if (c) { c->own = 0; c->own_limit = steplimit(len); }
        permit(3, cdata, null ? 0 : (size_t)len * es);
        static const char *names[] = {"gets", "getc", "drop", "peek"};
        ctx.ev(names[wrapi(o.kind - OP_GETS, 0, 3)], len, null);
        int64_t n;
        switch (o.kind) {
            case OP_GETC: n = api->getc(cb, null ? nullptr : cdata) == 0 ? 1 : 0; break;
            case OP_DROP: n = api->drop(cb, (int)len); break;
            case OP_PEEK: n = api->peek(cb, cdata, (int)len); break;
            default: n = api->gets(cb, cdata, (int)len);
        }
        m.in_call[TC] = false;
        m.infl_get    = 0;
        Snap e        = snap();
        ctx.ev("got", n, len, n > 0 && !null ? (int64_t)m.load(cdata, 0) : -1);
        int64_t lo = s.acc - s.con, hi = std::min(m.cap, acc_hi(e) - s.con);
        // a producer call may have completed meanwhile, another be half way: e holds both
        if (n == 0) ctx.probe(P_EMPTYGET);
        if (lo == m.cap) ctx.probe(P_FULLGET);
        if (len > m.cap) ctx.probe(P_OVERGET);
        if (n < 0 || n > len) {
            if (c02 || c01) ctx.fail("deliver", "a read of %lld elements returned %lld", (long long)len, (long long)n);
            n = n < 0 ? 0 : len;
        }
        if (c02) {
            if (n < std::min(len, lo)) ctx.fail("deliver", "only %lld of %lld elements returned with at least %lld stored", (long long)n, (long long)len, (long long)lo);
            if (n > std::min(len, hi)) ctx.fail("deliver", "%lld elements returned with at most %lld stored", (long long)n, (long long)hi);
        }
        if (c01) {
            if (s.con + n > acc_hi(e))
                ctx.fail("stream", "%lld elements delivered in all, at most %lld were ever accepted", (long long)(s.con + n), (long long)acc_hi(e));
            if (!null)
                for (int64_t k = 0; k < n; k++)
                    if (m.load(cdata, k) != m.value(s.con + k))
                        ctx.fail("stream", "element %lld of the stream arrived as %llx instead of %llx", (long long)(s.con + k),
                                 (unsigned long long)m.load(cdata, k), (unsigned long long)m.value(s.con + k));
            for (size_t q = (size_t)len * es; q < (size_t)len * es + GUARD && q < (size_t)DATASZ; q++)
                if (cdata[q] != 0xB2) ctx.fail("memory-error", "a read of %lld elements wrote past the caller's array", (long long)len);
        }
        if (takes) m.con += n;
        ctx.state(((uint64_t)size << 32) | (uint64_t)((m.acc + rot) % size & 0xff) << 16 | (uint64_t)((m.con + rot) % size & 0xff) << 8 | 2 | m.in_call[TP]);
        return n;
    };
    auto consumer = [&] {
        for (auto &o : script[TC]) {
            if (failed) return;
            if (o.kind == OP_CQ) query(TC, (int)wrapi(o.a[0], 0, 3), co[TC]);
            else consumer_op(o, &co[TC]);
            if (sch.boundary(TC)) coro_yield();
        }
    };
    auto observer = [&] {
        for (auto &o : script[TO]) {
            if (failed) return;
            query(TO, (int)wrapi(o.a[0], 0, 3), co[TO]);
            if (sch.boundary(TO)) coro_yield();
        }
    };
    co[TP].start(guard_body(producer));
    co[TC].start(guard_body(consumer));
    co[TO].start(guard_body(observer));
    clear_private();
    permit(0, cb, api->ctx_size);
    permit(1, buf, bufsz);
    permit(2, pdata, 0);
    permit(3, cdata, 0);
    add_private(pdata, (size_t)DATASZ);
    add_private(cdata, (size_t)DATASZ);
    g_sched   = &sch;
    g_preempt = preempt_cb;
    int      prev = -1;
    uint64_t away = 0;
    for (;;) {
        int t = sch.pick();
        if (t < 0) break;
        if (prev != t) {
            on_switch(prev, t, m);
            ctx.ev("switch", t, (int64_t)co[t].steps);
            ctx.state(((uint64_t)size << 40) | (uint64_t)(m.acc - m.con + 64) << 24 | (co[TP].own & 0xfff) << 12 | (co[TC].own & 0xfff));
        }
        if (oth) { other.step(); ctx.fault(F_OTHER); }
        uint64_t s0 = co[t].steps;
        coro_resume(&co[t]);
        uint64_t did = co[t].steps - s0;
        if (prev >= 0 && prev != t && m.in_call[prev]) {
            if (did > 20) ctx.fault(F_STALL);
            if (!m.in_call[t] && did) ctx.fault(F_NEST);
        }
        away = did;
        prev = t;
        if (failed) break;
        ctx.advance(1);
    }
    (void)away;
    g_preempt = nullptr;
    clear_private();
    if (failed) throw viol;
    for (int t : {TP, TC, TO})
        if (co[t].overrun) {
            ctx.ev("overrun", t, co[t].wild);
            if (co[t].wild) {
                if (ctx.on("C01")) ctx.fail("memory-error", "a call of the %s touched memory outside the storage, the control block and the caller's array", t == TP ? "producer" : t == TC ? "consumer" : "observer");
                return;
            }
            if (ctx.on("C03")) ctx.fail("unbounded-call", "a call of the %s made no end in %llu of its own steps", t == TP ? "producer" : t == TC ? "consumer" : "observer", (unsigned long long)co[t].own_limit);
            return;
        }
    guards("after the concurrent phase");
    // quiescent: everything accepted comes out, in order, exactly once
    if (c02) {
        query(TP, 0, co[TP]); query(TC, 1, co[TC]); query(TP, 2, co[TP]); query(TC, 0, co[TC]);
        if (failed) throw viol;
    }
    progress();
    int64_t drain = cfg(CF_DRAIN, 0, 2);
    for (int64_t guard = 0; guard < m.cap + 128; guard++) {
        int64_t n = drain == 0 ? consumer_op(Op(OP_GETS, size + 1), nullptr) : drain == 1 ? consumer_op(Op(OP_GETC, 0), nullptr) : consumer_op(Op(OP_GETS, size), nullptr);
        if (n == 0) break;
        progress();
    }
    SIM_CHECK(ctx, "C01", m.con == m.acc, "stream", "%lld elements accepted but %lld delivered once everything stopped", (long long)m.acc, (long long)m.con);
    SIM_CHECK(ctx, "C02", api->size(cb) == 0 && api->empty(cb) && !(m.cap && api->full(cb)), "count", "drained buffer reports size %zu", api->size(cb));
    guards("at the end");
}

Scenario make(const char *name, const circ_api *api, const char *how) {
    Scenario s;
    s.name        = name;
    s.props       = {"C01", "C02", "C03"};
    s.cfg_names   = {"bufsize", "rotation", "dirty", "reset", "drain", "second buffer"};
    s.op_names    = {"puts", "putc", "gets", "getc", "drop", "peek", "producer-query", "consumer-query", "observer-query", "run-steps", "run-calls"};
    s.fault_names = {"producer pre-empted inside a call", "consumer pre-empted inside a call", "whole call nested inside another thread's call",
                     "thread stalled inside a call for >20 foreign steps", "observer pre-empted inside a call", "interrupt using a buffer of its own"};
    s.probe_names = {"-", "write attempted on a full buffer", "write accepted in part", "read on an empty buffer", "read on a full buffer",
                     "read of more than the capacity", "both sides inside a call at a switch", "space freed while a bulk write was in progress"};
    s.rule        = "a case is one seed: buffer size and index rotation, scripts of calls for producer, consumer and observer, and an explicit schedule over "
                    "their shared memory accesses; non-trivial when at least one thread was pre-empted inside a call";
    s.state_measure = "buffer size x index/occupancy x progress of both threads inside their current calls, at every context switch and call end";
    s.real_components = {std::string("gel/collections/circular_buffer.c built with -fsanitize=thread instrumentation only (") + how + ")"};
    s.stub_components = {"threads/interrupts: coroutines switched at every instrumented access (sequentially consistent memory)", "the application around the buffer"};
    s.gen = gen;
    s.run = [api](const Plan &p, Ctx &c) { run(p, c, api); };
    return s;
}
Registrar r0(make("circ_u8_O0", &circ_u8_O0, "clang -O0, 1-byte elements"));
Registrar r1(make("circ_u8_O2", &circ_u8_O2, "clang -O2, 1-byte elements"));
Registrar r2(make("circ_u32_O1", &circ_u32_O1, "clang -O1, 4-byte elements"));
Registrar r3(make("circ_u8_gcc", &circ_u8_gcc, "gcc -O2, 1-byte elements"));
BudgetReg br({{"C01", 4000000, 100000000}, {"C02", 4000000, 100000000}, {"C03", 4000000, 100000000}});
}
