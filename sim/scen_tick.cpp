// Deadlines kept with the time-check helpers (T03) on a wrapping tick of every supported width.
#include "sim.h"
#include "tick_api.h"
using namespace sim;

namespace {
enum { O_ADV, O_DUE, O_BACK, O_ARM, O_POLL, O_PAIR };
enum { C_BASE, C_N, C_CNT };
enum { F_JUMP, F_WRAP, F_BACK, F_STALL };
enum { P_EXACT, P_ZERO, P_FAR, P_WRAPPENDING, P_LONG, P_EQUAL };
enum { MAXD = 6 };

struct World {
    Ctx            *ctx;
    const tick_api *api;
    uint64_t        base, mask;
    int64_t         now, half;
    int             n;
    struct { bool armed; int64_t start, delay; } d[MAXD];
    uint64_t ts(int64_t t) const { return (base + (uint64_t)t) & mask; }
    void advance(int64_t by) {
        if (by < 0) return;
        if (now + by > ((int64_t)1 << 62)) return;
        uint64_t a = ts(now);
        now += by;
        if (ts(now) < a || (mask != ~0ull && (uint64_t)by > mask)) { ctx->fault(F_WRAP); ctx->nontrivial = true; }
        if (by > 10000) ctx->fault(F_JUMP);
        ctx->advance((uint64_t)(by > 100000000 ? 100000000 : by) * 1000);
        ctx->ev("time", now);
    }
};

int64_t pick_span(Rng &r, int bits) {
    int64_t half = bits == 64 ? (int64_t)1 << 60 : (int64_t)1 << (bits - 1);
    switch (r.weighted({3, 6, 5, 3, 4})) {
        case 0: return r.range(0, 1);
        case 1: return r.range(1, 20);
        case 2: return r.range(10, 2000);
        case 3: return r.chance(0.5) ? half - r.range(1, 40) : (int64_t)1 << r.range(7, bits - 2);
        default: return (int64_t)(r.next() % (uint64_t)half) >> r.range(0, bits - 2);
    }
}

void gen(Rng &r, Plan &p, int tier, int bits) {
    uint64_t base;
    switch (r.weighted({1, 3, 3, 2})) {
        case 0: base = 0; break;
        case 1: base = 0 - (uint64_t)r.range(0, 3000); break;
        case 2: base = ((uint64_t)1 << (bits - 1)) - (uint64_t)r.range(0, 3000); break;
        default: base = r.next(); break;
    }
    int n = (int)r.range(1, MAXD);
    p.cfg = {(int64_t)base, n};
    double pb = r.chance(0.4) ? 0.12 : 0;
    int    k = (int)r.range(4, tier ? 60 : 40);
    for (int i = 0; i < n; i++) p.ops.push_back(Op(O_ARM, i, pick_span(r, bits), r.chance(0.1)));
    for (int i = 0; i < k; i++) {
        int64_t t = r.range(0, n - 1);
        if (r.chance(pb)) { p.ops.push_back(Op(O_BACK, r.chance(0.6) ? r.range(1, 5) : pick_span(r, bits))); continue; }
        switch (r.weighted({5, 6, 3, 4, 3})) {
            case 0: p.ops.push_back(Op(O_ADV, pick_span(r, bits))); break;
            case 1: p.ops.push_back(Op(O_DUE, t, r.chance(0.8) ? r.range(-2, 2) : -pick_span(r, bits))); p.ops.push_back(Op(O_POLL)); break;
            case 2: p.ops.push_back(Op(O_ARM, t, pick_span(r, bits), r.chance(0.1))); break;
            case 3: p.ops.push_back(Op(O_POLL)); break;
            default: p.ops.push_back(Op(O_PAIR, t, r.range(0, n - 1))); break;
        }
    }
}

void run(const Plan &p, Ctx &ctx, const tick_api *api, int expect) {
    auto cfg = [&](int i) { return i < (int)p.cfg.size() ? p.cfg[(size_t)i] : 0; };
    static World ws[2];
    World &w = ws[instance()];
    memset((void *)&w, 0, sizeof w);
    w.ctx = &ctx; w.api = api;
    int bits = api->bits;
    SIM_CHECK(ctx, "T03", bits == expect, "width", "timestamps are %d bits wide instead of %d", bits, expect);
    w.mask = bits >= 64 ? ~0ull : ((uint64_t)1 << bits) - 1;
    w.half = bits >= 64 ? INT64_MAX : (int64_t)1 << (bits - 1);
    int64_t maxspan = bits >= 64 ? (int64_t)1 << 60 : ((int64_t)1 << bits) - 1;
    w.base = (uint64_t)cfg(C_BASE);
    w.n    = (int)wrapi(cfg(C_N), 1, MAXD);
    const char *P = "T03";
    auto yes = [](int v) { return v != 0; };
    auto judge = [&](int i) {
        auto &d = w.d[i];
        if (!d.armed) return;
        int64_t past = w.now - d.start - d.delay;     // how long the deadline has been over
        if (past >= w.half || past <= -w.half) { ctx.probe(P_FAR); return; }     // too far away to be told from the other side of the tick
        progress();
        uint64_t s = w.ts(d.start), n = w.ts(w.now), dl = (uint64_t)d.delay & w.mask;
        int e = api->expired(s, n, dl), l = api->loosely(s, n, dl), st = api->strictly(s, n, dl);
        ctx.ev("judge", i, past, yes(e) | yes(l) << 1 | yes(st) << 2);
        SIM_CHECK(ctx, P, yes(e) == (past >= 0), "expired", "delay %lld started at tick %llu: is_expired says %d at tick %llu, %lld ticks %s the deadline", (long long)d.delay,
                  (unsigned long long)s, e, (unsigned long long)n, (long long)(past < 0 ? -past : past), past < 0 ? "before" : "after");
        SIM_CHECK(ctx, P, yes(l) == (past >= 0), "expired", "delay %lld started at tick %llu: is_loosely_expired says %d at tick %llu, %lld ticks %s the deadline",
                  (long long)d.delay, (unsigned long long)s, l, (unsigned long long)n, (long long)(past < 0 ? -past : past), past < 0 ? "before" : "after");
        SIM_CHECK(ctx, P, yes(st) == (past > 0), "expired", "delay %lld started at tick %llu: is_strictly_expired says %d at tick %llu, %lld ticks %s the deadline",
                  (long long)d.delay, (unsigned long long)s, st, (unsigned long long)n, (long long)(past < 0 ? -past : past), past < 0 ? "before" : "after");
        if (past == 0) ctx.probe(P_EXACT);
        if (d.delay == 0) ctx.probe(P_ZERO);
        if (d.delay >= w.half) ctx.probe(P_LONG);
        if (past < 0 && w.ts(d.start + d.delay) < n) ctx.probe(P_WRAPPENDING);
        if (past > 10000) ctx.fault(F_STALL);
        uint64_t ap = (uint64_t)(past < 0 ? -past : past);
        ctx.state((uint64_t)(past < 0) << 63 | (uint64_t)(w.ts(d.start + d.delay) < s) << 62 | (uint64_t)(n < s) << 61 | (uint64_t)bits << 32 |
                  (uint64_t)(64 - __builtin_clzll(ap | 1)) << 8 | (uint64_t)(64 - __builtin_clzll((uint64_t)d.delay | 1)));
    };
    auto pair = [&](int64_t a, int64_t b, const char *what) {     // two moments less than half the range apart
        int64_t diff = a - b;
        if (diff >= w.half || diff <= -w.half) return;
        progress();
        uint64_t x = w.ts(a), y = w.ts(b);
        int af = api->after(x, y), ae = api->after_eq(x, y), be = api->before(x, y);
        uint64_t iv = api->interval(x, y);
        ctx.ev(what, diff, yes(af) | yes(ae) << 1 | yes(be) << 2, (int64_t)iv);
        SIM_CHECK(ctx, P, yes(af) == (diff > 0), "order", "time_after says %d for ticks %llu and %llu, which are %lld apart", af, (unsigned long long)x, (unsigned long long)y, (long long)diff);
        SIM_CHECK(ctx, P, yes(ae) == (diff >= 0), "order", "time_after_or_equal says %d for ticks %llu and %llu, which are %lld apart", ae, (unsigned long long)x, (unsigned long long)y, (long long)diff);
        SIM_CHECK(ctx, P, yes(be) == (diff < 0), "order", "time_before says %d for ticks %llu and %llu, which are %lld apart", be, (unsigned long long)x, (unsigned long long)y, (long long)diff);
        SIM_CHECK(ctx, P, iv == (uint64_t)(diff < 0 ? -diff : diff), "interval", "time_interval says %llu for ticks %llu and %llu, which are %lld apart", (unsigned long long)iv,
                  (unsigned long long)x, (unsigned long long)y, (long long)diff);
        if (!diff) ctx.probe(P_EQUAL);
    };
    for (auto &o : p.ops) {
        int     i  = (int)wrapi(o.a[0], 0, w.n - 1);
        int64_t sp = wrapi(o.a[0] < 0 ? 0 : o.a[0], 0, maxspan);
        progress();
        switch (o.kind) {
            case O_ADV: w.advance(sp); break;
            case O_DUE:
                if (w.d[i].armed) w.advance(w.d[i].start + w.d[i].delay - w.now + wrapi(o.a[1], -maxspan, 2));
                judge(i);
                break;
            case O_BACK: if (sp && w.now >= sp) { w.now -= sp; ctx.fault(F_BACK); ctx.nontrivial = true; ctx.ev("time-back", w.now); } break;
            case O_ARM: {
                int64_t dl = wrapi(o.a[1] < 0 ? 0 : o.a[1], 0, maxspan);
                if ((o.a[2] & 1) && bits < 64) dl = maxspan - wrapi(dl, 0, w.half);     // a delay beyond half the range: told apart once it is near
                w.d[i] = {true, w.now, dl};
                ctx.ev("arm", i, dl);
                judge(i);
                break;
            }
            case O_POLL: for (int q = 0; q < w.n; q++) judge(q); break;
            case O_PAIR: {
                int j = (int)wrapi(o.a[1], 0, w.n - 1);
                if (w.d[i].armed) pair(w.d[i].start, w.now, "against-now");
                if (w.d[i].armed && w.d[j].armed) pair(w.d[i].start, w.d[j].start + (i == j ? w.d[j].delay : 0), "pair");
                break;
            }
            default: break;
        }
    }
    // whatever happened before, every deadline is over from its own tick on
    for (int i = 0; i < w.n; i++) {
        if (!w.d[i].armed) continue;
        w.now = w.d[i].start + w.d[i].delay;
        for (int k = -1; k <= 1; k++) { w.now += k == -1 ? -1 : 1; judge(i); }
    }
}

Scenario make(const char *name, const tick_api *api, const char *type, int bits) {
    Scenario s;
    s.name = name;
    s.props = {"T03"};
    s.cfg_names = {"tick-base", "deadlines"};
    s.op_names = {"advance", "advance-to-deadline", "clock-back", "arm", "poll", "compare"};
    s.fault_names = {"clock jump of more than 10000 ticks", "tick wrapped around", "clock stepped back", "deadline judged late by more than 10000 ticks"};
    s.probe_names = {"judged exactly at the deadline", "zero delay", "deadline further than half the range (not judged)", "deadline pending beyond the wrap-around", "delay of half the range or more", "equal moments"};
    s.rule = "a case is one seed: a tick base (often just before a wrap or a sign change), deadlines and a history of polls at explicit simulated times; non-trivial when the tick wrapped or stepped back";
    s.state_measure = "before/after x wraps x magnitude of delay and distance";
    s.real_components = {std::string("gel/timer/timecheck.h (") + type + ", clang -O1, AddressSanitizer)"};
    s.stub_components = {"the tick", "the application's polling loop"};
    s.twin = true;
    s.edge_budget = 20000000;
    s.gen = [=](Rng &r, Plan &p, int tier, const std::string &) { gen(r, p, tier, bits); };
    s.run = [=](const Plan &p, Ctx &c) { run(p, c, api, bits); };
    return s;
}
Registrar r0(make("deadlines_unsigned_long_64", &tick_native, "unsigned long of 64 bits", 64)), r1(make("deadlines_unsigned_long_32", &tick_v32, "unsigned long of 32 bits", 32)),
    r2(make("deadlines_uint32", &tick_u32, "uint32_t, long of 64 bits", 32)), r3(make("deadlines_uint16", &tick_u16, "uint16_t", 16)),
    r4(make("deadlines_uint64", &tick_u64, "uint64_t, long of 32 bits", 64)), r5(make("deadlines_no_typecheck", &tick_nocheck, "type check off", 64));
BudgetReg br({{"T03", 1500000, 60000000}});
}
