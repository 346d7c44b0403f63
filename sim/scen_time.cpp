// Stopwatches (T01) and callback timers (T02) on a simulated tick: wrap-around, jumps, stalls, late polls.
#include <memory>
#include "sim.h"
#include "time_api.h"
using namespace sim;

namespace {
enum { OS_ADV, OS_DUE, OS_BACK, OS_START, OS_STOP, OS_PAUSE, OS_RESTART, OS_SET, OS_CHANGE, OS_SETNGO, OS_SETEL, OS_INIT, OS_Q };
enum { OT_ADV, OT_DUE, OT_BACK, OT_POLL, OT_LOOP, OT_INIT, OT_STOP, OT_PAUSE, OT_RESUME, OT_RESET, OT_CHANGE, OT_AUTO };
enum { C_BASE, C_DIRTY, C_N, C_ALIGN, C_CNT };
enum { F_JUMP, F_WRAP, F_BACK, F_STALL };
enum { P_EXACT, P_ZERO, P_PAUSEDREACHED, P_MULTI, P_LATE, P_RELOAD, P_WRAPPENDING, P_CBACT };
enum { STOPPED, COUNTING, PAUSED };

// the tick: an unbounded simulated time, shown to the code as a wrapping unsigned long
struct Clock {
    Ctx     *ctx;
    int      bits;
    uint64_t base = 0;
    int64_t  now = 0, limit;
    uint64_t ts(int64_t t) const {
        uint64_t v = base + (uint64_t)t;
        return bits == 64 ? v : (uint64_t)(uint32_t)v;
    }
    uint64_t ts() const { return ts(now); }
    void advance(int64_t d) {
        if (d < 0) d = 0;
        if (now + d > limit) d = limit - now > 0 ? limit - now : 0;
        uint64_t a = ts();
        now += d;
        if (ts() < a) { ctx->fault(F_WRAP); ctx->nontrivial = true; }
        if (d > 100000) ctx->fault(F_JUMP);
        ctx->advance((uint64_t)(d > 100000000 ? 100000000 : d) * 1000);
        ctx->ev("time", now);
    }
    void back(int64_t d) {
        if (d < 0 || now - d < 0) return;
        now -= d;
        if (d) { ctx->fault(F_BACK); ctx->nontrivial = true; }
        ctx->ev("time-back", now);
    }
};
struct Model {
    int     state = STOPPED;
    int64_t start = 0, acc = 0, total = 0;
    int64_t elapsed(int64_t now) const { return state == COUNTING ? acc + (now - start) : acc; }
    bool    reached(int64_t now) const { return state != STOPPED && elapsed(now) >= total; }
    bool    behind(int64_t now) const { return state == COUNTING && now < start; }     // the clock was set back past the start
};

uint64_t pick_base(Rng &r, int64_t small) {
    switch (r.weighted({2, 3, 3, 3, 3, 2})) {
        case 0: return 0;
        case 1: return (uint64_t)(0 - r.range(0, small));                          // about to wrap
        case 2: return 0xFFFFFFFFull - (uint64_t)r.range(0, small);                // about to pass 2^32
        case 3: return 0x7FFFFFFFull - (uint64_t)r.range(0, small);
        case 4: return 0x7FFFFFFFFFFFFFFFull - (uint64_t)r.range(0, small);
        default: return r.next();
    }
}
int64_t pick_span(Rng &r) {
    switch (r.weighted({3, 6, 6, 3, 1, 1})) {
        case 0: return r.range(0, 1);
        case 1: return r.range(1, 20);
        case 2: return r.range(10, 2000);
        case 3: return r.range(1000, 200000);
        case 4: return r.range(1 << 20, 1 << 28);
        default: return r.chance(0.5) ? (int64_t)1 << r.range(28, 40) : ((int64_t)1 << 32) + r.range(-3, 3);
    }
}

void gen_sw(Rng &r, Plan &p, int tier, const std::string &) {
    p.cfg = {(int64_t)pick_base(r, r.chance(0.5) ? 3000 : 300000), r.pick({0, 255, 165}), 1, 0};
    int    n = (int)r.range(4, tier ? 60 : 40);
    double pb = r.chance(0.3) ? 0.08 : 0;
    for (int i = 0; i < n; i++) {
        if (r.chance(pb)) { p.ops.push_back(Op(OS_BACK, r.chance(0.7) ? r.range(1, 5) : r.range(1, 5000))); continue; }
        switch (r.weighted({8, 4, 3, 1, 3, 2, 2, 2, 2, 1, 1, 8})) {
            case 0: p.ops.push_back(Op(OS_ADV, pick_span(r))); break;
            case 1: p.ops.push_back(Op(OS_DUE, r.range(-2, 2))); break;
            case 2: p.ops.push_back(Op(OS_START)); break;
            case 3: p.ops.push_back(Op(OS_STOP)); break;
            case 4: p.ops.push_back(Op(OS_PAUSE)); break;
            case 5: p.ops.push_back(Op(OS_RESTART)); break;
            case 6: p.ops.push_back(Op(OS_SET, pick_span(r))); break;
            case 7: p.ops.push_back(Op(OS_CHANGE, pick_span(r))); break;
            case 8: p.ops.push_back(Op(OS_SETNGO, pick_span(r))); break;
            case 9: p.ops.push_back(Op(OS_SETEL, pick_span(r))); break;
            case 10: p.ops.push_back(Op(OS_INIT, r.range(0, 1))); break;
            default: p.ops.push_back(Op(OS_Q)); break;
        }
    }
}

void run_sw(const Plan &p, Ctx &ctx, const time_api *api) {
    auto cfg = [&](int i) { return i < (int)p.cfg.size() ? p.cfg[(size_t)i] : 0; };
    Clock ck{&ctx, api->bits, (uint64_t)cfg(C_BASE), 0, 0};
    ck.limit = api->bits == 64 ? (int64_t)1 << 60 : (int64_t)1 << 30;
    int64_t maxspan = api->bits == 64 ? (int64_t)1 << 58 : (int64_t)1 << 29;
    alignas(16) uint8_t mem[256];
    memset(mem, (int)wrapi(cfg(C_DIRTY), 0, 255), sizeof mem);
    void *s = mem;
    Model m;
    progress();
    api->sw_init(s);
    const char *P = "T01";
    auto rc = [&](const char *what, int r, bool ok) {
        ctx.ev(what, r, ck.now);
        SIM_CHECK(ctx, P, (r == 0) == ok, "return", "%s returned %d where %s was due (state %d)", what, r, ok ? "success" : "a refusal", m.state);
    };
    auto check = [&] {
        progress();
        int st = api->sw_state(s);
        SIM_CHECK(ctx, P, st == m.state, "state", "state %d reported instead of %d", st, m.state);
        uint64_t tot = api->sw_total(s);
        SIM_CHECK(ctx, P, (int64_t)tot == m.total, "period", "period %llu reported instead of %lld", (unsigned long long)tot, (long long)m.total);
        int rch = api->sw_reached(s, ck.ts());
        ctx.ev("state", st, rch);
        if (m.behind(ck.now)) {     // a clock set back may only delay
            if (m.acc < m.total) SIM_CHECK(ctx, P, !rch, "early", "reported reached while the clock reads earlier than the start");
            return;
        }
        uint64_t el = api->sw_elapsed(s, ck.ts()), rem = api->sw_remaining(s, ck.ts());
        int64_t  e = m.elapsed(ck.now), rm = e < m.total ? m.total - e : 0;
        ctx.ev("elapsed", (int64_t)el, (int64_t)rem);
        SIM_CHECK(ctx, P, (int64_t)el == e, "elapsed", "elapsed time %llu reported, %lld has been counted (state %d)", (unsigned long long)el, (long long)e, m.state);
        SIM_CHECK(ctx, P, (int64_t)rem == rm, "remaining", "remaining time %llu reported instead of %lld", (unsigned long long)rem, (long long)rm);
        SIM_CHECK(ctx, P, (rch != 0) == m.reached(ck.now), "reached", "reached=%d with %lld of %lld elapsed (state %d)", rch, (long long)e, (long long)m.total, m.state);
        if (m.state == COUNTING && e == m.total) ctx.probe(P_EXACT);
        if (m.total == 0) ctx.probe(P_ZERO);
        if (m.state == PAUSED && m.reached(ck.now)) ctx.probe(P_PAUSEDREACHED);
        ctx.state((uint64_t)m.state << 60 | (uint64_t)(e > m.total) << 59 | (uint64_t)(e == m.total) << 58 | (uint64_t)(m.acc != 0) << 57 |
                  (uint64_t)(64 - __builtin_clzll((uint64_t)e | 1)) << 8 | (uint64_t)(64 - __builtin_clzll((uint64_t)m.total | 1)));
    };
    for (auto &o : p.ops) {
        int64_t sp = wrapi(o.a[0] < 0 ? 0 : o.a[0], 0, maxspan);
        progress();
        switch (o.kind) {
            case OS_ADV: ck.advance(sp); break;
            case OS_DUE:     // right before, at, or right after the deadline
                if (m.state == COUNTING) ck.advance(m.total - m.elapsed(ck.now) + wrapi(o.a[0], -2, 2));
                break;
            case OS_BACK: ck.back(sp); break;
            case OS_START: {
                bool ok = m.state != COUNTING;
                rc("start", api->sw_start(s, ck.ts()), ok);
                if (ok) { m.state = COUNTING; m.start = ck.now; }
                break;
            }
            case OS_STOP: rc("stop", api->sw_stop(s), true); m.state = STOPPED; m.acc = 0; break;
            case OS_PAUSE: {
                if (m.behind(ck.now)) break;          // elapsed time is undefined while the clock reads before the start
                bool ok = m.state == COUNTING;
                rc("pause", api->sw_pause(s, ck.ts()), ok);
                if (ok) { m.acc = m.elapsed(ck.now); m.state = PAUSED; }
                break;
            }
            case OS_RESTART: rc("restart", api->sw_restart(s, ck.ts()), true); m.acc = 0; m.start = ck.now; m.state = COUNTING; break;
            case OS_SET: {
                bool ok = m.state == STOPPED;
                rc("set", api->sw_set(s, (uint64_t)sp), ok);
                if (ok) m.total = sp;
                break;
            }
            case OS_CHANGE: api->sw_change(s, (uint64_t)sp, ck.ts()); m.total = sp; m.acc = 0; m.start = ck.now; m.state = COUNTING; ctx.ev("change", sp); break;
            case OS_SETNGO:
                api->sw_setngo(s, (uint64_t)sp, ck.ts());
                if (m.state == STOPPED) m.total = sp;
                if (m.state != COUNTING) { m.state = COUNTING; m.start = ck.now; }
                ctx.ev("setngo", sp);
                break;
            case OS_SETEL: {
                bool ok = m.state == STOPPED;
                rc("set-elapsed", api->sw_set_elapsed(s, (uint64_t)sp), ok);
                if (ok) m.acc = sp;
                break;
            }
            case OS_INIT: memset(mem, 0x6B, sizeof mem); (o.a[0] & 1 ? api->sw_null : api->sw_init)(s); m = Model(); ctx.ev("init"); break;
            default: break;
        }
        check();
    }
}

// -------------------------------------------------------------------------------------- callback timers
enum { MAXT = 5 };
struct TM {
    Model   m;
    bool    autoreload = false;
    int64_t arg = 0, fires = 0, cb_act = 0, cb_val = 0;
    bool    expected = false;           // a poll is in progress and the callback is due
    alignas(16) uint8_t mem[256];
};
struct World {
    Ctx            *ctx;
    const time_api *api;
    Clock           ck;
    int             n;
    TM              t[MAXT];
    int             polling = -1, called = 0;
    int             user = 0;
};
World *W;
PerInstance pi_w(&W, sizeof W);
void on_cb(void *timer, void *user, void *arg) {
    progress();
    World &w = *W;
    const char *P = "T02";
    int i = w.polling;
    if (i < 0) { SIM_CHECK(*w.ctx, P, false, "unexpected", "a callback fired outside any poll"); return; }
    TM &t = w.t[i];
    w.called++;
    w.ctx->ev("fire", i, w.ck.now);
    SIM_CHECK(*w.ctx, P, timer == (void *)t.mem, "arguments", "the callback received another timer");
    SIM_CHECK(*w.ctx, P, arg == (void *)&t.arg, "arguments", "the callback received another argument");
    SIM_CHECK(*w.ctx, P, user == (void *)&w.user, "arguments", "the callback received another user pointer");
    SIM_CHECK(*w.ctx, P, t.expected, "early", "timer %d fired at %lld with %lld of %lld elapsed (state %d)", i, (long long)w.ck.now, (long long)t.m.elapsed(w.ck.now),
              (long long)t.m.total, t.m.state);
    if (t.cb_act) {
        w.ctx->probe(P_CBACT);
        switch (t.cb_act) {
            case 1: w.api->tm_autoreload(timer, 0); t.autoreload = false; break;
            case 2: w.api->tm_autoreload(timer, 1); t.autoreload = true; break;
            case 3:
                if (t.autoreload && t.m.state == COUNTING) { w.api->tm_change(timer, (uint64_t)t.cb_val, w.ck.ts()); t.m.total = t.cb_val; }
                break;
            default: break;
        }
    }
}

void gen_tm(Rng &r, Plan &p, int tier, const std::string &) {
    int n = r.chance(0.5) ? 1 : (int)r.range(2, MAXT);
    p.cfg = {(int64_t)pick_base(r, r.chance(0.5) ? 3000 : 300000), r.pick({0, 255, 165}), n, 0};
    int    k = (int)r.range(5, tier ? 70 : 50);
    double pb = r.chance(0.25) ? 0.05 : 0;
    for (int i = 0; i < n; i++) {
        p.ops.push_back(Op(OT_INIT, i, pick_span(r), r.chance(0.3) ? r.range(1, 3) : 0, pick_span(r)));
        if (r.chance(0.5)) p.ops.push_back(Op(OT_AUTO, i, 1));
    }
    for (int i = 0; i < k; i++) {
        int64_t t = r.range(0, n - 1);
        if (r.chance(pb)) { p.ops.push_back(Op(OT_BACK, r.chance(0.7) ? r.range(1, 5) : r.range(1, 5000))); continue; }
        switch (r.weighted({5, 7, 6, 5, 1, 1, 2, 3, 1, 2, 1})) {
            case 0: p.ops.push_back(Op(OT_ADV, pick_span(r))); break;
            case 1: p.ops.push_back(Op(OT_DUE, t, r.range(-2, 2))); p.ops.push_back(Op(OT_POLL, t)); break;
            case 2: p.ops.push_back(Op(OT_POLL, r.chance(0.5) ? -1 : t)); break;
            case 3: p.ops.push_back(Op(OT_LOOP, r.range(1, 30), r.chance(0.5) ? r.range(0, 10) : r.range(0, 500), r.chance(0.2) ? r.range(1, 30) : 0, pick_span(r))); break;
            case 4: p.ops.push_back(Op(OT_INIT, t, pick_span(r), r.chance(0.3) ? r.range(1, 3) : 0, pick_span(r))); break;
            case 5: p.ops.push_back(Op(OT_STOP, t)); break;
            case 6: p.ops.push_back(Op(OT_PAUSE, t)); break;
            case 7: p.ops.push_back(Op(OT_RESUME, t)); break;
            case 8: p.ops.push_back(Op(OT_RESET, t)); break;
            case 9: p.ops.push_back(Op(OT_CHANGE, t, pick_span(r))); break;
            default: p.ops.push_back(Op(OT_AUTO, t, r.range(0, 1))); break;
        }
    }
}

void run_tm(const Plan &p, Ctx &ctx, const time_api *api) {
    auto cfg = [&](int i) { return i < (int)p.cfg.size() ? p.cfg[(size_t)i] : 0; };
    static World ws[2];
    World &w = ws[instance()];
    W     = &w;
    w.ctx = &ctx;
    w.api = api;
    w.ck  = Clock{&ctx, api->bits, (uint64_t)cfg(C_BASE), 0, api->bits == 64 ? (int64_t)1 << 60 : (int64_t)1 << 30};
    w.n   = (int)wrapi(cfg(C_N), 1, MAXT);
    w.polling = -1;
    int64_t maxspan = api->bits == 64 ? (int64_t)1 << 58 : (int64_t)1 << 29;
    bool    inited[MAXT] = {false};
    const char *P = "T02";
    for (int i = 0; i < MAXT; i++) {
        w.t[i] = TM();
        memset(w.t[i].mem, (int)wrapi(cfg(C_DIRTY), 0, 255), sizeof w.t[i].mem);
    }
    auto poll = [&](int i) {
        TM &t = w.t[i];
        if (!inited[i]) return;
        bool due = t.m.state != STOPPED && (t.m.acc >= t.m.total || t.m.reached(w.ck.now));     // a period already over stays over, whatever the clock does
        if (due && t.m.state == COUNTING) {
            int64_t late = t.m.elapsed(w.ck.now) - t.m.total;
            ctx.probe(late ? P_LATE : P_EXACT);
            if (late > 1000) { ctx.fault(F_STALL); ctx.nontrivial = true; }
        }
        if (due && t.m.state == PAUSED) ctx.probe(P_PAUSEDREACHED);
        w.polling  = i;
        w.called   = 0;
        t.expected = due;
        progress();
        int r = api->tm_poll(t.mem, w.ck.ts(), &w.user);
        w.polling  = -1;
        t.expected = false;
        ctx.ev("poll", i, r, w.called, due);
        if (due) SIM_CHECK(ctx, P, w.called == 1, "missed", "timer %d is due at %lld (%lld of %lld elapsed) and its callback ran %d times", i, (long long)w.ck.now,
                           (long long)t.m.elapsed(w.ck.now), (long long)t.m.total, w.called);
        else SIM_CHECK(ctx, P, w.called == 0, "early", "timer %d is not due and fired", i);
        SIM_CHECK(ctx, P, (r != 0) == due, "return", "the poll of timer %d returned %d, due=%d", i, r, due);
        if (due) {
            t.fires++;
            if (t.autoreload) { t.m.state = COUNTING; t.m.start = w.ck.now; t.m.acc = 0; ctx.probe(P_RELOAD); }
            else { t.m.state = STOPPED; t.m.acc = 0; }
        }
        int64_t rem = t.m.behind(w.ck.now) ? -1 : api->tm_remaining(t.mem, w.ck.ts());
        if (rem >= 0 && t.m.state != STOPPED) {
            int64_t want = std::max<int64_t>(0, t.m.total - t.m.elapsed(w.ck.now));
            SIM_CHECK(ctx, P, rem == want, "remaining", "timer %d reports %lld left instead of %lld", i, (long long)rem, (long long)want);
        }
        ctx.state((uint64_t)t.m.state << 60 | (uint64_t)t.autoreload << 59 | (uint64_t)due << 58 | (uint64_t)(t.m.acc != 0) << 57 |
                  (uint64_t)(64 - __builtin_clzll((uint64_t)std::max<int64_t>(1, t.m.elapsed(w.ck.now)))) << 8 | (uint64_t)(64 - __builtin_clzll((uint64_t)t.m.total | 1)));
    };
    auto poll_all = [&] { for (int i = 0; i < w.n; i++) poll(i); };
    for (auto &o : p.ops) {
        int     i  = (int)wrapi(o.a[0], 0, w.n - 1);
        TM     &t  = w.t[i];
        int64_t sp = wrapi(o.a[1] < 0 ? 0 : o.a[1], 0, maxspan);
        progress();
        switch (o.kind) {
            case OT_ADV: w.ck.advance(wrapi(o.a[0] < 0 ? 0 : o.a[0], 0, maxspan)); break;
            case OT_DUE: if (t.m.state == COUNTING) w.ck.advance(t.m.total - t.m.elapsed(w.ck.now) + wrapi(o.a[1], -2, 2)); break;
            case OT_BACK: w.ck.back(wrapi(o.a[0] < 0 ? 0 : o.a[0], 0, maxspan)); break;
            case OT_POLL: if (o.a[0] < 0) { if (w.n > 1) ctx.probe(P_MULTI); poll_all(); } else poll(i); break;
            case OT_LOOP: {     // the application's main loop, with one optional stall
                int64_t k = clampi(o.a[0], 0, 60);
                for (int64_t q = 0; q < k; q++) {
                    w.ck.advance(clampi(o.a[1], 0, 100000));
                    if (o.a[2] && q + 1 == o.a[2]) w.ck.advance(wrapi(o.a[3] < 0 ? 0 : o.a[3], 0, maxspan));
                    poll_all();
                }
                break;
            }
            case OT_INIT: {
                void *r = api->tm_init(t.mem, (uint64_t)sp, w.ck.ts(), on_cb, &t.arg);
                SIM_CHECK(ctx, P, r == t.mem, "return", "init returned another timer");
                t.m = Model();
                t.m.state = COUNTING; t.m.start = w.ck.now; t.m.total = sp;
                t.autoreload = false;
                t.cb_act = wrapi(o.a[2], 0, 3);
                t.cb_val = wrapi(o.a[3] < 0 ? 0 : o.a[3], 0, maxspan);
                inited[i] = true;
                ctx.ev("init", i, sp);
                break;
            }
            default:
                if (!inited[i]) break;
                switch (o.kind) {
                    case OT_STOP: api->tm_stop(t.mem); t.m.state = STOPPED; t.m.acc = 0; ctx.ev("stop", i); break;
                    case OT_PAUSE:
                        if (t.m.behind(w.ck.now)) break;
                        api->tm_pause(t.mem, w.ck.ts());
                        if (t.m.state == COUNTING) { t.m.acc = t.m.elapsed(w.ck.now); t.m.state = PAUSED; }
                        ctx.ev("pause", i);
                        break;
                    case OT_RESUME:
                        api->tm_resume(t.mem, w.ck.ts());
                        if (t.m.state != COUNTING) { t.m.state = COUNTING; t.m.start = w.ck.now; }
                        ctx.ev("resume", i);
                        break;
                    case OT_RESET:
                        api->tm_reset(t.mem, w.ck.ts());
                        if (t.m.state != STOPPED) { t.m.acc = 0; t.m.start = w.ck.now; }
                        ctx.ev("reset", i);
                        break;
                    case OT_CHANGE:
                        api->tm_change(t.mem, (uint64_t)sp, w.ck.ts());
                        if (t.m.state != STOPPED) { t.m.acc = 0; t.m.start = w.ck.now; t.m.total = sp; }
                        ctx.ev("change", i, sp);
                        break;
                    case OT_AUTO: api->tm_autoreload(t.mem, (int)(o.a[1] & 1)); t.autoreload = o.a[1] & 1; ctx.ev("auto", i, t.autoreload); break;
                    default: break;
                }
        }
    }
    // bounded liveness once the disturbances stop: every running timer fires at the first poll past its deadline
    for (int i = 0; i < w.n; i++) {
        TM &t = w.t[i];
        if (!inited[i] || t.m.state != COUNTING) continue;
        w.ck.advance(t.m.total - t.m.elapsed(w.ck.now));
        poll(i);
    }
}

Scenario make(const char *name, bool timers, const time_api *api) {
    Scenario s;
    s.name  = name;
    s.props = {timers ? "T02" : "T01"};
    s.cfg_names = {"tick-base", "dirty", "timers", "-"};
    if (timers) s.op_names = {"advance", "advance-to-deadline", "clock-back", "poll", "main-loop", "init", "stop", "pause", "resume", "reset", "change-period", "autoreload"};
    else s.op_names = {"advance", "advance-to-deadline", "clock-back", "start", "stop", "pause", "restart", "set", "change", "set-and-go", "set-elapsed", "init", "query"};
    s.fault_names = {"clock jump of more than 100000 ticks", "tick wrapped around", "clock stepped back", "poll late by more than 1000 ticks"};
    s.probe_names = {"observed exactly at the deadline", "zero period", "period over while paused", "several timers polled together", "fired late", "auto-reloaded", "-", "callback acted on its own timer"};
    s.rule = "a case is one seed: a tick base (often just before a wrap), periods and a history of calls at explicit simulated times; non-trivial when the tick wrapped, stepped "
             "back or a poll came very late";
    s.state_measure = "timer state x deadline relation x magnitude of elapsed and period";
    s.real_components = {std::string(timers ? "gel/timer/timer.c, " : "") + "gel/timer/stopwatch.c, gel/timer/timecheck.h (clang -O1, AddressSanitizer, " + (api->bits == 64 ? "64" : "32") + "-bit unsigned long)"};
    s.stub_components = {"the tick", "the application's main loop and callbacks"};
    s.twin = true;
    s.edge_budget = 20000000;
    s.gen = timers ? gen_tm : gen_sw;
    s.run = [=](const Plan &p, Ctx &c) { timers ? run_tm(p, c, api) : run_sw(p, c, api); };
    return s;
}
Registrar r0(make("stopwatch_64", false, &time_64)), r1(make("stopwatch_32", false, &time_32)), r2(make("gel_timer_64", true, &time_64)), r3(make("gel_timer_32", true, &time_32));
BudgetReg br({{"T01", 3000000, 100000000}, {"T02", 3000000, 90000000}});
}
