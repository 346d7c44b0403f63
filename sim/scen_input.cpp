// Digital inputs on a simulated noisy line: debounce filters (B01), pulse counters (B02), and keypads on a
// simulated tick and matrix (K01 one key exactly, K02 several keys).
#include <algorithm>
#include <memory>
#include "sim.h"
#include "input_api.h"
using namespace sim;

namespace {
enum { NB = 32 };
const char *EVN[] = {"NOTHING", "PRESS", "PRESSING", "CLICK", "LONGCLICK", "LONGPRESS", "RELEASE", "UNKNOWN"};

// a run of samples: base pattern held for `len` polls with a noise mask that flips bits on some of them
enum { OB_HOLD, OB_BOUNCE, OB_GLITCH, OB_SET, OB_INIT, OB_ONE, OB_EDGE, OB_CLEAR, OB_LEN, OB_TRAIN };
enum { FB_BOUNCE, FB_GLITCH, FB_SETMID, FB_REINIT, FB_STUCK };
enum { PB_SWITCH, PB_ALMOST, PB_ZERO, PB_MULTI, PB_BIT31, PB_LONG, PB_READOUT, PB_MIXED, PB_NEWLEN, PB_TRAIN, PB_HUGE };

void gen_b(Rng &r, Plan &p, int tier, const std::string &) {
    int64_t deb = r.chance(0.15) ? 0 : r.chance(0.7) ? r.range(1, 6) : r.chance(0.9) ? r.range(7, 40) : r.range(100, 1000);
    p.cfg = {deb, r.pick({0, 255, 0xA5}), r.range(0, 1), (int64_t)(r.chance(0.5) ? 0 : r.next() & 0xFFFFFFFF), r.chance(0.5) ? 0xFFFFFFFFll : (int64_t)(1u << r.range(0, 31)), r.chance(0.25) ? r.range(1, 1000000) : 0};
    uint64_t level = 0;
    int n = (int)r.range(4, tier ? 40 : 25);
    if (r.chance(0.0004)) {      // lengths beyond 8 and 16 bits' worth of samples
        p.cfg[0] = deb = r.pick({32766, 32768, 65535, 65536, 66000});
        p.cfg[5] = 0;
        uint64_t mask = r.chance(0.5) ? 0xFFFFFFFFull : 1ull << r.range(0, 31);
        level = (uint64_t)p.cfg[3];
        for (int i = 0; i < 4; i++) {
            if (r.chance(0.3)) p.ops.push_back(Op(OB_ONE, r.range(0, 31), r.range(0, 1), deb + r.range(-1, 2)));
            else { level ^= mask; p.ops.push_back(Op(OB_HOLD, (int64_t)level, deb + r.range(-1, 2))); }
        }
        return;
    }
    for (int i = 0; i < n; i++) {
        uint64_t mask = r.chance(0.4) ? 1ull << r.range(0, 31) : r.chance(0.5) ? r.next() & r.next() & 0xFFFFFFFF : r.chance(0.5) ? 0x80000001ull : r.next() & 0xFFFFFFFF;
        int64_t  len  = std::max<int64_t>(0, deb + r.range(-2, 2));
        switch (r.weighted({5, 4, 4, 2, 1, 4, 5, 2, 1, 1})) {
            case 0: level ^= mask; p.ops.push_back(Op(OB_HOLD, (int64_t)level, r.chance(0.5) ? len : r.range(1, 2 * deb + 3))); break;
            case 1: p.ops.push_back(Op(OB_BOUNCE, (int64_t)mask, r.range(2, 12), r.range(1, std::max<int64_t>(1, deb)))); break;
            case 2: p.ops.push_back(Op(OB_GLITCH, (int64_t)mask, std::max<int64_t>(1, deb + r.range(-1, 1)))); break;
            case 3: p.ops.push_back(Op(OB_SET, (int64_t)(r.chance(0.5) ? level : r.next() & 0xFFFFFFFF))); break;
            case 4: p.ops.push_back(Op(OB_INIT, (int64_t)(r.next() & 0xFFFFFFFF), r.range(0, 1))); break;
            case 5: p.ops.push_back(Op(OB_ONE, r.chance(0.2) ? 31 : r.range(0, 31), r.range(0, 1) ? r.pick({1, 2, 255, 1 << 20}) : 0, r.range(1, deb + 2))); break;
            case 6: level ^= mask; p.ops.push_back(Op(OB_EDGE, (int64_t)level, r.range(0, 8), r.range(1, std::max<int64_t>(1, deb)), deb + r.range(0, 3))); break;
            case 7: p.ops.push_back(Op(OB_CLEAR, r.range(0, 31))); break;
            case 8: p.ops.push_back(Op(OB_LEN, deb = r.chance(0.5) ? r.range(0, 3) : r.range(0, 12))); break;
            default: p.ops.push_back(Op(OB_TRAIN, (int64_t)mask, r.chance(0.7) ? r.range(1, 12) : r.chance(0.97) ? r.range(100, 600) : deb < 2 && r.chance(0.05) ? 66000 : 300)); break;
        }
    }
}
// reference: a bit switches after deb+1 consecutive differing samples
struct RefBits {
    uint32_t level = 0;
    int64_t  run[NB] = {0};
    uint32_t count[NB] = {0};
    bool sample(int i, bool v, int64_t deb, Ctx &ctx) {
        if (v == ((level >> i) & 1)) {
            if (run[i] == deb && deb > 0) ctx.probe(PB_ALMOST);
            run[i] = 0;
            return false;
        }
        if (++run[i] <= deb) return false;
        run[i] = 0;
        level ^= 1u << i;
        ctx.probe(PB_SWITCH);
        if (i == 31) ctx.probe(PB_BIT31);
        if (deb == 0) ctx.probe(PB_ZERO);
        if (deb >= 100) ctx.probe(deb > 30000 ? PB_HUGE : PB_LONG);
        return true;
    }
    bool busy() const { for (auto r : run) if (r) return true; return false; }
};

void run_deb(const Plan &p, Ctx &ctx, const input_api *api) {
    auto cfg = [&](int i) { return i < (int)p.cfg.size() ? p.cfg[(size_t)i] : 0; };
    const char *P = "B01";
    int64_t  deb  = wrapi(cfg(0), 0, 70000), dlen[NB];
    uint64_t mixed = (uint64_t)cfg(5);
    const bool huge = deb > 1000;
    auto lengths = [&] {
        for (int i = 0; i < NB; i++) { uint64_t x = mixed + (uint64_t)i; dlen[i] = mixed ? (int64_t)(Rng::splitmix(x) % (uint64_t)(deb + 4)) : deb; }
        if (mixed) ctx.probe(PB_MIXED);
    };
    lengths();
    uint32_t care = (uint32_t)cfg(4) ? (uint32_t)cfg(4) : 0xFFFFFFFFu, line = 0;
    std::unique_ptr<uint8_t[]> f(new uint8_t[api->deb_size]);
    memset(f.get(), (int)wrapi(cfg(1), 0, 255), api->deb_size);
    RefBits m;
    int64_t budget = huge ? 300000 : 20000;
    progress();
    api->deb_init(f.get());
    auto check = [&] {
        unsigned v = api->deb_value(f.get());
        SIM_CHECK(ctx, P, v == m.level, "value", "filtered value %08x where %08x is stable (debounce %lld)", v, m.level, (long long)deb);
    };
    auto sample = [&](uint32_t in) {
        if (budget-- <= 0) return;
        uint32_t chg = 0;
        for (int i = 0; i < NB; i++) if (m.sample(i, (in >> i) & 1, dlen[i], ctx)) chg |= 1u << i;
        progress();
        unsigned r = 0;
        if (mixed) for (int i = 0; i < NB; i++) r |= api->deb_one(f.get(), (in >> i) & 1, (size_t)i, (int)dlen[i]);     // every input with its own length
        else r = api->deb_all(f.get(), in, (int)deb);
        SIM_CHECK(ctx, P, chg ? (r == chg || r == 1) : r == 0, "return", "the filter returned %x when inputs %x switched", r, chg);
        if (chg & (chg - 1)) ctx.probe(PB_MULTI);
        ctx.ev("sample", in, m.level, r);
        check();
    };
    for (auto &o : p.ops) {
        switch (o.kind) {
            case OB_HOLD: line = (uint32_t)o.a[0] & care; for (int64_t k = 0, n = clampi(o.a[1], 0, huge ? 70000 : 2500); k < n; k++) sample(line); break;
            case OB_EDGE: {      // contact bounce, then the new level settles
                uint32_t nw = (uint32_t)o.a[0] & care;
                for (int64_t k = 0, n = clampi(o.a[1], 0, 20); k < n; k++) { ctx.fault(FB_BOUNCE); for (int64_t q = 0, z = clampi(o.a[2], 1, 1000); q < z; q++) sample(k & 1 ? line : nw); }
                line = nw;
                for (int64_t k = 0, n = clampi(o.a[3], 0, 1100); k < n; k++) sample(line);
                break;
            }
            case OB_BOUNCE:
                ctx.nontrivial = true;
                for (int64_t k = 0, n = clampi(o.a[1], 0, 20); k < n; k++) { ctx.fault(FB_BOUNCE); for (int64_t q = 0, z = clampi(o.a[2], 1, 1000); q < z; q++) sample(line ^ ((k & 1) ? 0 : (uint32_t)o.a[0] & care)); }
                break;
            case OB_GLITCH:
                ctx.fault(FB_GLITCH);
                ctx.nontrivial = true;
                for (int64_t k = 0, n = clampi(o.a[1], 0, 1100); k < n; k++) sample(line ^ ((uint32_t)o.a[0] & care));
                sample(line);
                break;
            case OB_SET:
                if (m.busy()) { ctx.fault(FB_SETMID); ctx.nontrivial = true; }
                progress();
                api->deb_set(f.get(), (unsigned)o.a[0]);
                m = RefBits();
                m.level = (uint32_t)o.a[0];
                ctx.ev("set", o.a[0]);
                check();
                break;
            case OB_INIT: ctx.fault(FB_REINIT); progress(); api->deb_init(f.get()); m = RefBits(); check(); break;
            case OB_LEN:          // the length changes while no change is in progress
                if (!m.busy()) { deb = clampi(o.a[0], 0, 1000); lengths(); ctx.probe(PB_NEWLEN); }
                break;
            case OB_TRAIN: {
                int64_t z = mixed ? deb + 4 : deb + 1, n = clampi(o.a[1], 0, 66000);
                if (n * z > 10000) n = 10000 / z;
                ctx.probe(PB_TRAIN);
                for (int64_t k = 0; k < 2 * n; k++) for (int64_t q = 0; q < z; q++) sample(line ^ (k & 1 ? 0 : (uint32_t)o.a[0] & care));
                break;
            }
            case OB_ONE: {
                int i = (int)wrapi(o.a[0], 0, NB - 1);
                for (int64_t k = 0, n = clampi(o.a[2], 0, huge ? 70000 : 1100); k < n && budget-- > 0; k++) {
                    bool chg = m.sample(i, o.a[1] > 0, dlen[i], ctx);
                    progress();
                    unsigned r = api->deb_one(f.get(), (unsigned)clampi(o.a[1], 0, 1 << 30), (size_t)i, (int)dlen[i]);
                    SIM_CHECK(ctx, P, chg ? (r == 1u << i || r == 1) : r == 0, "return", "filtering input %d returned %x, switched: %d", i, r, chg);
                    ctx.ev("one", i, o.a[1], r);
                    check();
                }
                if (o.a[1] > 0) line |= 1u << i; else line &= ~(1u << i);
                break;
            }
            default: {
                ctx.probe(PB_READOUT);
                progress();
                for (int i = 0; i < NB; i++) { int v = api->deb_read(f.get(), (size_t)i); SIM_CHECK(ctx, P, v == (int)((m.level >> i) & 1), "read", "input %d reads %d instead of %u", i, v, (m.level >> i) & 1); }
                int v = api->deb_read(f.get(), NB + (size_t)clampi(o.a[0], 0, 40));
                SIM_CHECK(ctx, P, v == -1, "read", "an input that does not exist reads %d", v);
                break;
            }
        }
        uint64_t fp = m.level;
        for (int i = 0; i < NB; i++) fp = fp * 1099511628211ull + (uint64_t)m.run[i];
        ctx.state(fp);
    }
}
void run_pul(const Plan &p, Ctx &ctx, const input_api *api) {
    auto cfg = [&](int i) { return i < (int)p.cfg.size() ? p.cfg[(size_t)i] : 0; };
    const char *P = "B02";
    int64_t  deb  = wrapi(cfg(0), 0, 70000);
    const bool huge = deb > 1000;
    uint32_t care = (uint32_t)cfg(4) ? (uint32_t)cfg(4) : 0xFFFFFFFFu, line = (uint32_t)cfg(3);
    bool     low  = cfg(2) & 1;
    std::unique_ptr<uint8_t[]> f(new uint8_t[api->pul_size]);
    memset(f.get(), (int)wrapi(cfg(1), 0, 255), api->pul_size);
    RefBits m;
    m.level = line;
    int64_t budget = huge ? 300000 : 20000;
    for (auto &o : p.ops) if (o.kind == OB_TRAIN && o.a[1] > 60000) budget = 400000;
    progress();
    api->pul_init(f.get(), low, line);
    auto check = [&] {
        for (int i = 0; i < NB; i++) {
            int c = api->pul_count(f.get(), i), l = api->pul_level(f.get(), i);
            SIM_CHECK(ctx, P, c == (int)m.count[i], "count", "input %d counted %d pulses where %u were complete (debounce %lld, counting %s pulses)", i, c, m.count[i], (long long)deb, low ? "low" : "high");
            SIM_CHECK(ctx, P, l == (int)((m.level >> i) & 1), "level", "input %d has level %d instead of %u", i, l, (m.level >> i) & 1);
        }
    };
    auto sample = [&](uint32_t in, bool full) {
        if (budget-- <= 0) return;
        int counted = 0;
        for (int i = 0; i < NB; i++)
            if (m.sample(i, (in >> i) & 1, deb, ctx)) {
                bool now = (m.level >> i) & 1;
                if (now == low) { m.count[i]++; counted++; }
            }
        progress();
        int r = api->pul_filter(f.get(), in, (int)deb);
        SIM_CHECK(ctx, P, !!r == (counted > 0), "return", "the filter returned %d when %d pulses were completed", r, counted);
        if (counted > 1) ctx.probe(PB_MULTI);
        ctx.ev("sample", in, m.level, r);
        if (full || (counted && budget < 20000)) check();
    };
    for (auto &o : p.ops) {
        switch (o.kind) {
            case OB_HOLD: line = (uint32_t)o.a[0] & care; for (int64_t k = 0, n = clampi(o.a[1], 0, huge ? 70000 : 2500); k < n; k++) sample(line, k + 1 == n); break;
            case OB_EDGE: {
                uint32_t nw = (uint32_t)o.a[0] & care;
                for (int64_t k = 0, n = clampi(o.a[1], 0, 20); k < n; k++) { ctx.fault(FB_BOUNCE); for (int64_t q = 0, z = clampi(o.a[2], 1, 1000); q < z; q++) sample(k & 1 ? line : nw, false); }
                line = nw;
                for (int64_t k = 0, n = clampi(o.a[3], 0, 1100); k < n; k++) sample(line, k + 1 == n);
                break;
            }
            case OB_BOUNCE:
                ctx.nontrivial = true;
                for (int64_t k = 0, n = clampi(o.a[1], 0, 20); k < n; k++) { ctx.fault(FB_BOUNCE); for (int64_t q = 0, z = clampi(o.a[2], 1, 1000); q < z; q++) sample(line ^ ((k & 1) ? 0 : (uint32_t)o.a[0] & care), false); }
                break;
            case OB_GLITCH:
                ctx.fault(FB_GLITCH);
                ctx.nontrivial = true;
                for (int64_t k = 0, n = clampi(o.a[1], 0, 1100); k < n; k++) sample(line ^ ((uint32_t)o.a[0] & care), false);
                sample(line, true);
                break;
            case OB_INIT:
                if (m.busy()) { ctx.fault(FB_REINIT); ctx.nontrivial = true; }
                low  = o.a[1] & 1;
                line = (uint32_t)o.a[0];
                progress();
                api->pul_init(f.get(), low, line);
                m = RefBits();
                m.level = line;
                break;
            case OB_LEN: if (!m.busy()) { deb = clampi(o.a[0], 0, 1000); ctx.probe(PB_NEWLEN); } break;
            case OB_TRAIN: {
                int64_t z = deb + 1, n = clampi(o.a[1], 0, 70000);
                if (n < 60000 && n * z > 5000) n = 5000 / z;
                if (n * z > 200000) n = 200000 / z;
                ctx.probe(PB_TRAIN);
                for (int64_t k = 0; k < 2 * n; k++) for (int64_t q = 0; q < z; q++) sample(line ^ (k & 1 ? 0 : (uint32_t)o.a[0] & care), n < 60000);
                break;
            }
            case OB_ONE: line ^= (1u << wrapi(o.a[0], 0, NB - 1)) & care; for (int64_t k = 0, n = clampi(o.a[2], 0, huge ? 70000 : 1100); k < n; k++) sample(line, false); break;
            case OB_CLEAR: {
                int i = (int)wrapi(o.a[0], 0, NB - 1);
                ctx.probe(PB_READOUT);
                progress();
                api->pul_clear(f.get(), i);
                m.count[i] = 0;
                int bad[] = {-1, NB, NB + 5};
                for (int b : bad) {
                    api->pul_clear(f.get(), b);
                    int c = api->pul_count(f.get(), b), l = api->pul_level(f.get(), b);
                    SIM_CHECK(ctx, P, c == -1 && l == -1, "range", "an input that does not exist has count %d and level %d", c, l);
                }
                break;
            }
            default: break;
        }
        check();
        uint64_t fp = m.level;
        for (int i = 0; i < NB; i++) fp = fp * 1099511628211ull + (uint64_t)m.run[i] * 64 + std::min<uint32_t>(m.count[i], 63);
        ctx.state(fp);
    }
}

// ------------------------------------------------------------------------------------------------ keypad
enum { OK_HOLD, OK_REL, OK_TO, OK_ADV, OK_BACK, OK_RESET, OK_IDLE, OK_GHOST };
enum { FK_LATE, FK_BACK, FK_WRAP, FK_BOUNCE, FK_GHOST, FK_RESET };
enum { PK_CLICK, PK_LONG, PK_PRESSING, PK_LONGPRESS, PK_REL, PK_RELIMM, PK_REPRESS, PK_EXACT, PK_SWITCH, PK_MANY };
enum { NK = 5, NKMAX = 300 };
struct KClock {
    Ctx     *ctx;
    int      bits;
    uint64_t base;
    int64_t  now = 0, limit, high = 0;
    uint64_t ts() const { uint64_t v = base + (uint64_t)now; return bits == 64 ? v : (uint64_t)(uint32_t)v; }
    void adv(int64_t d, bool idle = false) {
        high = std::max(high, now);
        if (d < 0) return;
        if (idle) limit += d;
        if (now + d > limit) d = std::max<int64_t>(0, limit - now);
        uint64_t a = ts();
        now += d;
        if (ts() < a || d >> 32) { ctx->fault(FK_WRAP); ctx->nontrivial = true; }
        if (d > 1000 && !idle) ctx->fault(FK_LATE);
        ctx->advance((uint64_t)std::min<int64_t>(d, 100000000) * 1000);
    }
};
// what one key must report, from its sampled level and the poll times alone
struct KRef {
    bool    down = false, fresh = true;
    int     last = EV_NOTHING;
    int64_t changed = 0, rep = 0;
    int poll(bool v, int64_t t, int64_t click, int64_t lclick, int64_t period, Ctx &ctx) {
        if (v != down) {
            down = v; changed = t; fresh = false;
            if (v) { if (last != EV_RELEASE && last != EV_NOTHING) ctx.probe(PK_REPRESS); return last = EV_PRESS; }
            if (last == EV_PRESS) { ctx.probe(PK_RELIMM); return last = EV_RELEASE; }
            return EV_NOTHING;
        }
        if (fresh) return EV_NOTHING;
        if (!down) {
            if (last != EV_RELEASE && t > changed + click) { ctx.probe(PK_REL); return last = EV_RELEASE; }
            return EV_NOTHING;
        }
        if (t == changed + click || t == changed + lclick) ctx.probe(PK_EXACT);
        if (last == EV_PRESS && t > changed + click) { rep = t; ctx.probe(PK_CLICK); return last = EV_CLICK; }
        if (last == EV_CLICK && t > changed + lclick) { rep = t; ctx.probe(PK_LONG); return last = EV_LONGCLICK; }
        if (last == EV_LONGCLICK && t > rep + period) { rep = t; ctx.probe(PK_LONGPRESS); return EV_LONGPRESS; }
        if (last == EV_CLICK && t > rep + period) { rep = t; ctx.probe(PK_PRESSING); return EV_PRESSING; }
        return EV_NOTHING;
    }
    bool idle() const { return !down && (last == EV_RELEASE || last == EV_NOTHING); }
};
void gen_k(Rng &r, Plan &p, int tier, const std::string &prop) {
    int      n    = prop == "K01" ? 1 : r.chance(0.01) ? (int)r.range(120, NKMAX) : (int)r.range(2, NK);
    uint64_t base = r.chance(0.4) ? 0 - (uint64_t)r.range(0, 3000) : r.chance(0.5) ? 0x7FFFFFFFFFFFFFFFull - (uint64_t)r.range(0, 3000) : r.chance(0.5) ? 0x7FFFFFFF - (uint64_t)r.range(0, 3000) : r.next();
    int64_t  click = r.chance(0.1) ? 0 : r.range(1, 60), lclick = click + (r.chance(0.1) ? 0 : r.range(1, 1500)), per = r.chance(0.1) ? 0 : r.range(1, 400);
    if (r.chance(0.06)) { int64_t z = r.pick({50, 300, 3000, 1 << 28}); click *= z; lclick *= z; per *= z; }
    p.cfg = {n, (int64_t)(base & 0xFFFFFFFF), (int64_t)(base >> 32), click, lclick, per, r.range(0, 7)};
    int     k = n > NK ? (int)r.range(3, 12) : (int)r.range(4, tier ? 60 : 40);
    int64_t dt = r.pick({1, 5, 10, 20});
    double  pb = r.chance(0.15) ? 0.04 : 0;
    for (int i = 0; i < k; i++) {
        int64_t key = r.range(0, n - 1);
        if (r.chance(pb)) { p.ops.push_back(Op(OK_BACK, r.range(1, 50))); continue; }
        int64_t span = r.weighted({3, 3, 2, 2}) == 0 ? r.range(1, 3) : r.chance(0.4) ? click / dt + r.range(-1, 3) : r.chance(0.5) ? lclick / dt + r.range(-1, 3) : r.range(1, 60);
        switch (r.weighted({8, 6, 5, 3, 1, 1, 1, 2})) {
            case 0: p.ops.push_back(Op(OK_HOLD, key, clampi(span, 1, 300), r.chance(0.7) ? dt : r.range(0, 200))); break;
            case 1: p.ops.push_back(Op(OK_REL, 0, clampi(span, 1, 300), r.chance(0.7) ? dt : r.range(0, 200))); break;
            case 2: p.ops.push_back(Op(OK_TO, r.range(0, 2), r.range(-1, 2), key, r.range(0, 3))); break;
            case 3: p.ops.push_back(Op(OK_ADV, r.chance(0.8) ? r.range(0, 2000) : (int64_t)1 << r.range(10, 28))); break;
            case 4: p.ops.push_back(Op(OK_RESET)); break;
            case 5: p.ops.push_back(Op(OK_IDLE, r.chance(0.5) ? r.range(1, 100000) : ((int64_t)1 << r.range(30, 34)) + r.range(-2, 2))); break;
            case 6: p.ops.push_back(Op(OK_GHOST, r.range(1, 20), r.chance(0.7) ? dt : r.range(0, 200), (int64_t)r.next())); break;
            default: for (int64_t z = r.range(1, 5); z > 0; z--) { p.ops.push_back(Op(OK_HOLD, key, r.range(1, 2), r.range(0, 3), 1)); p.ops.push_back(Op(OK_REL, 0, r.range(1, 2), r.range(0, 3), 1)); } break;
        }
    }
}
void run_k(const Plan &p, Ctx &ctx, const input_api *api, bool single) {
    auto cfg = [&](int i) { return i < (int)p.cfg.size() ? p.cfg[(size_t)i] : 0; };
    const char *P = single ? "K01" : "K02";
    int    n = single ? 1 : (int)wrapi(cfg(0), 2, NKMAX);
    KClock ck{&ctx, api->bits, (uint64_t)(uint32_t)cfg(1) | (uint64_t)cfg(2) << 32, 0, api->bits == 64 ? (int64_t)1 << 58 : (int64_t)1 << 30};
    const int64_t top = api->bits == 64 ? (int64_t)1 << 40 : 1 << 20;
    int64_t click = wrapi(cfg(3), 0, top), lclick = std::max(click, wrapi(cfg(4), 0, top)), per = wrapi(cfg(5), 0, top);
    std::unique_ptr<uint8_t[]> keys(new uint8_t[api->key_size * (size_t)(n + 1)]);
    uint64_t bits[NKMAX];
    int      codes[NKMAX];
    int      layout = (int)wrapi(cfg(6), 0, 7), w = api->bits;
    if (n > NK) { layout |= (layout & 1) ? 3 : 0; layout &= (layout & 1) ? 7 : 4; ctx.probe(PK_MANY); }
    for (int i = 0; i < n; i++) {
        bits[i]  = (layout & 3) == 0 ? (uint64_t)(i * 7 + 3) : (layout & 3) == 1 ? 1ull << i : (layout & 3) == 2 ? 1ull << (w - 1 - i) : (1ull << (w - 1)) | (uint64_t)((i + 1) << 16);
        codes[i] = layout & 4 ? (i & 1 ? -70000 - i : i * 65536 + 300) : i * 10 + 1;
    }
    api->key_make(keys.get(), n, bits, codes);
    progress();
    api->key_reset(keys.get());
    KRef    ref;
    // several keys: what must be true of every key's own event stream, however polls of one key delay the others
    struct KM { int last = EV_NOTHING; int64_t press = 0, rep = 0; bool seen = false; };
    std::vector<KM> km((size_t)n);
    uint64_t line = 0;
    int64_t  budget = 6000;
    bool     quiet = true;      // every key idle and reported so
    int      since = 0;
    auto poll = [&](uint64_t in) {
        if (budget-- <= 0) return;
        int code = -1;
        progress();
        int e = api->key_poll(keys.get(), (uint64_t)click, (uint64_t)lclick, (uint64_t)per, ck.ts(), in, &code);
        if (e || ctx.log) ctx.ev(EVN[e], code, ck.now, (int64_t)in);
        else ctx.mix((uint64_t)ck.now);
        SIM_CHECK(ctx, P, e != EV_UNKNOWN, "event", "an undefined event was reported");
        if (single) {
            int was = ref.last, want = ref.poll(in == bits[0], ck.now, click, lclick, per, ctx);
            SIM_CHECK(ctx, P, e == want, "event", "%s reported where %s was due at %lld (last %s, level changed at %lld)", EVN[e], EVN[want], (long long)ck.now, EVN[was], (long long)ref.changed);
            if (e) SIM_CHECK(ctx, P, code == codes[0], "code", "the event carries code %d", code);
            int st = api->key_state(keys.get(), 0);
            SIM_CHECK(ctx, P, !!st == ref.down, "state", "the key state is %d, sampled level %d", st, ref.down);
            ctx.state((uint64_t)ref.last * 64 + (uint64_t)ref.down * 32 + (uint64_t)e * 4 + (uint64_t)(ck.now > ref.changed + click) + (uint64_t)(ck.now > ref.changed + lclick) * 2);
            return;
        }
        int at = -1;
        for (int i = 0; i < n; i++) if (in == bits[i]) { at = i; km[i].seen = true; }
        if (e == EV_NOTHING) { since++; }
        else {
            int i = -1;
            for (int k = 0; k < n; k++) if (codes[k] == code) i = k;
            SIM_CHECK(ctx, P, i >= 0, "code", "%s carries the unknown code %d", EVN[e], code);
            if (i < 0) return;
            KM &k = km[(size_t)i];
            since = 0;
            const char *lastn = EVN[k.last];
            switch (e) {
                case EV_PRESS:
                    SIM_CHECK(ctx, P, k.seen, "ghost", "key %d reports PRESS and was not seen down since its last report ended", i);
                    SIM_CHECK(ctx, P, i == at || (k.last != EV_RELEASE && k.last != EV_NOTHING), "ghost", "key %d reports PRESS while it is up", i);
                    k.press = ck.now;
                    k.last  = e;
                    break;
                case EV_CLICK:
                    SIM_CHECK(ctx, P, i == at, "ghost", "key %d reports CLICK while it is up", i);
                    SIM_CHECK(ctx, P, k.last == EV_PRESS, "order", "key %d reports CLICK after %s", i, lastn);
                    SIM_CHECK(ctx, P, ck.now > k.press + click, "early", "key %d reports CLICK %lld after PRESS", i, (long long)(ck.now - k.press));
                    k.rep = ck.now; k.last = e; ctx.probe(PK_CLICK);
                    break;
                case EV_LONGCLICK:
                    SIM_CHECK(ctx, P, i == at, "ghost", "key %d reports LONGCLICK while it is up", i);
                    SIM_CHECK(ctx, P, k.last == EV_PRESS || k.last == EV_CLICK, "order", "key %d reports LONGCLICK after %s", i, lastn);
                    SIM_CHECK(ctx, P, ck.now > k.press + lclick, "early", "key %d reports LONGCLICK %lld after PRESS", i, (long long)(ck.now - k.press));
                    k.rep = ck.now; k.last = e; ctx.probe(PK_LONG);
                    break;
                case EV_PRESSING:
                case EV_LONGPRESS:
                    SIM_CHECK(ctx, P, i == at, "ghost", "key %d reports %s while it is up", i, EVN[e]);
                    SIM_CHECK(ctx, P, k.last == (e == EV_PRESSING ? EV_CLICK : EV_LONGCLICK), "order", "key %d reports %s after %s", i, EVN[e], lastn);
                    SIM_CHECK(ctx, P, ck.now > k.rep + per, "early", "key %d reports %s %lld after the last report", i, EVN[e], (long long)(ck.now - k.rep));
                    k.rep = ck.now; ctx.probe(e == EV_PRESSING ? PK_PRESSING : PK_LONGPRESS);
                    break;
                case EV_RELEASE:
                    SIM_CHECK(ctx, P, i != at, "ghost", "key %d reports RELEASE while it is down", i);
                    SIM_CHECK(ctx, P, k.last != EV_RELEASE && k.last != EV_NOTHING, "order", "key %d reports RELEASE after %s", i, lastn);
                    ctx.probe(k.last == EV_PRESS ? PK_RELIMM : PK_REL);
                    k.last = e;
                    k.seen = false;
                    break;
                default: break;
            }
        }
        // from rest, a key alone on the line is reported at once
        if (quiet && at >= 0) SIM_CHECK(ctx, P, e == EV_PRESS && code == codes[at], "missed", "key %d went down on a quiet keypad and %s was reported", at, EVN[e]);
        quiet = true;
        for (int i = 0; i < n; i++) if (i == at || (km[i].last != EV_RELEASE && km[i].last != EV_NOTHING)) quiet = false;
        uint64_t fp = (uint64_t)(at + 1);
        for (int i = 0; i < n; i++) fp = fp * 16 + (uint64_t)km[i].last * 2 + km[i].seen;
        ctx.state(fp);
    };
    auto idle = [&] { return single ? ref.idle() : quiet; };
    auto settle = [&] {
        // everything goes up: a bounded number of polls further apart than the click time reports every release
        line = 0;
        ck.adv(ck.high - ck.now);      // a clock that had been set back has caught up
        ck.limit += (4 * n + 4) * (click + 1);
        for (int k = 0; k < 4 * n + 4; k++) { ck.adv(click + 1); poll(0); }
        if (budget <= 0) return;
        if (single) return;
        for (int i = 0; i < n; i++)
            SIM_CHECK(ctx, P, km[i].last == EV_RELEASE || km[i].last == EV_NOTHING, "stuck", "every key is up and key %d never reports RELEASE after %s", i, EVN[km[i].last]);
        SIM_CHECK(ctx, P, since >= 1, "silence", "events keep coming from a keypad at rest");
    };
    for (auto &o : p.ops) {
        switch (o.kind) {
            case OK_HOLD: {
                uint64_t nb = bits[wrapi(o.a[0], 0, n - 1)];
                if (line && line != nb) ctx.probe(PK_SWITCH);
                if (o.a[3]) { ctx.fault(FK_BOUNCE); ctx.nontrivial = true; }
                line = nb;
                for (int64_t k = 0, z = clampi(o.a[1], 0, 400); k < z; k++) { ck.adv(clampi(o.a[2], 0, 100000)); poll(line); }
                break;
            }
            case OK_REL: line = 0; for (int64_t k = 0, z = clampi(o.a[1], 0, 400); k < z; k++) { ck.adv(clampi(o.a[2], 0, 100000)); poll(line); } break;
            case OK_TO:      // right before, at, after a threshold
                if (single) {
                    int64_t d = o.a[0] == 0 ? ref.changed + click : o.a[0] == 1 ? ref.changed + lclick : ref.rep + per;
                    ck.adv(d + wrapi(o.a[1], -1, 2) - ck.now);
                } else {
                    KM &k = km[wrapi(o.a[2], 0, n - 1)];
                    int64_t d = o.a[0] == 0 ? k.press + click : o.a[0] == 1 ? k.press + lclick : k.rep + per;
                    ck.adv(d + wrapi(o.a[1], -1, 2) - ck.now);
                }
                if (o.a[3] == 0) line = 0;
                poll(line);
                break;
            case OK_ADV: ck.adv(wrapi(o.a[0] < 0 ? 0 : o.a[0], 0, (int64_t)1 << 29)); poll(line); break;
            case OK_BACK: { int64_t d = wrapi(o.a[0] < 0 ? 0 : o.a[0], 0, 5000); if (ck.now >= d) { ck.high = std::max(ck.high, ck.now); ck.now -= d; ctx.fault(FK_BACK); ctx.nontrivial = true; } poll(line); break; }
            case OK_RESET:
                ctx.fault(FK_RESET);
                progress();
                api->key_reset(keys.get());
                ref = KRef();
                for (auto &k : km) k = KM();
                quiet = true; since = 0;
                ctx.ev("reset");
                break;
            case OK_IDLE: if (idle() && line == 0) ck.adv(wrapi(o.a[0] < 0 ? 0 : o.a[0], 0, (int64_t)1 << 35), true); break;
            case OK_GHOST: {     // combinations that match no key
                ctx.fault(FK_GHOST);
                ctx.nontrivial = true;
                uint64_t g = (uint64_t)o.a[2] | 1ull << 30;
                if (api->bits == 32) g &= 0x7FFFFFFF;
                line = g;
                for (int64_t k = 0, z = clampi(o.a[0], 0, 100); k < z; k++) { ck.adv(clampi(o.a[1], 0, 100000)); poll(g); }
                break;
            }
            default: break;
        }
    }
    settle();
}

Scenario mkb(const char *name, bool pulses, const input_api *api) {
    Scenario s;
    s.name  = name;
    s.props = {pulses ? "B02" : "B01"};
    s.cfg_names   = {"debounce", "dirty", "pulse-type", "initial-level", "lines", "per-input-lengths"};
    s.op_names    = {"hold", "bounce", "glitch", "set", "init", "single-input", "edge", "readout", "new-length", "pulse-train"};
    s.fault_names = {"contact bounce", "glitch", "value set while a change was in progress", "re-initialised in operation", "-"};
    s.probe_names = {"an input switched", "one sample short of switching", "debounce 0", "several inputs together", "input 31", "debounce of 100 or more", "readout", "a different length for every input", "length changed at rest", "train of pulses", "debounce of more than 30000"};
    s.rule = "a case is one seed: a debounce length and a line history of holds, bounces, glitches around that length and resets; non-trivial when noise or a reset hit a change in progress";
    s.state_measure   = "level and running count of all 32 inputs";
    s.real_components = {pulses ? "gel/debounce/pulsecounter.c and .h (clang -O1, AddressSanitizer)" : "gel/debounce/debounce.c and .h (clang -O1, AddressSanitizer)"};
    s.stub_components = {"the input lines"};
    s.twin = true;
    s.edge_budget = 20000000;
    s.long_ops = 20000;
    s.gen = gen_b;
    s.run = [=](const Plan &p, Ctx &c) { pulses ? run_pul(p, c, api) : run_deb(p, c, api); };
    return s;
}
Scenario mkk(const char *name, bool single, const input_api *api) {
    Scenario s;
    s.name  = name;
    s.props = {single ? "K01" : "K02"};
    s.cfg_names   = {"keys", "tick-base-lo", "tick-base-hi", "click", "longclick", "press-period", "bit-layout"};
    s.op_names    = {"hold-key", "release", "to-threshold", "late-poll", "clock-back", "reset", "idle", "unknown-combination"};
    s.fault_names = {"poll late by more than 1000 ticks", "clock stepped back", "tick wrapped around", "contact bounce", "unknown key combination", "reset in operation"};
    s.probe_names = {"CLICK", "LONGCLICK", "PRESSING", "LONGPRESS", "RELEASE after the click time", "immediate RELEASE", "pressed again before RELEASE", "polled exactly at a threshold", "finger slid to another key", "keypad of more than 100 keys"};
    s.rule = "a case is one seed: click, long click and repeat times, a tick base and a history of presses, releases, bounces, slides and late polls; non-trivial when the tick wrapped or "
             "stepped back, a contact bounced or an unknown combination appeared";
    s.state_measure   = single ? "last event x level x thresholds passed" : "last event of every key x line";
    s.real_components = {std::string("gel/keypad/keypad.c, gel/timer/timecheck.h (clang -O1, AddressSanitizer, ") + (api->bits == 64 ? "64" : "32") + "-bit unsigned long)"};
    s.stub_components = {"the tick", "the key matrix and the finger", "the main loop"};
    s.twin = true;
    s.edge_budget = 20000000;
    s.long_ops = 20000;
    s.gen = gen_k;
    s.run = [=](const Plan &p, Ctx &c) { run_k(p, c, api, single); };
    return s;
}
Registrar r0(mkb("debounce_filter", false, &input_64)), r1(mkb("pulse_counter", true, &input_64)), r2(mkk("keypad_one_64", true, &input_64)), r3(mkk("keypad_one_32", true, &input_32)),
    r4(mkk("keypad_many_64", false, &input_64)), r5(mkk("keypad_many_32", false, &input_32));
BudgetReg br({{"B01", 200000, 6000000}, {"B02", 120000, 2000000}, {"K01", 1500000, 34000000}, {"K02", 1500000, 22000000}});
}
