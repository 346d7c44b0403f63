// Memory watchers (D01) driven by a simulated tick, tasks that write the watched memory and a late or bursty
// main loop; deferred structure updates (D02) under failing allocations.
#include <algorithm>
#include <memory>
#include "sim.h"
#include "simalloc.h"
#include "data_api.h"
using namespace sim;

namespace {
enum { TEMPL = 6, MAXW = 330, MAXSZ = 70000 };     // watchers beyond the sixth repeat the first six
// ---------------------------------------------------------------------------------------------- watchers
enum { OW_WRITE, OW_POKE, OW_REVERT, OW_ADV, OW_DUE, OW_BACK, OW_PROC, OW_LOOP, OW_CHECK, OW_CLEAR, OW_TRIG, OW_TRIGALL };
enum { CW_N, CW_BASE, CW_BASEHI, CW_S0 };      // then per watcher: size, delay, action
enum { FW_BACK, FW_WRAP, FW_STALL, FW_ABA };
enum { PW_IMM, PW_DELAYED, PW_RETRIG, PW_EXACT, PW_LATE, PW_CLEARPEND, PW_CHAIN, PW_MULTI, PW_TAIL, PW_LARGE, PW_LONG };

struct Wt {
    std::unique_ptr<uint8_t[]> mem;
    std::vector<uint8_t>       old;
    size_t                     size = 1;
    int64_t                    delay = 0, at = 0;
    int                        pending = 0;      // 0 no, 1 yes, 2 may or may not (cleared after it was noticed)
    int                        act = 0;
    int                        calls = 0;        // in the current pass
    uint8_t                    tag = 0;
};
struct WWorld {
    Ctx            *ctx;
    const data_api *api;
    std::vector<Wt> w;
    int             n = 0;
    int64_t         now = 0, limit = 0;
    uint64_t        base = 0;
    int             next = 0;        // model pass: first entry not yet looked at
    bool            ordered = false, in_pass = false, changed = false;
    int             trig = -2;       // explicit trigger in progress: index, or -1 for all
    uint64_t        rot = 0;
    uint64_t ts() const { uint64_t v = base + (uint64_t)now; return api->bits == 64 ? v : (uint64_t)(uint32_t)v; }
};
WWorld *W;
PerInstance pi_w(&W, sizeof W);
const char *P1 = "D01";

// what the pass must do at entry i, from the memory as it is now; returns 0 nothing, 1 callback, 2 either
int model_step(int i) {
    Wt  &t   = W->w[i];
    Ctx &ctx = *W->ctx;
    if (memcmp(t.mem.get(), t.old.data(), t.size)) {
        W->changed = true;
        t.old.assign(t.mem.get(), t.mem.get() + t.size);
        if (t.delay > 0) {
            if (t.pending) ctx.probe(PW_RETRIG);
            t.pending = 1;
            t.at      = W->now;
            return 0;
        }
        t.pending = 0;
        ctx.probe(PW_IMM);
        return 1;
    }
    if (t.pending && W->now >= t.at + t.delay) {
        ctx.probe(W->now == t.at + t.delay ? PW_EXACT : PW_LATE);
        ctx.probe(PW_DELAYED);
        int r     = t.pending;
        t.pending = 0;
        return r;
    }
    return 0;
}
void settle_until(int end) {      // entries [next,end) must not need a callback that has not come
    for (; W->next < end; W->next++) {
        int want = model_step(W->next);
        SIM_CHECK(*W->ctx, P1, !(want == 1), "missed", "watcher %d (delay %lld) was due at %lld and its callback did not run", W->next, (long long)W->w[W->next].delay, (long long)W->now);
    }
}
void on_change(void *mem, void *data) {
    progress();
    Ctx &ctx = *W->ctx;
    int  i   = -1;
    for (int k = 0; k < W->n; k++) if (data == (void *)&W->w[k].tag) i = k;
    SIM_CHECK(ctx, P1, i >= 0 && mem == (void *)W->w[i].mem.get(), "arguments", "a callback received another block or user data");
    if (i < 0) return;
    Wt &t = W->w[i];
    t.calls++;
    ctx.ev("callback", i, W->now, t.calls);
    SIM_CHECK(ctx, P1, t.calls == 1, "twice", "the callback of watcher %d ran twice in one pass", i);
    if (W->trig != -2) {
        SIM_CHECK(ctx, P1, W->trig == -1 || W->trig == i, "trigger", "triggering %d ran the callback of %d", W->trig, i);
        return;
    }
    SIM_CHECK(ctx, P1, W->in_pass, "spurious", "a callback ran outside processing");
    if (W->ordered) {
        SIM_CHECK(ctx, P1, i >= W->next, "spurious", "the callback of watcher %d ran out of order", i);
        settle_until(i);
        W->next  = i + 1;
        int want = model_step(i);
        SIM_CHECK(ctx, P1, want != 0, "early", "the callback of watcher %d ran at %lld without a due change", i, (long long)W->now);
        if (t.act) {     // the application reacts by changing another watched block
            int j = (i + t.act) % W->n;
            if (j != i) {
                ctx.probe(PW_CHAIN);
                W->w[j].mem[0] = (uint8_t)(W->w[j].mem[0] + 1);
            }
        }
    }
}
void gen_w(Rng &r, Plan &p, int tier, const std::string &) {
    int n = r.chance(0.003) ? (int)r.range(200, MAXW) : r.chance(0.4) ? 1 : (int)r.range(2, TEMPL);
    int maxsz = r.chance(0.03) ? 1000 : 80;
    if (n < 3 && r.chance(0.004)) maxsz = MAXSZ;
    uint64_t base = r.chance(0.4) ? 0 - (uint64_t)r.range(0, 3000) : r.chance(0.5) ? 0x7FFFFFFFFFFFFFFFull - (uint64_t)r.range(0, 3000)
                    : r.chance(0.5) ? 0x7FFFFFFF - (uint64_t)r.range(0, 3000) : r.next();
    p.cfg = {n, (int64_t)(base & 0xFFFFFFFF), (int64_t)(base >> 32)};
    bool chain = n > 1 && r.chance(0.25);
    for (int i = 0; i < TEMPL; i++) {
        p.cfg.push_back(r.chance(maxsz == MAXSZ ? 0.1 : 0.5) ? r.range(1, 8) : maxsz == MAXSZ && r.chance(0.8) ? r.range(65530, maxsz) : r.range(1, n > TEMPL ? 20 : maxsz));
        p.cfg.push_back(r.chance(0.35) ? 0 : r.chance(0.7) ? r.range(1, 30) : r.chance(0.8) ? r.range(30, 5000) : ((int64_t)1 << r.range(13, r.chance(0.7) ? 28 : 35)) + r.range(0, 3));
        p.cfg.push_back(chain && r.chance(0.6) ? r.range(1, std::min(n, (int)TEMPL) - 1) : 0);
    }
    int    k  = n > TEMPL ? (int)r.range(3, 8) : (int)r.range(5, tier ? 80 : 50);
    double pb = r.chance(0.2) ? 0.05 : 0;
    for (int i = 0; i < k; i++) {
        int64_t t = r.range(0, n - 1);
        if (r.chance(pb)) { p.ops.push_back(Op(OW_BACK, r.chance(0.7) ? r.range(1, 5) : r.range(1, 5000))); continue; }
        switch (r.weighted({6, 4, 2, 5, 6, 8, 4, 2, 1, 1, 1})) {
            case 0: p.ops.push_back(Op(OW_WRITE, t, r.range(0, 1 << 20))); break;
            case 1: p.ops.push_back(Op(OW_POKE, t, r.chance(0.4) ? -1 : r.range(0, maxsz - 1), 1 << r.range(0, 7))); break;
            case 2: p.ops.push_back(Op(OW_REVERT, t)); break;
            case 3: p.ops.push_back(Op(OW_ADV, r.chance(0.7) ? r.range(0, 20) : r.chance(0.8) ? r.range(20, 10000) : (int64_t)1 << r.range(13, r.chance(0.8) ? 28 : 36))); break;
            case 4: p.ops.push_back(Op(OW_DUE, t, r.range(-1, 1))); if (r.chance(0.8)) p.ops.push_back(Op(OW_PROC)); break;
            case 5: p.ops.push_back(Op(OW_PROC)); break;
            case 6: p.ops.push_back(Op(OW_LOOP, r.range(1, 20), r.range(0, 10), r.chance(0.5) ? t : -1, r.range(1, 5))); break;
            case 7: p.ops.push_back(Op(OW_CHECK)); break;
            case 8: p.ops.push_back(Op(OW_CLEAR)); break;
            case 9: p.ops.push_back(Op(OW_TRIG, t)); break;
            default: p.ops.push_back(Op(OW_TRIGALL)); break;
        }
    }
}
void run_w(const Plan &p, Ctx &ctx, const data_api *api) {
    auto cfg = [&](int i) { return i < (int)p.cfg.size() ? p.cfg[(size_t)i] : 0; };
    static WWorld ws[2];
    WWorld &w = ws[instance()];
    w         = WWorld();
    W         = &w;
    g_alloc.reset();
    w.ctx = &ctx; w.api = api;
    w.n     = (int)wrapi(cfg(CW_N), 1, MAXW);
    w.base  = (uint64_t)(uint32_t)cfg(CW_BASE) | (uint64_t)cfg(CW_BASEHI) << 32;
    w.limit = api->bits == 64 ? (int64_t)1 << 60 : (int64_t)1 << 30;
    w.w.resize((size_t)w.n);
    void    *mem[MAXW], *data[MAXW];
    size_t   size[MAXW];
    uint64_t delay[MAXW];
    for (int i = 0; i < w.n; i++) {
        Wt &t   = w.w[i];
        int c   = CW_S0 + 3 * (i % TEMPL);
        t.size  = (size_t)wrapi(cfg(c), 1, (int64_t)std::min<size_t>(w.n > TEMPL ? 1000 : MAXSZ, api->max_block));
        t.delay = wrapi(cfg(c + 1), 0, api->max_delay);
        t.act   = (int)wrapi(cfg(c + 2), 0, TEMPL - 1);
        if (t.size > 255) ctx.probe(PW_LARGE);
        if (t.act) w.ordered = true;
        t.mem.reset(new uint8_t[t.size]);
        for (size_t k = 0; k < t.size; k++) t.mem[k] = (uint8_t)(i * 17 + k);
        mem[i] = t.mem.get(); size[i] = t.size; data[i] = &t.tag; delay[i] = (uint64_t)t.delay;
    }
    if (w.n > 200) ctx.probe(PW_LONG);
    void *l = api->list_new(w.n, mem, size, on_change, data, delay);
    struct Free { const data_api *a; void *l; ~Free() { a->list_free(l); alloc_release_all(); } } fr{api, l};
    progress();
    api->list_init(l);
    for (int i = 0; i < w.n; i++) w.w[i].old.assign(w.w[i].mem.get(), w.w[i].mem.get() + w.w[i].size);
    auto advance = [&](int64_t d) {
        if (d < 0) return;
        if (w.now + d > w.limit) d = w.limit - w.now;
        uint64_t a = w.ts();
        w.now += d;
        if (w.ts() < a) { ctx.fault(FW_WRAP); ctx.nontrivial = true; }
        if (d > 10000) ctx.fault(FW_STALL);
        ctx.advance((uint64_t)(d > 100000000 ? 100000000 : d) * 1000);
    };
    auto process = [&] {
        for (int i = 0; i < w.n; i++) w.w[i].calls = 0;
        w.next = 0; w.in_pass = true; w.changed = false;
        int want[MAXW];
        memset(want, 0, sizeof(int) * (size_t)w.n);
        if (!w.ordered) { for (int i = 0; i < w.n; i++) want[i] = model_step(i); w.next = w.n; }
        progress();
        int r = api->process(l, w.ts());
        w.in_pass = false;
        int fired = 0;
        if (w.ordered) settle_until(w.n);
        else for (int i = 0; i < w.n; i++) {
            Wt &t = w.w[i];
            fired += t.calls;
            if (want[i] == 2) continue;
            SIM_CHECK(ctx, P1, !(want[i] == 1 && t.calls == 0), "missed", "watcher %d (delay %lld) was due at %lld and its callback did not run", i, (long long)t.delay, (long long)w.now);
            SIM_CHECK(ctx, P1, !(want[i] == 0 && t.calls), "early", "the callback of watcher %d (delay %lld, pending %d since %lld) ran at %lld without a due change", i,
                      (long long)t.delay, t.pending, (long long)t.at, (long long)w.now);
        }
        if (fired > 1) ctx.probe(PW_MULTI);
        SIM_CHECK(ctx, P1, !!r == w.changed, "return", "processing returned %d, changes found: %d", r, (int)w.changed);
        ctx.ev("process", w.now, r, fired);
        uint64_t fp = (uint64_t)w.n;
        for (int i = 0; i < w.n; i++) fp = fp * 7 + (uint64_t)w.w[i].pending * 2 + (uint64_t)(w.w[i].calls > 0);
        for (int i = 0; i < w.n; i++) fp = fp * 37 + (w.w[i].pending ? (uint64_t)(64 - __builtin_clzll((uint64_t)std::max<int64_t>(1, w.now - w.w[i].at))) : 36);
        ctx.state(fp);
    };
    for (auto &o : p.ops) {
        int i = (int)wrapi(o.a[0], 0, w.n - 1);
        Wt &t = w.w[i];
        progress();
        switch (o.kind) {
            case OW_WRITE: for (size_t k = 0; k < t.size; k++) t.mem[k] = (uint8_t)(o.a[1] + (int64_t)k * 3 + (o.a[1] >> 8)); ctx.ev("write", i, o.a[1]); break;
            case OW_POKE: {
                size_t k = o.a[1] < 0 ? t.size - 1 : (size_t)wrapi(o.a[1], 0, (int64_t)t.size - 1);
                if (k == t.size - 1) ctx.probe(PW_TAIL);
                t.mem[k] ^= (uint8_t)o.a[2];
                ctx.ev("poke", i, (int64_t)k, o.a[2]);
                break;
            }
            case OW_REVERT:
                if (memcmp(t.mem.get(), t.old.data(), t.size)) { ctx.fault(FW_ABA); ctx.nontrivial = true; }
                memcpy(t.mem.get(), t.old.data(), t.size);
                break;
            case OW_ADV: advance(wrapi(o.a[0] < 0 ? 0 : o.a[0], 0, api->bits == 64 ? (int64_t)1 << 37 : (int64_t)1 << 29)); break;
            case OW_DUE: if (t.pending) advance(t.at + t.delay - w.now + wrapi(o.a[1], -1, 1)); break;
            case OW_BACK: {
                int64_t d = wrapi(o.a[0] < 0 ? 0 : o.a[0], 0, 5000);
                if (w.now - d >= 0) { w.now -= d; ctx.fault(FW_BACK); ctx.nontrivial = true; }
                break;
            }
            case OW_PROC: process(); break;
            case OW_LOOP:      // main loop; a writer keeps changing one block for some turns
                for (int64_t k = 0, n = clampi(o.a[0], 0, 40); k < n; k++) {
                    if (o.a[2] >= 0 && k < clampi(o.a[3], 0, 40)) { Wt &x = w.w[wrapi(o.a[2], 0, w.n - 1)]; x.mem[x.size - 1]++; }
                    advance(clampi(o.a[1], 0, 1000));
                    process();
                }
                break;
            case OW_CHECK: {
                int any = 0;
                for (int k = 0; k < w.n; k++) any |= memcmp(w.w[k].mem.get(), w.w[k].old.data(), w.w[k].size) != 0;
                int r = api->check(l);
                SIM_CHECK(ctx, P1, !!r == any, "check", "check_for_changes returned %d, changed: %d", r, any);
                ctx.ev("check", r);
                break;
            }
            case OW_CLEAR:
                for (int k = 0; k < w.n; k++) {
                    Wt &x = w.w[k];
                    if (memcmp(x.mem.get(), x.old.data(), x.size)) { x.old.assign(x.mem.get(), x.mem.get() + x.size); x.pending = 0; }
                    else if (x.pending) { x.pending = 2; ctx.probe(PW_CLEARPEND); }     // documented neither way
                }
                for (int k = 0; k < w.n; k++) w.w[k].calls = 0;
                api->clear(l, w.ts());
                ctx.ev("clear");
                break;
            case OW_TRIG:
            case OW_TRIGALL:
                for (int k = 0; k < w.n; k++) w.w[k].calls = 0;
                w.trig = o.kind == OW_TRIG ? i : -1;
                if (o.kind == OW_TRIG) api->trigger(l, i); else api->trigger_all(l);
                w.trig = -2;
                for (int k = 0; k < w.n; k++)
                    SIM_CHECK(ctx, P1, w.w[k].calls == (o.kind == OW_TRIGALL || k == i), "trigger", "triggering %s ran the callback of watcher %d %d times",
                              o.kind == OW_TRIG ? "one" : "all", k, w.w[k].calls);
                break;
            default: break;
        }
    }
    // the writers stop: every noticed change is reported once its delay is over, then silence
    if (w.ordered) for (int i = 0; i < w.n; i++) w.w[i].act = 0;
    process();
    int64_t far = 0;
    for (int i = 0; i < w.n; i++) if (w.w[i].pending) far = std::max(far, w.w[i].at + w.w[i].delay - w.now);
    w.limit += api->bits == 64 ? (int64_t)1 << 37 : (int64_t)1 << 29;
    advance(far);
    process();
    advance(1);
    process();
}

// ------------------------------------------------------------------------------------- structure updates
enum { OU_RAW, OU_FIELD, OU_APPLY, OU_APPLYALL, OU_FREE, OU_CLOBBER };
enum { NT = 8, NB = 2 };
enum { FU_ALLOC };
enum { PU_REAPPLY, PU_ZERO, PU_FAILAPPLY, PU_FAILFREE, PU_OTHEROBJ, PU_BIG };
struct Tok {
    bool                 live = false, failed = false, field = false;
    size_t               off = 0, size = 0;
    std::vector<uint8_t> data;
    int                  which = 0;
    uint64_t             val = 0;
    int                  applied = 0;
    std::unique_ptr<uint8_t[]> m;
};
uint64_t g_failmask;
PerInstance pi_f(&g_failmask, sizeof g_failmask);
bool su_fail(uint64_t n, size_t) { return (g_failmask >> (n & 63)) & 1; }
void gen_u(Rng &r, Plan &p, int tier, const std::string &) {
    p.cfg = {(int64_t)(r.chance(0.6) ? 0 : r.next() & r.next() & (r.chance(0.5) ? r.next() : ~0ull)), r.chance(0.9) ? r.range(1, 60) : r.chance(0.9) ? r.range(61, 1200) : r.pick({4095, 4100, 9000, 33000, 66000, 140000}), r.pick({0, 255, 0xA5}), 0};
    int64_t len = p.cfg[1];
    int n = (int)r.range(4, tier ? 60 : 40);
    if (len > 2000) n = std::min(n, 15);
    for (int i = 0; i < n; i++) {
        int64_t t = r.range(0, NT - 1);
        switch (r.weighted({5, 5, 8, 2, 3, 1})) {
            case 0: p.ops.push_back(Op(OU_RAW, t, r.chance(0.2) ? r.range(0, 3) : r.range(0, len), r.chance(0.05) ? 0 : len > 2000 && r.chance(0.3) ? len - 3 : r.chance(0.5) && len > 60 ? r.range(len / 2, len) : r.range(1, len), r.range(0, 1 << 20))); break;
            case 1: p.ops.push_back(Op(OU_FIELD, t, r.range(0, 6), (int64_t)r.next())); break;
            case 2: p.ops.push_back(Op(OU_APPLY, t, r.range(0, NB - 1))); break;
            case 3: p.ops.push_back(Op(OU_APPLYALL, r.range(0, NB - 1))); break;
            case 4: p.ops.push_back(Op(OU_FREE, t)); break;
            default: p.ops.push_back(Op(OU_CLOBBER)); break;
        }
    }
}
void run_u(const Plan &p, Ctx &ctx, const data_api *api) {
    auto cfg = [&](int i) { return i < (int)p.cfg.size() ? p.cfg[(size_t)i] : 0; };
    const char *P = "D02";
    g_alloc.reset();
    g_failmask   = (uint64_t)cfg(0);
    g_alloc.fail = su_fail;
    struct Off { ~Off() { g_alloc.fail = nullptr; alloc_release_all(); } } off_;
    size_t len = (size_t)wrapi(cfg(1), 1, 150000);
    // raw objects and real structures
    std::unique_ptr<uint8_t[]> raw[NB], obj[NB];
    std::vector<uint8_t>       mraw[NB], mobj[NB];
    for (int i = 0; i < NB; i++) {
        raw[i].reset(new uint8_t[len]);
        obj[i].reset(new uint8_t[api->obj_size]);
        memset(raw[i].get(), (int)wrapi(cfg(2), 0, 255), len);
        memset(obj[i].get(), 0, api->obj_size);
        mraw[i].assign(raw[i].get(), raw[i].get() + len);
        mobj[i].assign(obj[i].get(), obj[i].get() + api->obj_size);
    }
    Tok tk[NT];
    auto drop = [&](Tok &t) {
        if (!t.live) return;
        if (t.failed) ctx.probe(PU_FAILFREE);
        progress();
        api->su_free(t.m.get());
        t.m.reset();
        t.live = false;
        SIM_CHECK(ctx, P, g_alloc.bad_frees == 0, "free", "freeing an update released memory that was not allocated for it");
    };
    auto compare = [&] {
        for (int i = 0; i < NB; i++) {
            SIM_CHECK(ctx, P, !memcmp(raw[i].get(), mraw[i].data(), len), "bytes", "block %d differs from the one written directly", i);
            SIM_CHECK(ctx, P, !memcmp(obj[i].get(), mobj[i].data(), api->obj_size), "fields", "structure %d differs from the one assigned directly", i);
        }
    };
    auto apply = [&](Tok &t, int b) {
        if (!t.live) return;
        if (t.applied++) ctx.probe(PU_REAPPLY);
        uint8_t             *dst  = t.field ? obj[b].get() : raw[b].get();
        std::vector<uint8_t> &m   = t.field ? mobj[b] : mraw[b];
        std::vector<uint8_t>  none = m;
        if (t.field) api->obj_set(m.data(), t.which, t.val);
        else std::copy(t.data.begin(), t.data.end(), m.begin() + (long)t.off);
        progress();
        api->su_apply(dst, t.m.get());
        if (t.failed) {      // all or nothing
            ctx.probe(PU_FAILAPPLY);
            if (!memcmp(dst, none.data(), m.size())) m = none;
        }
        ctx.ev("apply", &t - tk, b, t.failed);
        compare();
    };
    for (auto &o : p.ops) {
        Tok &t = tk[wrapi(o.a[0], 0, NT - 1)];
        switch (o.kind) {
            case OU_RAW:
            case OU_FIELD: {
                drop(t);
                t = Tok();
                t.m.reset(new uint8_t[api->token_size]);
                uint64_t before = g_alloc.failed;
                if (o.kind == OU_RAW) {
                    t.off  = (size_t)wrapi(o.a[1], 0, (int64_t)len - 1);
                    t.size = (size_t)wrapi(o.a[2], 0, (int64_t)(len - t.off));
                    if (!t.size) ctx.probe(PU_ZERO);
                    if (t.size > 32) ctx.probe(PU_BIG);
                    std::unique_ptr<uint8_t[]> src(new uint8_t[t.size ? t.size : 1]);
                    for (size_t k = 0; k < t.size; k++) src[k] = (uint8_t)(o.a[3] + (int64_t)(k * 7));
                    t.data.assign(src.get(), src.get() + t.size);
                    progress();
                    api->su_make(t.m.get(), t.off, src.get(), t.size);
                    SIM_CHECK(ctx, P, !memcmp(src.get(), t.data.data(), t.size), "source", "creating an update modified its source");
                    memset(src.get(), 0xDD, t.size);      // the source may change or go away afterwards
                } else {
                    t.field = true;
                    t.which = (int)wrapi(o.a[1], 0, 6);
                    t.val   = (uint64_t)o.a[2];
                    progress();
                    api->su_field(t.m.get(), obj[0].get(), t.which, t.val);
                }
                t.live   = true;
                t.failed = g_alloc.failed != before;
                if (t.failed) { ctx.fault(FU_ALLOC); ctx.nontrivial = true; }
                ctx.ev("make", o.kind, &t - tk, (int64_t)t.size, t.failed);
                compare();
                break;
            }
            case OU_APPLY: { int b = (int)wrapi(o.a[1], 0, NB - 1); if (b) ctx.probe(PU_OTHEROBJ); apply(t, b); break; }
            case OU_APPLYALL: for (auto &x : tk) apply(x, (int)wrapi(o.a[0], 0, NB - 1)); break;
            case OU_FREE: drop(t); ctx.ev("free", &t - tk); break;
            case OU_CLOBBER: for (int i = 0; i < NB; i++) { memset(raw[i].get(), 0x3C, len); mraw[i].assign(len, 0x3C); } break;
            default: break;
        }
        uint64_t fp = 0;
        for (auto &x : tk) fp = fp * 13 + (uint64_t)(x.live ? 1 + x.failed * 2 + x.field * 4 + (x.applied > 0) * 6 : 0);
        ctx.state(fp);
    }
    for (auto &t : tk) drop(t);
    SIM_CHECK(ctx, P, g_alloc.live == 0, "leak", "%lld blocks are still allocated after every update was freed", (long long)g_alloc.live);
}

Scenario mkw(const char *name, const data_api *api) {
    Scenario s;
    s.name  = name;
    s.props = {"D01"};
    s.cfg_names = {"watchers", "tick-base-lo", "tick-base-hi"};
    for (int i = 0; i < TEMPL; i++) { s.cfg_names.push_back("size"); s.cfg_names.push_back("delay"); s.cfg_names.push_back("reaction"); }
    s.op_names    = {"write", "poke", "revert", "advance", "advance-to-due", "clock-back", "process", "main-loop", "check", "clear", "trigger", "trigger-all"};
    s.fault_names = {"clock stepped back", "tick wrapped around", "main loop stalled", "change undone before it was seen"};
    s.probe_names = {"immediate report", "delayed report", "changed again while pending", "processed exactly at the end of the delay", "processed late", "cleared while pending",
                     "callback changed another block", "several reports in one pass", "only the last byte changed", "block of more than 255 bytes", "list of more than 200 watchers"};
    s.rule = "a case is one seed: one to six (rarely hundreds of) watched blocks of 1 to 1000 bytes, delays of 0 to 2^28 ticks and a history of writes, clock movements and processing calls; non-trivial when the "
             "tick wrapped or stepped back or a change was undone unseen";
    s.state_measure   = "pending, reported and waiting magnitude of every watcher";
    s.real_components = {std::string("gel/data_structures/watcher.c, gel/timer/timecheck.h (clang -O1, AddressSanitizer, ") + (api->dynamic ? "dynamic" : api->max_delay < 65536 ? "packed static" : "static") + " blocks, " +
                         (api->bits == 64 ? "64" : "32") + "-bit unsigned long)"};
    s.stub_components = {"the tick", "the tasks writing the watched memory and the main loop", "allocator (counting, never failing here)"};
    s.twin = true;
    s.edge_budget = 20000000;
    s.gen = gen_w;
    s.run = [=](const Plan &p, Ctx &c) { run_w(p, c, api); };
    return s;
}
Scenario mku(const char *name, const data_api *api) {
    Scenario s;
    s.name  = name;
    s.props = {"D02"};
    s.cfg_names   = {"failing-allocations", "block-length", "dirty", "-"};
    s.op_names    = {"make-raw", "make-field", "apply", "apply-all", "free", "overwrite"};
    s.fault_names = {"allocation failed"};
    s.probe_names = {"applied again", "empty update", "failed update applied", "failed update freed", "applied to another object", "large update"};
    s.rule = "a case is one seed: up to eight live updates on two blocks and two structures, with a mask of failing allocations; non-trivial when an allocation failed";
    s.state_measure   = "life cycle of every update";
    s.real_components = {"gel/data_structures/struct_update.c, struct_update.h macros (clang -O1, AddressSanitizer)"};
    s.stub_components = {"allocator (seeded failures, double and foreign free detection)"};
    s.twin = true;
    s.edge_budget = 20000000;
    s.gen = gen_u;
    s.run = [=](const Plan &p, Ctx &c) { run_u(p, c, api); };
    return s;
}
Registrar r0(mkw("watchers_static", &data_static)), r1(mkw("watchers_32bit", &data_32)), r2(mkw("watchers_malloc", &data_malloc)), r4(mkw("watchers_packed", &data_packed)), r5(mkw("watchers_packed_malloc", &data_packed_malloc)), r3(mku("struct_updates", &data_static));
BudgetReg br({{"D01", 2000000, 80000000}, {"D02", 1500000, 70000000}});
}
