// Weekly scheduler on a simulated real-time clock (S01) and a schedule saved in wear-levelled storage (S02).
#include <algorithm>
#include <array>
#include <memory>
#include <set>
#include "sim.h"
#include "sched_api.h"
using namespace sim;

namespace {
constexpr int     NMAX = 300;
const sched_api *const API[] = {&sched_7, &sched_1, &sched_16, &sched_300};
constexpr int64_t DAY = 86400, WEEK = 7 * DAY;
enum { OS_SET, OS_DISABLE, OS_MUT, OS_INIT, OS_ADV, OS_JUMP, OS_EDGE, OS_NEXT, OS_OVERLAP, OS_SAVE, OS_RESTART, OS_ROT, OS_FILL };
enum { C_T0, C_DIRTY, C_BLOCKS, C_BUILD, C_CNT };
enum { F_JUMP, F_BACK, F_MIDNIGHT, F_CUTDATA, F_CUTCOMMIT, F_CUTDONE, F_ROT, F_EWRITE };
enum { P_TIE, P_TIEVAL, P_NIGHT, P_EARLY, P_EDGE, P_NONE, P_MULTI, P_LOSTROT, P_TORN };

struct E {
    int64_t en = 0, days = 0, start = 0, end = 0, value = 0;
    bool operator==(const E &o) const { return en == o.en && days == o.days && start == o.start && end == o.end && value == o.value; }
};
using Tab = std::vector<E>;
int popc7(int64_t d) { return __builtin_popcount((unsigned)d & 0x7F); }
bool night(const E &e) { return e.end > DAY; }
int64_t dur(const E &e) { return e.start < e.end ? e.end - e.start : e.start - e.end; }
// seconds since Sunday midnight -> is the entry in force; amb: the answer depends on which of the two days "owns" the night
bool active(const E &e, int64_t t, bool *amb) {
    int     wd = (int)(t / DAY), yd = (wd + 6) % 7;
    int64_t s  = t % DAY;
    if (night(e) && e.end - DAY > e.start && amb) *amb = true;      // longer than a day: no meaning claimed
    if (s >= e.start && s < (e.end > DAY ? DAY : e.end)) {
        if (e.days >> wd & 1) return true;
    }
    if (night(e) && s < e.end - DAY) {
        bool a = e.days >> wd & 1, b = e.days >> yd & 1;
        if (a != b && amb) *amb = true;
        return a;
    }
    return false;
}

E gen_entry(Rng &r, bool grid, bool wide = false) {
    E e;
    e.en   = r.chance(0.85);
    e.days = r.chance(0.4) ? 0x7F : r.chance(0.5) ? r.pick({0x3E, 0x41, 0x01, 0x40, 0x03}) : r.range(0, 0x7F);
    auto t = [&]() -> int64_t { return grid ? r.range(0, 8) * 3 * 3600 : r.chance(0.3) ? r.pick({0, 1, 3600, 43200, 86399, 86400}) : r.range(0, DAY); };
    e.start = t();
    e.end   = t();
    if (e.start > e.end && r.chance(0.85)) std::swap(e.start, e.end);
    if (e.start >= DAY) e.start = DAY - 1;
    if (r.chance(0.2)) {                                  // past midnight
        e.end  = DAY + r.range(1, std::max<int64_t>(1, grid ? (e.start / 10800) * 10800 : e.start));
        if (e.end - DAY > e.start) e.end = DAY;
        if (r.chance(0.75)) e.days = 0x7F;
    }
    if (wide && r.chance(0.06)) { e.end = r.range(DAY, 2 * DAY); if (r.chance(0.5)) e.start = 0; }
    e.value = r.chance(0.5) ? r.range(0, 4) : r.range(0, 255);
    return e;
}
void gen(Rng &r, Plan &p, int tier, const std::string &prop) {
    bool s2 = prop == "S02", grid = r.chance(0.5);
    p.cfg   = {r.range(0, WEEK - 1), r.pick({0, 255, 0xA5}), r.range(2, 6), r.weighted({60, 4, 33, 3})};
    int N   = API[p.cfg[C_BUILD]]->n;
    int n   = (int)r.range(6, tier ? 60 : 40);
    int REC = N * (int)API[p.cfg[C_BUILD]]->ser_size + 2;
    bool tail = N > 16 && r.chance(0.6);        // work at the far end of a long table
    auto slot = [&]() -> int64_t { return tail && r.chance(0.8) ? r.range(250, N - 1) : r.range(0, N - 1); };
    auto far = [&]() -> int64_t { return r.pick<int64_t>({N, N + 1, -1, 256 * r.range(2, 20) + r.range(0, N - 1), 65536 + r.range(0, N - 1), ((int64_t)1 << 32) + r.range(0, N - 1)}); };
    for (int i = 0; i < n; i++) {
        switch (r.weighted({10, 1, 2, s2 ? 1 : 0, 5, 2, 8, 1, 1, s2 ? 6 : 0, s2 ? 4 : 0, s2 ? 2 : 0, 1})) {
            case 0: {
                E e = gen_entry(r, grid, s2);
                int64_t idx = r.chance(0.95) ? slot() : far();
                p.ops.push_back(Op(OS_SET, idx, e.en, e.days, e.start, e.end, e.value));
                break;
            }
            case 1: p.ops.push_back(Op(OS_DISABLE, r.chance(0.15) ? far() : slot())); break;
            case 2: p.ops.push_back(Op(OS_MUT, slot(), r.range(0, 2), r.range(0, 255))); break;
            case 3: p.ops.push_back(Op(OS_INIT)); break;
            case 4: p.ops.push_back(Op(OS_ADV, r.chance(0.5) ? r.range(1, 600) : r.chance(0.7) ? r.range(600, 30000) : r.range(1, WEEK))); break;
            case 5: p.ops.push_back(Op(OS_JUMP, r.chance(0.3) ? r.range(0, 6) * DAY + r.pick({0, 1, 86399}) : r.range(0, WEEK - 1))); break;
            case 6: p.ops.push_back(Op(OS_EDGE, slot(), r.range(0, 1), r.range(-1, 1), r.range(0, 6))); break;
            case 7: p.ops.push_back(Op(OS_NEXT, r.chance(0.15) ? far() : r.chance(0.5) ? r.range(0, N + 1) : slot())); break;
            case 8: {
                E e = gen_entry(r, grid);
                p.ops.push_back(Op(OS_OVERLAP, 0, e.en, e.days, e.start, e.end, e.value));
                break;
            }
            case 9: p.ops.push_back(Op(OS_SAVE, r.chance(0.3) ? r.range(1, 2) : 0, r.chance(0.5) ? r.range(0, REC) : r.range(REC, REC + 2))); break;
            case 10: p.ops.push_back(Op(OS_RESTART)); break;
            case 12: {
                E e = gen_entry(r, grid, s2);
                p.ops.push_back(Op(OS_FILL, r.chance(0.5) ? 0 : slot(), r.chance(0.9), e.days, e.start, e.end, r.chance(0.5) ? N : r.range(1, N)));
                break;
            }
            default: p.ops.push_back(Op(OS_ROT, r.range(0, REC * 8 - 1), r.range(1, 65535))); break;
        }
    }
    if (s2) { p.ops.push_back(Op(OS_SAVE, 0, 0)); p.ops.push_back(Op(OS_RESTART)); }
}

// ------------------------------------------------------------------------------------------------ storage
struct PowerCut {};
struct Flash {
    Ctx    *ctx;
    size_t  n = 2, last = 0, REC = 0;
    std::vector<uint8_t> data[8];
    uint8_t marker[8];
    int     fault = 0;
    size_t  at    = 0;
    bool    bad = false, fired = false;
};
Flash *g_fl;
PerInstance pi_fl(&g_fl, sizeof g_fl);
int rd(size_t b, uint8_t *buf, size_t len) {
    progress();
    if (b >= g_fl->n || len > g_fl->REC) { g_fl->bad = true; return -1; }
    memcpy(buf, g_fl->data[b].data(), len);
    g_fl->last = b;
    progress();
    return 0;
}
int rm(size_t b, uint8_t *m) {
    progress();
    if (b >= g_fl->n) { g_fl->bad = true; return -1; }
    *m = g_fl->marker[b];
    progress();
    return 0;
}
int wr(size_t b, uint8_t m, uint8_t *buf, size_t len) {
    progress();
    Flash &f = *g_fl;
    if (b >= f.n || len > f.REC) { f.bad = true; return -1; }
    if (f.fault == 2) { f.fired = true; f.ctx->fault(F_EWRITE); return -3; }
    if (f.fault == 1) {
        size_t k = f.at;
        memcpy(f.data[b].data(), buf, std::min(k, len));
        if (k > len) f.marker[b] = m;
        f.fired = true;
        f.ctx->fault(k < len ? F_CUTDATA : k == len ? F_CUTCOMMIT : F_CUTDONE);
        throw PowerCut();
    }
    memcpy(f.data[b].data(), buf, len);
    f.marker[b] = m;
    f.last = b;
    return 0;
}

void run(const Plan &p, Ctx &ctx) {
    auto cfg = [&](int i, int64_t lo, int64_t hi) { return wrapi(i < (int)p.cfg.size() ? p.cfg[(size_t)i] : lo, lo, hi); };
    bool s1 = ctx.on("S01"), s2 = ctx.on("S02");
    int  dirty = (int)cfg(C_DIRTY, 0, 255);
    const sched_api &A = *API[cfg(C_BUILD, 0, 3)];
    const int    N   = A.n;
    const size_t REC = A.ser_size * (size_t)N + 2;
    // on the heap: AddressSanitizer guards its ends
    std::unique_ptr<void, void (*)(void *)> sch(malloc(A.size), free), wl(malloc(A.wl_size), free);
    memset(sch.get(), dirty, A.size);
    memset(wl.get(), dirty, A.wl_size);
    const Tab empty((size_t)N);
    Tab     m = empty;
    int64_t t = cfg(C_T0, 0, WEEK - 1);
    progress();
    A.init(sch.get());

    auto tmof = [&](int64_t w) {
        struct tm x;
        memset(&x, 0x11, sizeof x);
        x.tm_wday = (int)(w / DAY);
        x.tm_hour = (int)(w % DAY / 3600);
        x.tm_min  = (int)(w % 3600 / 60);
        x.tm_sec  = (int)(w % 60);
        return x;
    };
    auto same = [&](const sched_entry &e, const E &w) { return e.en == (w.en != 0) && e.days == w.days && e.start == w.start && e.end == w.end && e.value == w.value; };
    auto plain = [](const E &w) { return sched_entry{w.en, w.days, w.start, w.end, w.value}; };
    auto table = [&](const char *P) {
        for (int i = 0; i < N; i++) {
            progress();
            sched_entry e{};
            int there = A.get(sch.get(), (size_t)i, &e);
            if (!ctx.on(P)) continue;
            if (!there || !same(e, m[(size_t)i])) ctx.fail("entry", "entry %d is not the one stored in it", i);
        }
    };
    auto query = [&](int64_t w, const char *P) {
        bool any_amb = false, act[NMAX];
        int  best = -1, multi = 0;
        for (int i = 0; i < N; i++) {
            const E &e  = m[(size_t)i];
            bool     amb = false;
            act[i] = active(e, w, &amb);
            if (e.en && amb) any_amb = true;
            if (!e.en || !act[i]) continue;
            multi++;
            if (night(e)) { ctx.probe(P_NIGHT); if (w % DAY < e.start) ctx.probe(P_EARLY); }
            if (best < 0) { best = i; continue; }
            const E &b = m[(size_t)best];
            int64_t te = dur(e) * popc7(e.days), tb = dur(b) * popc7(b.days);
            if (te == tb) { ctx.probe(P_TIE); if (e.value == b.value) ctx.probe(P_TIEVAL); }
            if (te < tb || (te == tb && e.value > b.value)) best = i;
        }
        struct tm x = tmof(w), keep = x;
        progress();
        int id = A.active(sch.get(), &x);
        int is = A.is_active(sch.get(), &x), v = -12345;
        int cv = A.current(sch.get(), &x, &v), cv0 = A.current(sch.get(), &x, nullptr);
        unsigned map = N <= 16 ? A.map(sch.get(), &x) : 0x10000u;
        int64_t crem = A.cur_remaining(sch.get(), &x);
        bool has_current = cv >= 0, has_map = map < 0x10000u, has_remaining = true;
        ctx.ev("active", w, id, v, crem);
        ctx.state((uint64_t)(unsigned)(id + 1) << 8 | (uint64_t)multi << 4 | (uint64_t)(w / 10800));
        if (multi > 1) { ctx.probe(P_MULTI); ctx.nontrivial = true; }
        if (multi == 0) ctx.probe(P_NONE);
        if (!ctx.on(P) || any_amb) return;
        auto at = [&] { static thread_local char b[64]; snprintf(b, sizeof b, "weekday %d %02d:%02d:%02d", keep.tm_wday, keep.tm_hour, keep.tm_min, keep.tm_sec); return b; };
        if (id != best) ctx.fail("selection", "at %s entry %d is in force instead of %d", at(), id, best);
        if (is >= 0 && (is != 0) != (best >= 0)) ctx.fail("active", "at %s is_active says %d", at(), is);
        if (has_current) {
            if ((cv != 0) != (best >= 0) || cv0 != cv) ctx.fail("current-value", "at %s current_value returned %d/%d", at(), cv, cv0);
            if (best >= 0 && v != (int)m[(size_t)best].value) ctx.fail("current-value", "at %s the value %d is given instead of %lld", at(), v, (long long)m[(size_t)best].value);
            if (best < 0 && v != -12345) ctx.fail("current-value", "at %s no entry is in force but the value was changed", at());
        }
        auto left = [&](int i) -> int64_t {
            const E &e = m[(size_t)i];
            if (!act[i]) return 0;
            int64_t s = w % DAY;
            return night(e) && s < e.end - DAY ? e.end - DAY - s : e.end - s;
        };
        if (has_map) for (int i = 0; i < N; i++)
            if (m[(size_t)i].en && (map >> i & 1) != (unsigned)act[i]) ctx.fail("map", "at %s the map has %u for entry %d", at(), map >> i & 1, i);
        if (crem != -1 && crem != (best >= 0 ? left(best) : 0))
            ctx.fail("remaining", "at %s %lld s are said to remain of entry %d instead of %lld", at(), (long long)crem, best, (long long)(best >= 0 ? left(best) : 0));
        for (int i = 0; i < N; i++) {
            const E &e = m[(size_t)i];
            if (!e.en) continue;
            int64_t r = A.remaining(sch.get(), (size_t)i, &x);
            if (r == -1) { has_remaining = false; break; }
            if (r != left(i)) ctx.fail("remaining", "at %s %lld s are said to remain of entry %d instead of %lld", at(), (long long)r, i, (long long)left(i));
        }
        if (has_remaining) for (size_t none : {(size_t)N, (size_t)65536, (size_t)1 << 32, (size_t)-1}) if (A.remaining(sch.get(), none, &x) > 0) ctx.fail("remaining", "an entry that does not exist has time left");
    };
    auto settime = [&](int64_t w) {
        w = ((w % WEEK) + WEEK) % WEEK;
        if (w / DAY != t / DAY) ctx.fault(F_MIDNIGHT);
        t = w;
        ctx.ev("time", t);
    };

    // ---- storage (S02)
    auto fl = std::make_unique<Flash>();
    std::set<std::vector<uint8_t>> maybe;
    Tab  saved = empty;
    std::vector<Tab> inflight;
    bool rotted = false, have = false;
    auto pack = [&](std::vector<uint8_t> &rec) {
        rec.assign(REC + 8, 0xEE);
        size_t k = 0;
        for (int i = 0; i < N; i++) {
            size_t q = A.serialize(&rec[k], sch.get(), (size_t)i);
            if (q != A.ser_size) { SIM_CHECK(ctx, "S02", 0, "size", "serializing an entry reported %zu bytes", q); q = A.ser_size; }
            k += q;
        }
        k += A.put16(&rec[k], A.crc(rec.data(), k, 0xFFFF));
        if (s2) for (size_t j = REC; j < rec.size(); j++) if (rec[j] != 0xEE) ctx.fail("overrun", "serializing wrote past the end of the record");
        rec.resize(REC);
    };
    if (s2) {
        g_fl = fl.get();
        fl->ctx = &ctx;
        fl->REC = REC;
        fl->n   = (size_t)cfg(C_BLOCKS, 2, 6);
        for (auto &d : fl->data) d.assign(REC, 0xFF);
        memset(fl->marker, 0xFF, sizeof fl->marker);
        (void)A.wl_init(wl.get(), rd, wr, rm, fl->n);
    }
    auto blockcheck = [&] { if (s2 && fl->bad) ctx.fail("bad-block", "the store asked for a block that does not exist"); };
    // the application's start-up: read the record, verify it, load it; a bad record means a fresh schedule
    auto restart = [&] {
        memset(sch.get(), dirty ^ 0x5A, A.size);
        memset(wl.get(), dirty, A.wl_size);
        progress();
        (void)A.wl_init(wl.get(), rd, wr, rm, fl->n);
        A.init(sch.get());
        std::vector<uint8_t> rec(REC);
        int r = A.wl_read(wl.get(), rec.data(), REC);
        blockcheck();
        uint16_t crc = 0;
        A.take16(&crc, &rec[REC - 2]);
        bool good = r == 0 && A.crc(rec.data(), REC - 2, 0xFFFF) == crc;
        ctx.ev("restart", r, good);
        Tab got = empty;
        if (good) {
            size_t k = 0;
            for (int i = 0; i < N; i++) {
                sched_entry e{};
                int    sr = 0;
                size_t q  = A.deserialize(&e, &rec[k], sch.get(), (size_t)i, &sr);
                if (q != A.ser_size) { SIM_CHECK(ctx, "S02", 0, "size", "deserializing an entry reported %zu bytes", q); q = A.ser_size; }
                k += q;
                SIM_CHECK(ctx, "S02", sr == 0, "return", "setting entry %d returned %d", i, sr);
                got[(size_t)i] = {e.en, e.days, e.start, e.end, e.value};
            }
        }
        if (!have && !good) { m = empty; inflight.clear(); saved = m; return; }
        bool ok = have && got == saved && good, fly = false;
        for (auto &c : inflight) if (good && got == c) fly = true;
        if (rotted) {
            // damage in the block that was read must be noticed; what was in flight may still surface intact
            if (!good) { ctx.probe(P_LOSTROT); have = false; m = empty; saved = m; }
            else if (ok || fly) { saved = got; m = got; have = true; }
            else ctx.fail("corrupt-schedule", "a damaged record was loaded as a schedule");
        } else {
            if (!ok && !fly) ctx.fail("lost-schedule", "after the restart the schedule is neither the last saved one nor the one being saved (record %s)", good ? "valid" : "invalid");
            saved = got;
            m     = got;
            have  = true;
        }
        inflight.clear();
        rotted = false;
        table("S02");
        for (int i = 0; i < N; i++) {       // same behaviour at every boundary of every entry
            if (!m[(size_t)i].en || (N > 16 && i % 37 && i != N - 1)) continue;
            for (int64_t d = 0; d < 7; d += 3)
                for (int64_t k : {m[(size_t)i].start, m[(size_t)i].end % DAY}) query((d * DAY + k) % WEEK, "S02");
        }
    };

    for (auto &o : p.ops) {
        ctx.advance(1000000);
        switch (o.kind) {
            case OS_SET:
            case OS_OVERLAP: {
                E w{wrapi(o.a[1], 0, 1), wrapi(o.a[2], 0, 0x7F), wrapi(o.a[3], 0, DAY - 1), wrapi(o.a[4], 0, 2 * DAY), wrapi(o.a[5], 0, 255)};
                if (!s2 && w.end > DAY && w.end - DAY > w.start) w.end = DAY + w.start;
                sched_entry e = plain(w);
                progress();
                if (o.kind == OS_OVERLAP) {
                    size_t lo = 0, hi = 0;
                    for (auto &q : m) {
                        if (!q.en || !(q.days & w.days)) continue;
                        bool odd = night(q) || night(w) || q.start >= q.end || w.start >= w.end;
                        bool strict = q.start < w.end && w.start < q.end, touch = q.start <= w.end && w.start <= q.end;
                        if (odd) hi++;
                        else { lo += strict; hi += touch; }
                    }
                    size_t n = A.overlapping(sch.get(), &e);
                    ctx.ev("overlap", (int64_t)n, (int64_t)lo, (int64_t)hi);
                    SIM_CHECK(ctx, "S01", n >= lo && n <= hi, "overlap", "%zu overlapping entries reported, between %zu and %zu do", n, lo, hi);
                    int64_t du = A.duration(&e);
                    if (w.start <= w.end) SIM_CHECK(ctx, "S01", du == dur(w), "duration", "duration %lld instead of %lld", (long long)du, (long long)dur(w));
                    break;
                }
                size_t idx = o.a[0] < 0 ? (size_t)-1 : (size_t)o.a[0];
                int    r   = A.set(sch.get(), idx, &e);
                ctx.ev("set", (int64_t)idx, r);
                bool in = idx < (size_t)N;
                if ((s1 || s2) && (r == 0) != in) ctx.fail("return", "setting entry %lld returned %d", (long long)o.a[0], r);
                if (in) m[idx] = w;
                if (!in) (void)A.enabled(sch.get(), idx);      // must not reach outside the table
                if (!in) SIM_CHECK(ctx, "S01", !A.get(sch.get(), idx, &e) && !A.get_mut(sch.get(), idx, -1, 0), "range", "an entry out of range exists");
                break;
            }
            case OS_FILL: {               // a run of entries set in one go: full tables
                int64_t from = wrapi(o.a[0], 0, N - 1), cnt = wrapi(o.a[5], 1, N);
                for (int64_t i = from; i < N && i < from + cnt; i++) {
                    E w{wrapi(o.a[1], 0, 1), wrapi(o.a[2] + i % 3, 0, 0x7F), wrapi(o.a[3] + i * 60, 0, DAY - 1), wrapi(o.a[4] + i * 30, 0, DAY), i & 255};
                    sched_entry e = plain(w);
                    progress();
                    int r = A.set(sch.get(), (size_t)i, &e);
                    if ((s1 || s2) && r != 0) ctx.fail("return", "setting entry %lld returned %d", (long long)i, r);
                    m[(size_t)i] = w;
                }
                ctx.ev("fill", from, cnt);
                break;
            }
            case OS_DISABLE: {
                size_t idx = o.a[0] < 0 ? (size_t)-1 : (size_t)o.a[0];
                progress();
                int r = A.disable(sch.get(), idx);
                ctx.ev("disable", (int64_t)idx, r);
                SIM_CHECK(ctx, "S01", (r == 0) == (idx < (size_t)N), "return", "disabling entry %zu returned %d", idx, r);
                if (idx < (size_t)N) m[idx].en = 0;
                break;
            }
            case OS_MUT: {
                size_t idx = (size_t)wrapi(o.a[0], 0, N - 1);
                progress();
                int     field = (int)wrapi(o.a[1], 0, 2);
                int64_t nv    = field == 0 ? (o.a[2] & 1) : field == 1 ? wrapi(o.a[2], 0, 255) : wrapi(o.a[2], 0, 127);
                int     there = A.get_mut(sch.get(), idx, field, nv);
                SIM_CHECK(ctx, "S01", there, "range", "entry %zu is not there", idx);
                if (!there) break;
                (field == 0 ? m[idx].en : field == 1 ? m[idx].value : m[idx].days) = nv;
                break;
            }
            case OS_INIT: progress(); A.init(sch.get()); m = empty; break;
            case OS_ADV: { int64_t d = clampi(o.a[0], 0, WEEK); settime(t + d); ctx.advance((uint64_t)d * 1000000); if (d > DAY) ctx.fault(F_JUMP); break; }
            case OS_JUMP: { int64_t w = wrapi(o.a[0], 0, WEEK - 1); ctx.fault(w < t ? F_BACK : F_JUMP); ctx.nontrivial = true; settime(w); break; }
            case OS_EDGE: {
                const E &e = m[(size_t)wrapi(o.a[0], 0, N - 1)];
                ctx.probe(P_EDGE);
                settime(wrapi(o.a[3], 0, 6) * DAY + ((o.a[1] & 1) ? e.end : e.start) % DAY + clampi(o.a[2], -1, 1));
                break;
            }
            case OS_NEXT: {
                size_t st = o.a[0] < 0 ? (size_t)-1 : (size_t)o.a[0];
                int    wn = -1, wf = -1;
                for (int i = N - 1; i >= 0; i--) {
                    if (m[(size_t)i].en && (size_t)i >= st) wn = i;
                    if (!m[(size_t)i].en) wf = i;
                }
                progress();
                int r = A.next(sch.get(), st);
                if (r != -2) { ctx.ev("next", r); SIM_CHECK(ctx, "S01", r == wn, "next-enabled", "the first enabled entry from %zu is %d, not %d", st, wn, r); }
                r = A.first_free(sch.get());
                if (r != -2) { ctx.ev("free", r); SIM_CHECK(ctx, "S01", r == wf, "first-free", "the first free entry is %d, not %d", wf, r); }
                size_t mx = A.max(sch.get());
                if (mx != (size_t)-1) SIM_CHECK(ctx, "S01", mx == (size_t)N, "max", "%zu entries reported", mx);
                (void)A.enabled(sch.get(), (size_t)N);
                for (int i = 0; i < N; i++)
                    SIM_CHECK(ctx, "S01", (A.enabled(sch.get(), (size_t)i) != 0) == (m[(size_t)i].en != 0), "enabled", "entry %d enabled wrongly reported", i);
                break;
            }
            case OS_SAVE: {
                if (!s2) break;
                std::vector<uint8_t> rec;
                progress();
                pack(rec);
                fl->fault = (int)wrapi(o.a[0], 0, 2);
                fl->at    = (size_t)wrapi(o.a[1], 0, (int64_t)REC + 1);
                fl->fired = false;
                bool cut  = false;
                int  r    = 0;
                try { r = A.wl_write(wl.get(), rec.data(), REC); } catch (PowerCut &) { cut = true; }
                fl->fault = 0;
                blockcheck();
                ctx.ev("save", r, cut, fl->fired);
                if (cut) {
                    ctx.nontrivial = true;
                    ctx.probe(P_TORN);
                    inflight.push_back(m);
                    restart();
                } else if (fl->fired) {
                    ctx.nontrivial = true;
                    if (r == 0) ctx.fail("unreported", "a failed save was reported as good");
                } else {
                    if (r) ctx.fail("false-error", "a save failed with %d without any device error", r);
                    saved  = m;
                    have   = true;
                    rotted = false;       // a fresh block (an unchanged record is compared with the damaged one and rewritten)
                }
                break;
            }
            case OS_RESTART: if (s2) restart(); break;
            case OS_ROT: {                // a burst of at most 16 bits flips in the block that will be read
                if (!s2 || !have || rotted) break;
                uint8_t tmp;
                (void)A.wl_read(wl.get(), &tmp, 1);      // g_fl->last: the active block
                blockcheck();
                size_t bit = (size_t)wrapi(o.a[0], 0, (int64_t)REC * 8 - 1);
                uint32_t pat = (uint32_t)wrapi(o.a[1], 1, 65535);
                for (int i = 0; i < 16; i++)
                    if (pat >> i & 1 && bit + (size_t)i < REC * 8) fl->data[fl->last][(bit + (size_t)i) / 8] ^= (uint8_t)(0x80 >> ((bit + (size_t)i) % 8));
                bool any = false;
                for (int i = 0; i < 16; i++) if (pat >> i & 1 && bit + (size_t)i < REC * 8) any = true;
                if (!any) break;
                ctx.fault(F_ROT);
                ctx.nontrivial = true;
                rotted = true;
                ctx.ev("rot", (int64_t)bit, pat);
                break;
            }
            default: break;
        }
        if (s1) table("S01");
        if (s1 || o.kind != OS_ROT) query(t, s1 ? "S01" : "S02");
    }
}

Scenario sc() {
    Scenario s;
    s.name = "weekly_scheduler";
    s.props = {"S01", "S02"};
    s.cfg_names = {"start_time", "dirty", "blocks", "build"};
    s.op_names = {"set-entry", "disable", "edit-entry", "init", "advance", "clock-jump", "go-to-edge", "next-enabled", "overlap", "save", "restart", "bit-rot", "fill"};
    s.fault_names = {"clock jump forward", "clock set back", "midnight crossed", "power cut inside the record", "power cut between record and marker",
                     "power cut before the acknowledgement", "burst of flipped bits in the stored record", "device write error"};
    s.probe_names = {"tie on weekly time span", "tie on time span and value", "past-midnight entry in force", "past-midnight entry after midnight", "instant at the edge of an entry",
                     "no entry in force", "several entries in force", "damaged record rejected", "save interrupted"};
    s.rule = "a case is one seed: a table of entries being edited while the real-time clock runs, jumps and crosses midnight and week ends (S02: saved, cut, damaged and reloaded); "
             "non-trivial when entries compete, the clock jumps or a fault fires";
    s.state_measure = "entry in force x number of competing entries x three-hour slot of the week";
    s.real_components = {"gel/scheduler/scheduler.c", "gel/wearleveling/wearleveling.c and gel/crc/crc16-ccitt.c (S02)", "gel/serializer/serializer.h", "builds with tables of 7 (default), 1, 16 (NDEBUG, 32-bit long) and 300 entries (AddressSanitizer)"};
    s.stub_components = {"real-time clock (struct tm)", "block device (S02)"};
    s.twin = true;
    s.twin_cfg = {C_BUILD};
    s.edge_budget = 20000000;
    s.long_ops = 20000;
    s.gen = gen;
    s.run = run;
    return s;
}
Registrar r1(sc());
BudgetReg b({{"S01", 1500000, 50000000}, {"S02", 1500000, 22000000}});
}   // namespace
