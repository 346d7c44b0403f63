// Wear-levelled storage on simulated block devices with power cuts and device errors (W01-W03), and the
// circular event log on simulated storage with failing saves and loads (E01-E02).
#include <algorithm>
#include <set>
#include "sim.h"
extern "C" {
#include "gel/wearleveling/wearleveling.h"
#include "gel/circular_event_log/circular_event_log.h"
}
using namespace sim;

namespace {
struct PowerCut {};
// what a failing device answers: drivers have codes of every size, and a low byte or word of zero is not a success
int code(int64_t at, int common) {
    static const int c[] = {256, 65536, -256, -65536, 128, -2147483647 - 1, 0x1000000, -129, 32768, 255};
    return at % 3 ? common : c[(size_t)wrapi(at / 3, 0, 9)];
}

// ======================================================================================== wear levelling
enum { OW_WRITE, OW_REWRITE, OW_OLD, OW_READ, OW_RESTART, OW_BURST, OW_TWEAK };
enum { CW_ND, CW_N0, CW_LEN0, CW_ERASE0, CW_N1, CW_LEN1, CW_ERASE1, CW_DIRTY, CW_CNT };
// a write's fault argument: 0 none, 1 power cut, 2 error before, 3 error after a part, 4 error reported but all written,
// 5 read error in the preceding read
enum { FK_NONE, FK_CUT, FK_EBEFORE, FK_EPART, FK_LIE, FK_EREAD, FK_N };
enum { FW_CUTDATA, FW_CUTCOMMIT, FW_CUTDONE, FW_EBEFORE, FW_EPART, FW_LIE, FW_EREAD, FW_EINIT, FW_ERD };
enum { PW_LAPS, PW_MARKERWRAP, PW_LASTBLOCK, PW_DEDUPE, PW_CUTLAST, PW_FAILRETRY, PW_N1 };

struct Dev {
    int                               id = 0;
    size_t                            n = 2, len = 4;
    std::vector<std::vector<uint8_t>> data;
    std::vector<uint8_t>              marker;
    std::vector<uint64_t>             window;        // device writes per block since the last fault
    uint64_t                          writes = 0, reads = 0, marker_reads = 0;
    // armed faults
    int     fault = FK_NONE;
    int64_t at = 0;
    bool    fired = false;
    int     fail_marker_read = -1, fail_read = -1;
    size_t  last_block = 0;
    uint8_t last_marker = 0;
    bool    lied = false;      // a write was reported failed although its marker reached the device
    // model
    std::vector<uint8_t>           acked;
    std::set<std::vector<uint8_t>> maybe;            // outcomes of failed or interrupted writes that may surface after a restart
    Ctx                           *ctx = nullptr;
    bool                           bad_index = false;
};
Dev g_devs[2][2];       // of each of the two instances
#define g_dev g_devs[instance()]

template <int D> int rd_block(size_t b, uint8_t *buf, size_t len) {
    progress();      // while the device works, another instance may run
    Dev &d = g_dev[D];
    d.reads++;
    if (b >= d.n || len > d.len) { d.bad_index = true; return -1; }
    if (d.fail_read == 0) {
        d.fail_read = -1;
        d.ctx->fault(d.fault == FK_EREAD ? FW_EREAD : FW_ERD);
        d.fired = true;
        memset(buf, 0x5A, len / 2);
        return code(d.at + (int64_t)d.reads, -2);
    }
    if (d.fail_read > 0) d.fail_read--;
    memcpy(buf, d.data[b].data(), len);
    progress();
    return 0;
}
template <int D> int rd_marker(size_t b, uint8_t *m) {
    progress();
    Dev &d = g_dev[D];
    d.marker_reads++;
    if (b >= d.n) { d.bad_index = true; return -1; }
    if (d.fail_marker_read == 0) {
        d.fail_marker_read = -1;
        d.ctx->fault(FW_EINIT);
        d.fired = true;
        return code((int64_t)(d.marker_reads * 5 + d.writes), 37);
    }
    if (d.fail_marker_read > 0) d.fail_marker_read--;
    *m = d.marker[b];
    progress();
    return 0;
}
template <int D> int wr_block(size_t b, uint8_t m, uint8_t *buf, size_t len) {
    progress();
    Dev &d = g_dev[D];
    if (b >= d.n || len > d.len) { d.bad_index = true; return -1; }
    d.writes++;
    d.window[b]++;
    d.last_block  = b;
    d.last_marker = m;
    d.ctx->ev("dev-write", D, (int64_t)b, m, d.fault);
    if (m == 0) d.ctx->probe(PW_MARKERWRAP);
    if (b == d.n - 1) d.ctx->probe(PW_LASTBLOCK);
    switch (d.fault) {
        case FK_CUT: {
            size_t k = (size_t)wrapi(d.at, 0, (int64_t)len + 1);
            d.fired = true;
            for (size_t i = 0; i < k && i < len; i++) d.data[b][i] = buf[i];
            if (k == len + 1) d.marker[b] = m;
            d.ctx->fault(k < len ? FW_CUTDATA : k == len ? FW_CUTCOMMIT : FW_CUTDONE);
            if (b == d.n - 1) d.ctx->probe(PW_CUTLAST);
            d.ctx->ev("power-cut", (int64_t)k, (int64_t)len);
            throw PowerCut();
        }
        case FK_EBEFORE: d.fired = true; d.ctx->fault(FW_EBEFORE); return code(d.at, -5);
        case FK_EPART: {
            size_t k = (size_t)wrapi(d.at, 0, (int64_t)len);
            for (size_t i = 0; i < k; i++) d.data[b][i] = buf[i];
            d.fired = true;
            d.ctx->fault(FW_EPART);
            return code(d.at + (int64_t)d.writes, 1);
        }
        case FK_LIE:
            memcpy(d.data[b].data(), buf, len);
            d.marker[b] = m;
            d.fired = true;
            d.ctx->fault(FW_LIE);
            return code(d.at, -7);
        default: break;
    }
    memcpy(d.data[b].data(), buf, len);
    d.marker[b] = m;
    progress();
    return 0;
}
// the original init had no way to report an error (void); the repaired one returns it
template <class F, class... A> int call_init(F f, A... a) {
    if constexpr (std::is_void_v<decltype(f(a...))>) { f(a...); return 0; }
    else return f(a...);
}

void gen_wl(Rng &r, Plan &p, int tier, const std::string &prop) {
    p.cfg.resize(CW_CNT);
    bool errors = prop == "W02" || (prop == "W03" && r.chance(0.5));
    p.cfg[CW_ND] = r.chance(0.25) ? 2 : 1;
    int64_t maxn = 2;
    for (int d = 0; d < 2; d++) {
        int64_t n = r.weighted({14, 4, 2, 1}) == 0 ? r.range(2, 6) : r.chance(0.6) ? r.range(2, 20) : r.chance(0.8) ? r.range(100, 255) : (r.chance(0.5) ? 255 : 254);
        if (r.chance(0.03)) n = 1;
        p.cfg[CW_N0 + 3 * d]     = n;
        p.cfg[CW_LEN0 + 3 * d]   = r.chance(0.8) ? r.range(1, 8) : r.chance(0.7) ? r.range(9, 40) : r.pick({64, 127, 128, 129, 200, 255, 256, 257, 300, 512, 515});
        p.cfg[CW_ERASE0 + 3 * d] = r.chance(0.5) ? 0xFF : r.chance(0.5) ? 0 : r.range(0, 255);
        maxn = std::max(maxn, n);
    }
    p.cfg[CW_DIRTY] = r.pick({0, 255, 0xA5});
    int     n  = (int)r.range(3, tier ? 60 : 40);
    double  pf = r.pick({0.0, 0.05, 0.15, 0.35});
    for (int i = 0; i < n; i++) {
        int64_t d = r.range(0, 1);
        int64_t fk = FK_NONE, at = 0;
        if (r.chance(pf)) {
            fk = errors ? r.range(FK_CUT, FK_EREAD) : FK_CUT;
            int64_t len = p.cfg[(size_t)(CW_LEN0 + 3 * d)];
            at = r.chance(0.4) ? r.range(0, len + 1) : 0;
            if (r.chance(0.6)) at = r.chance(0.5) ? len : len + 1;
        }
        switch (r.weighted({10, 2, 2, 4, 5, 2, 3})) {
            case 0: p.ops.push_back(Op(OW_WRITE, d, r.range(1, 1000000), fk, at)); break;
            case 1: p.ops.push_back(Op(OW_REWRITE, d, 0, fk, at)); break;
            case 2: p.ops.push_back(Op(OW_OLD, d, r.range(0, 3), fk, at)); break;
            case 3: p.ops.push_back(Op(OW_READ, d, r.chance(0.5) ? r.range(0, 40) : 1000, errors && r.chance(0.15))); break;
            case 4: p.ops.push_back(Op(OW_RESTART, d, errors && r.chance(0.15) ? r.range(1, std::min<int64_t>(maxn, 12)) : 0)); break;
            case 6: p.ops.push_back(Op(OW_TWEAK, d, r.range(0, p.cfg[(size_t)(CW_LEN0 + 3 * d)] - 1), fk, at, r.range(1, 255))); break;
            default: {
                int64_t k = r.chance(0.5) ? r.range(1, 12) : r.chance(0.6) ? r.range(maxn - 2, maxn + 2) : r.range(240, 530);
                p.ops.push_back(Op(OW_BURST, d, std::max<int64_t>(1, k), r.range(1, 1000000)));
            }
        }
    }
    if (r.chance(0.7)) p.ops.push_back(Op(OW_RESTART, 0, 0));
    p.ops.push_back(Op(OW_READ, 0, 1000, 0));
}

std::vector<uint8_t> value_for(int64_t id, size_t len) {
    std::vector<uint8_t> v(len);
    uint64_t x = (uint64_t)id * 0x9E3779B97F4A7C15ull + 7;
    for (size_t i = 0; i < len; i += 8) {
        uint64_t y = Rng::splitmix(x);
        for (size_t k = 0; k < 8 && i + k < len; k++) v[i + k] = (uint8_t)(y >> (8 * k));
    }
    return v;
}

void run_wl(const Plan &p, Ctx &ctx) {
    auto cfg = [&](int i, int64_t lo, int64_t hi) { return wrapi(i < (int)p.cfg.size() ? p.cfg[(size_t)i] : lo, lo, hi); };
    int  nd  = (int)cfg(CW_ND, 1, 2);
    wear_leveled_memory_t wl[2];
    std::vector<std::vector<uint8_t>> history[2];
    int dirty = (int)cfg(CW_DIRTY, 0, 255);
    bool w01 = ctx.on("W01"), w02 = ctx.on("W02"), w03 = ctx.on("W03");

    auto init = [&](int d) -> int {
        memset((void *)&wl[d], dirty, sizeof wl[d]);
        progress();
        return d == 0 ? call_init(wearleveling_init, &wl[d], rd_block<0>, wr_block<0>, rd_marker<0>, g_dev[0].n)
                      : call_init(wearleveling_init, &wl[d], rd_block<1>, wr_block<1>, rd_marker<1>, g_dev[1].n);
    };
    for (int d = 0; d < nd; d++) {
        Dev &v = g_dev[d];
        v     = Dev();
        v.id  = d;
        v.ctx = &ctx;
        v.n   = (size_t)cfg(CW_N0 + 3 * d, 1, 255);
        v.len = (size_t)cfg(CW_LEN0 + 3 * d, 1, 600);
        uint8_t e = (uint8_t)cfg(CW_ERASE0 + 3 * d, 0, 255);
        v.data.assign(v.n, std::vector<uint8_t>(v.len, e));
        v.marker.assign(v.n, e);
        v.window.assign(v.n, 0);
        v.acked.assign(v.len, e);
        init(d);
        history[d].push_back(v.acked);
    }
    auto indices = [&](Dev &v, const char *what) {
        if (v.bad_index) ctx.fail("bad-block", "%s: the device was asked for a block outside 0..%zu (or for more than the record)", what, v.n - 1);
        for (int o = 0; o < nd; o++) if (g_dev[o].bad_index) ctx.fail("bad-block", "%s touched the other device out of range", what);
    };
    auto even = [&](Dev &v) {
        if (!w03) return;
        auto mm = std::minmax_element(v.window.begin(), v.window.end());
        if (*mm.second - *mm.first > 1)
            ctx.fail("wear", "without any fault one block was written %llu times and another %llu", (unsigned long long)*mm.second, (unsigned long long)*mm.first);
    };
    auto fault_seen = [&](Dev &v) { std::fill(v.window.begin(), v.window.end(), 0); ctx.nontrivial = true; };
    // what a restart shows must be the acknowledged value or the outcome of a write that never was acknowledged
    auto recover = [&](int d) {
        Dev &v = g_dev[d];
        int  r;
        for (;;) {
            v.fired = false;
            r = init(d);
            indices(v, "init");
            ctx.ev("init", d, r, v.fired);
            if (v.fired) {
                SIM_CHECK(ctx, "W02", r != 0, "unreported", "a marker could not be read during init and nothing was reported");
                fault_seen(v);
                if (w02) {      // whatever the application does next, the device is only asked for blocks it has
                    std::vector<uint8_t> tmp(v.len);
                    wearleveling_read(&wl[d], tmp.data(), v.len);
                    indices(v, "a read after a failed init");
                }
                continue;     // the application tries again; the fault was transient
            }
            SIM_CHECK(ctx, "W02", r == 0, "false-error", "init reported error %d without any device error", r);
            break;
        }
        std::vector<uint8_t> got(v.len, 0x33);
        v.fault = FK_NONE;
        r = wearleveling_read(&wl[d], got.data(), v.len);
        indices(v, "read");
        ctx.ev("recovered", d, r, got[0], v.maybe.size());
        bool arm = w01 || w02;
        if (arm && r) ctx.fail("false-error", "read after restart failed with %d", r);
        if (got == v.acked) {
        } else if (v.maybe.count(got)) {
            v.acked = got;
        } else if (arm) {
            ctx.fail("durability", "device %d (%zu blocks): after the restart the stored record is neither the last acknowledged one nor one in flight", d, v.n);
        } else v.acked = got;
        // whichever block is active now, no other outcome can surface any more unless it is the active one
        v.maybe.clear();
        v.lied = false;
        ctx.state((uint64_t)v.n << 40 | (uint64_t)v.last_block << 20 | (uint64_t)v.last_marker);
    };
    auto do_write = [&](int d, const std::vector<uint8_t> &val, int64_t fk, int64_t at) {
        Dev &v = g_dev[d];
        v.fault = (int)wrapi(fk, 0, FK_N - 1);
        v.at = at;
        v.fired = false;
        v.fail_read = v.fault == FK_EREAD ? 0 : -1;
        std::vector<uint8_t> buf = val;
        uint64_t w0 = v.writes;
        int  other = 1 - d;
        uint64_t ow = nd == 2 ? g_dev[other].writes : 0;
        progress();
        int r = 0;
        bool cut = false, same = val == v.acked;
        ctx.ev("write", d, val[0], v.fault, same);
        try {
            r = wearleveling_write(&wl[d], buf.data(), v.len);
        } catch (PowerCut &) { cut = true; }
        v.fail_read = -1;
        indices(v, "write");
        int fired_kind = v.fired ? v.fault : FK_NONE;
        v.fault = FK_NONE;
        if (nd == 2) SIM_CHECK(ctx, "W01", g_dev[other].writes == ow, "cross-talk", "a write to one store reached the other device");
        if (cut) {
            ctx.ev("cut", d);
            if (v.n >= 2) {
                v.maybe.insert(val);
                if (v.lied) v.maybe.insert(v.data[v.last_block]);   // torn over a block already committed by a failure
            } else {          // a single block offers no atomicity: whatever is there now is what will be read
                v.acked = v.data[0];
                v.maybe.clear();
            }
            fault_seen(v);
            recover(d);
            return;
        }
        ctx.ev("wrote", d, r, v.writes - w0);
        if (fired_kind != FK_NONE) {
            fault_seen(v);
            SIM_CHECK(ctx, "W02", r != 0, "unreported", "the device failed during a write and the write was acknowledged");
            if (v.n < 2 && fired_kind != FK_EBEFORE && fired_kind != FK_EREAD) { v.acked = v.data[0]; }
            else if (fired_kind == FK_LIE) { v.maybe.insert(val); v.lied = true; }
            else if (fired_kind == FK_EPART && v.lied) v.maybe.insert(v.data[v.last_block]);
            return;
        }
        if ((w01 || w02) && r) ctx.fail("false-error", "a write failed with %d without any device error", r);
        if (r) return;
        if (v.writes == w0) {
            ctx.probe(PW_DEDUPE);
            {
                if (!same) ctx.fail("lost-write", "a record different from the readable one was acknowledged without being written");
            }
        } else {
            if (same && w03) ctx.fail("needless-write", "writing the record already stored cost a device write");
            v.maybe.clear();
            v.lied = false;
            if (v.writes - w0 > 1 && w03) ctx.fail("needless-write", "one record write cost %llu device writes", (unsigned long long)(v.writes - w0));
        }
        v.acked = val;
        history[d].push_back(val);
        even(v);
        ctx.state((uint64_t)v.n << 40 | (uint64_t)v.last_block << 20 | (uint64_t)v.last_marker << 1);
    };
    auto do_read = [&](int d, int64_t l, bool fail) {
        Dev &v = g_dev[d];
        size_t len = (size_t)wrapi(l, 1, (int64_t)v.len);
        if (l > (int64_t)v.len) len = v.len;
        std::vector<uint8_t> got(len, 0x44);
        v.fail_read = fail ? 0 : -1;
        v.fired = false;
        progress();
        int r = wearleveling_read(&wl[d], got.data(), len);
        v.fail_read = -1;
        indices(v, "read");
        ctx.ev("read", d, r, got[0]);
        if (v.fired) {
            ctx.nontrivial = true;
            SIM_CHECK(ctx, "W02", r != 0, "unreported", "the device failed during a read and the read was reported as good");
            return;
        }
        if (!(w01 || w02)) return;
        if (r) ctx.fail("false-error", "a read failed with %d without any device error", r);
        if (!std::equal(got.begin(), got.end(), v.acked.begin())) ctx.fail("wrong-read", "device %d: the record read is not the last acknowledged one", d);
    };

    for (auto &o : p.ops) {
        int d = (int)wrapi(o.a[0], 0, nd - 1);
        Dev &v = g_dev[d];
        if (v.n == 1) ctx.probe(PW_N1);
        ctx.advance(10000);
        switch (o.kind) {
            case OW_WRITE: do_write(d, value_for(o.a[1], v.len), o.a[2], o.a[3]); break;
            case OW_REWRITE: do_write(d, v.acked, o.a[2], o.a[3]); break;
            case OW_TWEAK: {        // one byte of the stored record changes
                std::vector<uint8_t> val = v.acked;
                val[(size_t)wrapi(o.a[1], 0, (int64_t)v.len - 1)] ^= (uint8_t)wrapi(o.a[4], 1, 255);
                do_write(d, val, o.a[2], o.a[3]);
                break;
            }
            case OW_OLD: {
                auto &h = history[d];
                do_write(d, h[h.size() - 1 - (size_t)wrapi(o.a[1], 0, (int64_t)h.size() - 1)], o.a[2], o.a[3]);
                break;
            }
            case OW_READ: do_read(d, o.a[1], o.a[2] & 1); break;
            case OW_RESTART:
                v.fail_marker_read = o.a[1] > 0 ? (int)std::min<int64_t>(o.a[1], (int64_t)v.n) - 1 : -1;
                recover(d);
                v.fail_marker_read = -1;
                break;
            case OW_BURST: {
                int64_t k = clampi(o.a[1], 0, 600);
                if (k >= (int64_t)v.n) ctx.probe(PW_LAPS);
                for (int64_t i = 0; i < k; i++) do_write(d, value_for(o.a[2] + i, v.len), 0, 0);
                break;
            }
            default: break;
        }
    }
    // once the faults are over: a last write, a restart, and everything is there
    for (int d = 0; d < nd; d++) {
        do_write(d, value_for(987654321, g_dev[d].len), 0, 0);
        do_read(d, (int64_t)g_dev[d].len, false);
        recover(d);
    }
}

Scenario wl() {
    Scenario s;
    s.name = "wear_levelled_store";
    s.props = {"W01", "W02", "W03"};
    s.cfg_names = {"devices", "blocks0", "len0", "erased0", "blocks1", "len1", "erased1", "dirty"};
    s.op_names = {"write", "rewrite-same", "write-old-value", "read", "restart", "burst", "change-one-byte"};
    s.fault_names = {"power cut inside the data of a block write", "power cut between data and marker", "power cut after the marker, before the acknowledgement",
                     "device error before a write", "device error after part of the data", "device error reported although everything was written",
                     "read error inside a write", "marker read error during init", "read error"};
    s.probe_names = {"whole lap of the page in one burst", "marker wrapped past 255", "last block of the page written", "identical record, no device write",
                     "power cut in the last block", "-", "single-block page"};
    s.rule = "a case is one seed: page sizes, record length, erased pattern, a history of writes, reads and restarts with power cuts at an explicit byte of a block "
             "write and device errors; non-trivial when a cut or an error actually fired";
    s.state_measure = "page size x active block x marker after every restart and write";
    s.real_components = {"gel/wearleveling/wearleveling.c (clang -O1, AddressSanitizer)"};
    s.stub_components = {"block device behind the three function pointers: data bytes written in order, marker last; contents survive restarts, RAM does not"};
    s.edge_budget = 20000000;
    s.twin = true;
    s.long_ops = 8000;
    s.gen = gen_wl;
    s.run = run_wl;
    return s;
}
Registrar r0(wl());

// ============================================================================================= event log
enum { OE_NEW, OE_MANY, OE_LOAD, OE_TOTAL };
enum { CE_MAX0, CE_SZ0, CE_MAX1, CE_SZ1, CE_ND, CE_N };
enum { SF_NONE, SF_BEFORE, SF_PART, SF_LIE };
enum { LF_NONE, LF_ERR1, LF_ERR2, LF_SHORT1, LF_SHORT2, LF_ZERO1, LF_N };
enum { FE_SBEFORE, FE_SPART, FE_SLIE, FE_LERR1, FE_LERR2, FE_LSHORT1, FE_LSHORT2, FE_LZERO };
enum { PE_WRAPLOAD, PE_FULL, PE_HUGE, PE_JUMPALL, PE_EMPTY, PE_FAILFULL };

struct Log {
    size_t                            max = 1, sz = 1;
    std::vector<uint8_t>              store;
    int                               sf = 0, lf = 0, loadcall = 0;
    int64_t                           at = 0;
    bool                              sfired = false, lfired = false, bad = false;
    Ctx                              *ctx = nullptr;
    std::vector<std::vector<uint8_t>> acked;      // every acknowledged event, oldest first
    int64_t                           damaged = -1;  // index in acked whose slot a failed save may have spoilt
};
Log g_logs[2][2];
#define g_log g_logs[instance()]
template <int D> int save_ev(uint8_t *e, size_t pos) {
    progress();
    Log &l = g_log[D];
    l.ctx->ev("dev-save", D, (int64_t)pos, l.sf);
    if (pos >= l.max) { l.bad = true; return -1; }
    uint8_t *dst = &l.store[pos * l.sz];
    switch (l.sf) {
        case SF_BEFORE: l.sfired = true; l.ctx->fault(FE_SBEFORE); return code(l.at + (int64_t)pos, -3);
        case SF_PART: {
            size_t k = (size_t)wrapi(l.at, 0, (int64_t)l.sz);
            memcpy(dst, e, k);
            l.sfired = true;
            l.ctx->fault(FE_SPART);
            return code(l.at + (int64_t)pos, 5);
        }
        case SF_LIE: memcpy(dst, e, l.sz); l.sfired = true; l.ctx->fault(FE_SLIE); return code(l.at + (int64_t)pos, -1);
        default: break;
    }
    memcpy(dst, e, l.sz);
    progress();
    return 0;
}
template <int D> int load_ev(uint8_t *out, size_t n, size_t start) {
    progress();
    Log &l = g_log[D];
    int  c = l.loadcall++;
    l.ctx->ev("dev-load", D, (int64_t)n, (int64_t)start, l.lf);
    if (start > l.max || n > l.max || start + n > l.max) { l.bad = true; return -1; }
    if ((l.lf == LF_ERR1 && c == 0) || (l.lf == LF_ERR2 && c == 1)) {
        l.lfired = true;
        l.ctx->fault(c ? FE_LERR2 : FE_LERR1);
        if (n) memset(out, 0x77, l.sz * (n / 2));
        int e = code(l.at, -(int)wrapi(l.at, 1, 9));
        return e < 0 ? e : -e;
    }
    size_t k = n;
    if (((l.lf == LF_SHORT1 && c == 0) || (l.lf == LF_SHORT2 && c == 1)) && n > 0) {
        k = (size_t)wrapi(l.at, 0, (int64_t)n - 1);
        l.lfired = true;
        l.ctx->fault(c ? FE_LSHORT2 : FE_LSHORT1);
    }
    if (l.lf == LF_ZERO1 && c == 0 && n > 0) { k = 0; l.lfired = true; l.ctx->fault(FE_LZERO); }
    memcpy(out, &l.store[start * l.sz], k * l.sz);
    progress();
    return (int)k;
}

void gen_log(Rng &r, Plan &p, int tier, const std::string &prop) {
    bool faults = prop == "E02";
    p.cfg.resize(CE_N);
    for (int d = 0; d < 2; d++) {
        p.cfg[(size_t)(CE_MAX0 + 2 * d)] = r.chance(0.85) ? r.range(1, 8) : r.chance(0.75) ? r.range(9, 40) : r.pick({127, 128, 129, 254, 255, 256, 257, 300, 511, 520, 700});
        p.cfg[(size_t)(CE_SZ0 + 2 * d)]  = r.chance(0.7) ? r.range(1, 8) : r.chance(0.9) ? r.range(9, 24) : r.pick({64, 100, 255, 256, 257, 300});
        if (p.cfg[(size_t)(CE_MAX0 + 2 * d)] > 40) p.cfg[(size_t)(CE_SZ0 + 2 * d)] = r.chance(0.93) ? r.range(1, 6) : r.range(100, 320);
    }
    p.cfg[CE_ND] = r.chance(0.25) ? 2 : 1;
    if (r.chance(0.00025)) {      // a log of more events than 16 bits count
        int64_t mx = r.chance(0.6) ? 65536 + r.range(-3, 4000) : 32768 + r.range(-3, 3);
        p.cfg[CE_MAX0] = mx;
        p.cfg[CE_SZ0]  = r.range(1, 3);
        p.cfg[CE_ND]   = 1;
        for (int k = 0; k < 3; k++) {
            p.ops.push_back(Op(OE_MANY, 0, r.range(1, 1000000), k ? r.range(1, 3000) : mx - r.range(-200, 200)));
            int64_t near = r.pick<int64_t>({32767, 32768, 65535, 65536, 0, 0, mx, 20, 65535 - 100});
            p.ops.push_back(Op(OE_LOAD, 0, std::max<int64_t>(0, near + r.range(-2, 40)), r.chance(0.4) ? r.range(0, 50) : r.chance(0.5) ? r.range(0, mx) : mx - r.range(0, 90), faults ? r.range(0, LF_N - 1) : 0, r.range(0, 60000)));
        }
        return;
    }
    int n = (int)r.range(3, tier ? 70 : 45);
    double pf = faults ? r.pick({0.05, 0.2, 0.4}) : 0.0;
    for (int i = 0; i < n; i++) {
        int64_t d = r.range(0, 1), mx = p.cfg[(size_t)(CE_MAX0 + 2 * d)];
        switch (r.weighted({8, mx > 40 ? 5 : 2, 8, 2})) {
            case 0: p.ops.push_back(Op(OE_NEW, d, r.range(1, 1000000), r.chance(pf) ? r.range(1, 3) : 0, r.range(0, p.cfg[(size_t)(CE_SZ0 + 2 * d)]))); break;
            case 1: p.ops.push_back(Op(OE_MANY, d, r.range(1, 1000000), r.range(1, mx * 2 + 1))); break;
            case 2: {
                int64_t num = r.chance(0.3) ? mx : r.chance(0.1) ? INT64_MAX : r.chance(0.08) ? -1 - r.range(0, mx) : r.range(0, mx + 3);
                int64_t jump = r.chance(0.4) ? 0 : r.chance(0.05) ? INT64_MAX - r.range(0, 3) : r.range(0, mx + 2);
                p.ops.push_back(Op(OE_LOAD, d, num, jump, r.chance(pf) ? r.range(1, LF_N - 1) : 0, r.range(0, std::max<int64_t>(24, mx))));
                break;
            }
            default: p.ops.push_back(Op(OE_TOTAL, d));
        }
    }
}

void run_log(const Plan &p, Ctx &ctx) {
    auto cfg = [&](int i, int64_t lo, int64_t hi) { return wrapi(i < (int)p.cfg.size() ? p.cfg[(size_t)i] : lo, lo, hi); };
    int  nd  = (int)cfg(CE_ND, 1, 2);
    for (int d = 0; d < 2; d++) {
        Log &l = g_log[d];
        l = Log();
        l.ctx = &ctx;
        l.max = (size_t)cfg(CE_MAX0 + 2 * d, 1, 70000);
        l.sz  = (size_t)cfg(CE_SZ0 + 2 * d, 1, 320);
        l.store.assign(l.max * l.sz, 0xFF);
    }
    circular_event_log_t lg[2] = {{0, g_log[0].max, g_log[0].sz, 0, save_ev<0>, load_ev<0>}, {0, g_log[1].max, g_log[1].sz, 0, save_ev<1>, load_ev<1>}};
    const char *P = ctx.on("E01") ? "E01" : "E02";
    int64_t serial = 0;

    auto bad = [&](const char *what) {
        if (g_log[0].bad || g_log[1].bad) ctx.fail("bad-slot", "%s asked the storage for a slot it does not have", what);
    };
    auto retained = [&](Log &l) { return std::min(l.acked.size(), l.max); };
    auto total = [&](int d) {
        size_t t = circular_event_log_total_events(lg[d]);
        ctx.ev("total", d, (int64_t)t);
        SIM_CHECK(ctx, P, t == retained(g_log[d]), "total", "%zu events reported, %zu retained", t, retained(g_log[d]));
    };
    auto add = [&](int d, int64_t id, int64_t sf, int64_t at) {
        Log &l = g_log[d];
        std::vector<uint8_t> e = value_for(id * 1000 + serial++, l.sz);
        l.sf = (int)wrapi(sf, 0, 3);
        l.at = at;
        l.sfired = false;
        progress();
        std::vector<uint8_t> copy = e;
        int r = circular_event_log_new_event(&lg[d], copy.data());
        l.sf = 0;
        bad("a save");
        ctx.ev("new", d, r, e[0], l.sfired);
        if (l.sfired) {
            ctx.nontrivial = true;
            SIM_CHECK(ctx, P, r != 0, "unreported", "the storage failed to save an event and the call reported success");
            if (l.acked.size() >= l.max) { l.damaged = (int64_t)(l.acked.size() - l.max); ctx.probe(PE_FAILFULL); }
        } else {
            SIM_CHECK(ctx, P, r == 0, "false-error", "saving an event failed with %d without any storage error", r);
            l.acked.push_back(e);
            if (l.acked.size() >= l.max) ctx.probe(PE_FULL);
        }
        size_t t = circular_event_log_total_events(lg[d]);
        SIM_CHECK(ctx, P, t == retained(l), "total", "%zu events reported, %zu retained", t, retained(l));
        ctx.state((uint64_t)l.max << 32 | (uint64_t)(l.acked.size() % l.max) << 8 | (uint64_t)(l.acked.size() >= l.max) << 1 | (uint64_t)l.sfired);
    };
    auto load = [&](int d, int64_t num, int64_t jmp, int64_t lf, int64_t at) {
        Log   &l = g_log[d];
        size_t number = (size_t)num, jump = (size_t)jmp;
        size_t tot = retained(l);
        size_t want = jump > tot ? 0 : std::min(number, tot - jump);
        enum { PAD = 16 };
        std::vector<uint8_t> out((want + 1) * l.sz + PAD, 0xD7);
        l.lf = (int)wrapi(lf, 0, LF_N - 1);
        l.at = at;
        l.lfired = false;
        l.loadcall = 0;
        progress();
        int r = circular_event_log_load_last_events(lg[d], out.data(), number, jump);
        l.lf = 0;
        bad("a load");
        ctx.ev("load", (int64_t)want, jmp, r, l.lfired);
        if (l.loadcall > 1) { ctx.probe(PE_WRAPLOAD); if (!ctx.on("E02")) ctx.nontrivial = true; }
        if (number > l.max) ctx.probe(PE_HUGE);
        if (jump >= tot && tot) ctx.probe(PE_JUMPALL);
        if (!tot) ctx.probe(PE_EMPTY);
        if (l.lfired) ctx.nontrivial = true;
        if (!ctx.on(P)) return;
        for (size_t i = want * l.sz; i < out.size(); i++)
            if (out[i] != 0xD7) ctx.fail("memory-error", "a load of %zu events wrote past them in the caller's array", want);
        if (!l.lfired) {
            if (r < 0) ctx.fail("false-error", "loading failed with %d without any storage error", r);
            if ((size_t)r != want) ctx.fail("count", "%d events returned instead of %zu (%zu retained, %zu requested, %zu skipped)", r, want, tot, number, jump);
        }
        if (r > (int)want) ctx.fail("count", "%d events returned, only %zu can be asked for", r, want);
        // the events returned are the right ones, oldest first, with no gap
        size_t first = l.acked.size() - std::min(l.acked.size(), jump) - want;
        for (int i = 0; i < r; i++) {
            size_t idx = first + (size_t)i;
            if ((int64_t)idx == l.damaged) continue;
            if (memcmp(&out[(size_t)i * l.sz], l.acked[idx].data(), l.sz))
                ctx.fail("wrong-event", "event %d of %d returned is not event %zu of %zu recorded", i, r, idx, l.acked.size());
        }
    };
    const int64_t l_many = std::max(g_log[0].max, g_log[1].max) > 800 ? 70000 : 1700;
    for (auto &o : p.ops) {
        int d = (int)wrapi(o.a[0], 0, nd - 1);
        ctx.advance(1000);
        switch (o.kind) {
            case OE_NEW: add(d, o.a[1], o.a[2], o.a[3]); break;
            case OE_MANY: for (int64_t i = 0, k = clampi(o.a[2], 0, l_many); i < k; i++) add(d, o.a[1] + i, 0, 0); break;
            case OE_LOAD: load(d, o.a[1], o.a[2], o.a[3], o.a[4]); break;
            case OE_TOTAL: total(d); break;
            default: break;
        }
    }
    for (int d = 0; d < nd; d++) {     // faults over
        load(d, (int64_t)g_log[d].max, 0, 0, 0);
        add(d, 5, 0, 0);
        load(d, (int64_t)g_log[d].max, 0, 0, 0);
        for (size_t j = 0; j <= g_log[d].max; j += 1 + g_log[d].max / 64) load(d, 1, (int64_t)j, 0, 0);
    }
}
Scenario elog() {
    Scenario s;
    s.name = "event_log";
    s.props = {"E01", "E02"};
    s.cfg_names = {"max0", "size0", "max1", "size1", "logs"};
    s.op_names = {"new-event", "many-events", "load", "total"};
    s.fault_names = {"save failed before writing", "save failed after part of the event", "save reported failed although written", "load failed, first segment",
                     "load failed, second segment", "short load, first segment", "short load, second segment", "empty load"};
    s.probe_names = {"load across the end of the storage", "log full", "more events requested than the log holds", "all retained events skipped", "load from an empty log",
                     "save failed on a full log"};
    s.rule = "a case is one seed: log geometry, a history of saves and window loads, and storage faults placed in explicit calls; non-trivial when a storage fault fired "
             "(E02) or a load crossed the end of the storage (E01)";
    s.state_measure = "capacity x next slot x lap flag";
    s.real_components = {"gel/circular_event_log/circular_event_log.c (clang -O1, AddressSanitizer)"};
    s.stub_components = {"event storage behind save_new_event/load_events"};
    s.edge_budget = 20000000;
    s.twin = true;
    s.long_ops = 10000;
    s.gen = gen_log;
    s.run = run_log;
    return s;
}
Registrar r1(elog());
BudgetReg br({{"W01", 300000, 9000000}, {"W02", 300000, 9000000}, {"W03", 300000, 9000000}, {"E01", 1200000, 26000000}, {"E02", 1200000, 22000000}});
}
