// Parameter tables in a simulated device: an operator turning the knob, limits that move, memory corruption,
// access levels that change under runtime hooks, backup and restore (P01-P04).
#include <algorithm>
#include <cmath>
#include <memory>
#include "sim.h"
#include "param_api.h"
using namespace sim;

namespace {
enum { OP_NEW, OP_STEP, OP_CORRUPT, OP_DYN, OP_MODE, OP_CHECK, OP_RESET, OP_ENUM, OP_READ, OP_BACKUP, OP_RESTORE, OP_CLONE };
enum { C_VARIANT, C_FILL, C_CNT };
enum { F_BITS, F_NAN, F_INF, F_LIMITS, F_WILD, F_LEVEL };
enum { P_WRAPMAX, P_WRAPMIN, P_OVERFLOW, P_FULLRANGE, P_64, P_LINKED, P_DEFOUT, P_HIDDEN, P_FREE, P_NULLAL, P_RESTORED, P_MULTIBAD, P_LARGE, P_FIRSTGET };
enum { L_PMIN = 1, L_PMAX = 2, L_LINK = 4, L_RTMAX = 8, L_RTLVL = 16 };
enum { MAXP = 12, MAXFILL = 640 };      // parameters described one by one, parameters in all
using i128 = __int128;

struct T { int size; bool sg, fl; };
const T TY[10] = {{1, 0, 0}, {1, 1, 0}, {2, 0, 0}, {2, 1, 0}, {4, 0, 0}, {4, 1, 0}, {8, 0, 0}, {8, 1, 0}, {4, 1, 1}, {8, 1, 1}};
struct V {
    bool        fl = false;
    i128        i  = 0;
    long double d  = 0;
};
V load(int t, const uint8_t *p) {
    V v;
    v.fl = TY[t].fl;
    uint64_t u = 0;
    memcpy(&u, p, (size_t)TY[t].size);
    if (t == 8) { float f; memcpy(&f, p, 4); v.d = f; }
    else if (t == 9) { double f; memcpy(&f, p, 8); v.d = f; }
    else if (TY[t].sg) {
        int sh = 64 - 8 * TY[t].size;
        v.i = (int64_t)(u << sh) >> sh;
    } else v.i = u;
    return v;
}
void store(int t, uint8_t *p, const V &v) {
    if (t == 8) { float f = (float)v.d; memcpy(p, &f, 4); }
    else if (t == 9) { double f = (double)v.d; memcpy(p, &f, 8); }
    else { uint64_t u = (uint64_t)v.i; memcpy(p, &u, (size_t)TY[t].size); }
}
i128 tmin(int t) { return TY[t].sg ? -((i128)1 << (8 * TY[t].size - 1)) : 0; }
i128 tmax(int t) { return TY[t].sg ? ((i128)1 << (8 * TY[t].size - 1)) - 1 : ((i128)1 << (8 * TY[t].size)) - 1; }
i128 wrapt(int t, i128 v) {
    uint8_t b[8] = {0};
    V x; x.i = v;
    store(t, b, x);
    return load(t, b).i;
}
// a plan integer as a value of the type (floats: quarters)
V val(int t, int64_t a) {
    V v;
    v.fl = TY[t].fl;
    if (v.fl) v.d = (long double)wrapi(a, -4000000, 4000000) / 4;
    else v.i = wrapt(t, t == 6 ? (i128)(uint64_t)a : (i128)a);
    return v;
}
bool le(const V &a, const V &b) { return a.fl ? a.d <= b.d : a.i <= b.i; }
bool eq(const V &a, const V &b) { return a.fl ? a.d == b.d : a.i == b.i; }
std::string str(const V &v) {
    char b[64];
    if (v.fl) snprintf(b, sizeof b, "%Lg", v.d);
    else snprintf(b, sizeof b, "%s%llu", v.i < 0 ? "-" : "", (unsigned long long)(v.i < 0 ? -v.i : v.i));
    return b;
}

struct Slot { uint8_t guard0[8], v[8], guard1[16]; };
struct Dev;
struct Par {
    Dev     *dev;
    int      idx, type, how, flags, link = -1;
    V        min, max, def, step, mid;
    V        cur_max;             // what the handle holds now
    unsigned level0, level;
    int64_t  data;
    uint64_t rt_calls = 0;
};
struct Dev {
    Ctx                    *ctx;
    const param_api        *api;
    std::unique_ptr<char[]> arr;
    std::vector<Slot>       val, dmin, dmax, wantv;
    std::vector<Par>        ps;
    unsigned                mode = 0;
    bool                    bad_arg = false;
    void *handle(int i) { return arr.get() + (size_t)i * api->handle_size; }
    V now(int i) { return load(ps[(size_t)i].type, val[(size_t)i].v); }
    V want(int i) { return load(ps[(size_t)i].type, wantv[(size_t)i].v); }
    V mode_max(const Par &p) { return mode & 1 ? p.mid : p.max; }
    unsigned mode_level(const Par &p) { return mode & 2 ? p.level0 ^ (p.level0 & 0x80000001u && p.level0 != 1 ? 0x80000001u : 3) : p.level0; }
    // limits in force given the values in tab
    V lo(int i, std::vector<Slot> &) { const Par &p = ps[(size_t)i]; return p.flags & L_PMIN ? load(p.type, dmin[(size_t)i].v) : p.min; }
    V hi(int i, std::vector<Slot> &tab, bool fresh) {
        const Par &p = ps[(size_t)i];
        if (p.link >= 0) return load(p.type, tab[(size_t)p.link].v);
        if (p.flags & L_PMAX) return load(p.type, dmax[(size_t)i].v);
        if (p.flags & L_RTMAX) return fresh ? mode_max(p) : p.cur_max;
        return p.max;
    }
};
void runtime(void *h, void *arg) {
    progress();
    Par *p = (Par *)arg;
    Dev *d = p->dev;
    if (h != d->handle(p->idx)) { d->bad_arg = true; return; }
    p->rt_calls++;
    if (p->flags & L_RTMAX) {
        p->cur_max = d->mode_max(*p);
        uint8_t b[8] = {0};
        store(p->type, b, p->cur_max);
        d->api->set_max(h, b, (size_t)TY[p->type].size);
    }
    if (p->flags & L_RTLVL) { p->level = d->mode_level(*p); d->api->set_level(h, p->level); }
}

int64_t pick_val(Rng &r, int t) {
    if (TY[t].fl) return r.chance(0.7) ? r.range(-400, 400) : r.range(-4000000, 4000000);
    i128 lo = tmin(t), hi = tmax(t);
    int64_t l = (int64_t)lo, h = t == 6 ? INT64_MAX : (int64_t)hi;
    switch (r.weighted({6, 2, 2, 1, 2})) {
        case 0: return TY[t].sg ? r.range(-50, 50) : r.range(0, 100);
        case 1: return t == 6 && r.chance(0.5) ? -1 - r.range(0, 3) : h - r.range(0, 3);
        case 2: return l + r.range(0, 3);
        case 3: return TY[t].size == 8 ? (r.chance(0.5) ? (int64_t)1 << r.range(30, 40) : -((int64_t)1 << r.range(30, 40))) : r.range(l, h);
        default: return TY[t].size == 8 ? (int64_t)r.next() : r.range(l, h);
    }
}
void gen(Rng &r, Plan &p, int tier, const std::string &prop) {
    int64_t variant = r.weighted({6, 3, 1, 1});
    bool big = (prop == "P02" || prop == "P03") && r.chance(0.004);
    p.cfg = {variant, big ? r.pick<int64_t>({255, 256, 257, 300, r.range(100, MAXFILL)}) : 0};
    int maxsize = 8 >> variant;
    int np = (int)(r.chance(0.3) ? 1 : r.range(1, r.chance(0.2) ? MAXP : 6));
    int types[10], nt = 0;
    for (int t = 0; t < 10; t++) if (TY[t].size <= maxsize) types[nt++] = t;
    bool mono = r.chance(0.4);
    int  t0 = types[r.below((uint64_t)nt)];
    auto mk = [&] {
        int t = mono ? t0 : types[r.below((uint64_t)nt)];
        int64_t how = r.weighted({6, 3, 2, 2, 2}), fl = 0;
        if (how == 0 || how == 1) for (int b : {L_PMIN, L_PMAX, L_LINK, L_RTMAX, L_RTLVL}) if (r.chance(b == L_LINK && mono ? 0.4 : 0.2)) fl |= b;
        int64_t mn = pick_val(r, t), mx = pick_val(r, t), df = pick_val(r, t), st = TY[t].fl ? r.range(1, 20) : r.chance(0.6) ? r.range(1, 10) : r.chance(0.7) ? r.range(0, 100) : pick_val(r, t);
        if (!TY[t].fl && r.chance(0.2)) { mn = (int64_t)tmin(t); mx = t == 6 ? -1 : (int64_t)tmax(t); }
        if (r.chance(0.7)) { V a = val(t, mn), b = val(t, mx); if (!le(a, b)) { std::swap(mn, mx); std::swap(a, b); }
            if (!TY[t].fl) { i128 w = b.i - a.i + 1; df = (int64_t)(a.i + (i128)(((unsigned __int128)r.next() * (unsigned __int128)w) >> 64)); } else df = (mn + mx) / 2; }
        p.ops.push_back(Op(OP_NEW, t | how << 8 | fl << 16 | (int64_t)r.weighted({6, 8, 4, 4, 2, 1, 1, 1, 1}) << 32, mn, mx, df, st, r.range(0, MAXP)));
    };
    for (int i = 0; i < np; i++) mk();
    int n = big ? (int)r.range(3, 12) : (int)r.range(4, tier ? 80 : 50);
    bool p1 = prop == "P01", p2 = prop == "P02", p3 = prop == "P03", p4 = prop == "P04";
    double pf = r.pick({0.0, 0.5, 1.0});
    for (int i = 0; i < n; i++) {
        int wc = (int)(6 * pf), wd = (int)(4 * pf);
        switch (r.weighted({p1 ? 20 : 4, wc, wd, p3 ? 5 : 2, p2 ? 8 : 2, p2 ? 2 : 1, p3 ? 14 : 0, p4 ? 8 : 0, p4 ? 4 : 0, p4 ? 4 : 0, p4 ? 2 : 0})) {
            case 0: {
                int64_t mod = r.chance(0.7) ? r.pick({1, -1}) : r.chance(0.8) ? r.range(-20, 20) : r.chance(0.5) ? r.range(-1000000, 1000000) : r.pick<int64_t>({INT32_MAX, INT32_MIN, 65536, -65536, 256, -256});
                p.ops.push_back(Op(OP_STEP, r.range(0, MAXP - 1), mod, r.chance(0.5) ? r.range(1, 30) : 1));
                break;
            }
            case 1: p.ops.push_back(Op(OP_CORRUPT, r.range(0, MAXP - 1), r.weighted({4, 3, 2, 2, 3}), (int64_t)r.next(), big && r.chance(0.7) ? r.range(200, MAXFILL) : r.chance(0.1) ? r.range(1, 12) : 0)); break;
            case 2: p.ops.push_back(Op(OP_DYN, r.range(0, MAXP - 1), r.range(0, 1), pick_val(r, mono ? t0 : types[r.below((uint64_t)nt)]))); break;
            case 3: p.ops.push_back(Op(OP_MODE, r.range(0, 3))); break;
            case 4: p.ops.push_back(Op(OP_CHECK)); break;
            case 5: p.ops.push_back(Op(OP_RESET)); break;
            case 6: p.ops.push_back(Op(OP_ENUM, r.chance(0.1) ? -1 : r.chance(0.25) ? (int64_t)(uint32_t)(r.pick<uint32_t>({0x80000000u, 0x40000000u, 0x100u, 0x10000u, 0x8000u, 0x80u}) | (uint32_t)r.range(0, 3)) : r.range(0, 15), r.range(0, 2), (int64_t)r.next())); break;
            case 7: p.ops.push_back(Op(OP_READ, r.range(0, MAXP - 1))); break;
            case 8: p.ops.push_back(Op(OP_BACKUP, r.range(0, MAXP - 1))); break;
            case 9: p.ops.push_back(Op(OP_RESTORE, r.range(0, MAXP - 1), r.range(0, 3))); break;
            default: p.ops.push_back(Op(OP_CLONE, r.range(0, MAXP - 1))); break;
        }
    }
    if (p2) p.ops.push_back(Op(OP_CHECK));
}

void run(const Plan &p, Ctx &ctx) {
    static const param_api *const apis[4] = {&param_8, &param_4, &param_2, &param_1};
    const param_api *api = apis[wrapi(p.cfg.empty() ? 0 : p.cfg[0], 0, 3)];
    auto  dp = std::make_unique<Dev>();
    Dev  &d  = *dp;
    d.ctx = &ctx;
    d.api = api;
    size_t np = 0;
    for (auto &o : p.ops) np += o.kind == OP_NEW && np < MAXP;
    if (!np) return;
    std::vector<const Op *> defs;
    for (auto &o : p.ops) if (o.kind == OP_NEW && defs.size() < np) defs.push_back(&o);
    size_t fill = (size_t)wrapi((int)p.cfg.size() > C_FILL ? p.cfg[C_FILL] : 0, 0, MAXFILL);
    for (size_t k = 0; defs.size() < fill; k++) defs.push_back(defs[k % np]);     // a large table repeats the described ones
    np = defs.size();
    if (np > MAXP) { ctx.probe(P_LARGE); ctx.nontrivial = true; }
    d.arr.reset(new char[np * api->handle_size]);
    memset(d.arr.get(), 0x6B, np * api->handle_size);
    Slot blank;
    memset((void *)&blank, 0xC3, sizeof blank);
    for (auto *tab : {&d.val, &d.dmin, &d.dmax}) tab->assign(np, blank);
    d.ps.reserve(np);
    bool p1 = ctx.on("P01"), p2 = ctx.on("P02"), p3 = ctx.on("P03"), p4 = ctx.on("P04");

    for (auto *op : defs) {                      // the table is built first
        const Op &o = *op;
        Par q;
        int i   = (int)d.ps.size();
        q.dev   = &d;
        q.idx   = i;
        q.type  = (int)wrapi(o.a[0] & 0xFF, 0, 9);
        while (TY[q.type].size > api->max_size) q.type = q.type == 9 ? 8 : q.type == 8 ? 1 : q.type - 2;
        q.how   = (int)wrapi(o.a[0] >> 8 & 0xFF, 0, 4);
        q.flags = (int)(o.a[0] >> 16 & 0x1F);
        if (q.how >= 2) q.flags = q.how == 4 ? q.flags & (L_PMIN | L_PMAX) : 0;
        q.min = val(q.type, o.a[1]); q.max = val(q.type, o.a[2]); q.def = val(q.type, o.a[3]); q.step = val(q.type, o.a[4]);
        if (q.how == 2 || q.how == 4) q.step = val(q.type, TY[q.type].fl ? 4 : 1);
        q.mid = q.max;
        if (q.min.fl) q.mid.d = (long double)floor((double)(q.min.d + q.max.d) * 2) / 4;
        else q.mid.i = q.min.i + (q.max.i - q.min.i) / 2;
        q.cur_max = q.max;
        static const unsigned LV[9] = {0, 1, 2, 4, 6, 0x80000000u, 0x40000000u, 0x100u, 0x18080u};
        q.level0 = q.level = LV[wrapi(o.a[0] >> 32, 0, 8)];
        q.data = 1000 + i;
        if (q.flags & L_LINK) {                  // the upper limit is the value of an earlier parameter of the same type
            for (int k = i - 1; k >= 0; k--) if (d.ps[(size_t)k].type == q.type) { q.link = k; break; }
            if (q.link >= 0) ctx.probe(P_LINKED);
        }
        store(q.type, d.val[i].v, q.def);
        store(q.type, d.dmin[i].v, q.min);
        store(q.type, d.dmax[i].v, q.max);
        uint8_t b[4][8];
        store(q.type, b[0], q.min); store(q.type, b[1], q.max); store(q.type, b[2], q.def); store(q.type, b[3], q.step);
        d.ps.push_back(q);
        Par &pp = d.ps.back();
        bool rt = pp.flags & (L_RTMAX | L_RTLVL);
        progress();
        api->build(d.arr.get(), i, q.type, q.how, d.val[i].v, q.flags & L_PMIN ? d.dmin[i].v : nullptr,
                   q.link >= 0 ? d.val[q.link].v : q.flags & L_PMAX ? d.dmax[i].v : nullptr, b[0], b[1], b[2], b[3], q.level0, q.data, rt ? runtime : nullptr, &pp);
        if (TY[q.type].size == 8) ctx.probe(P_64);
        ctx.ev("new", i, q.type, q.how, q.flags);
        if (p1 || p2) if (api->type_of(d.arr.get(), i) != q.type) ctx.fail("type", "parameter %d was declared with the wrong type", i);
    }
    d.wantv = d.val;
    int  n   = (int)d.ps.size();
    void *A  = d.arr.get();
    struct Backup { int of = -1; uint8_t buf[8]; uint8_t copy[8]; };
    std::vector<Backup> backups;
    std::unique_ptr<char[]> spare(new char[api->handle_size]);

    // nothing but the expected values may have moved
    auto settle = [&](const char *what, bool armed) {
        if (d.bad_arg) { if (armed) ctx.fail("runtime-argument", "%s: a runtime hook was given another parameter's handle", what); d.bad_arg = false; }
        for (int i = 0; i < n; i++) {
            if (armed) {
                if (memcmp(&d.val[i], &d.wantv[i], sizeof(Slot))) {
                    V a = d.now(i), b = d.want(i);
                    bool value = memcmp(d.val[i].v, d.wantv[i].v, (size_t)TY[d.ps[(size_t)i].type].size) != 0;
                    ctx.fail(value ? "value" : "overrun", "%s: parameter %d (type %d) is %s instead of %s%s", what, i, d.ps[(size_t)i].type, str(a).c_str(), str(b).c_str(), value ? "" : " (memory beside it)");
                }
            }
            ctx.mix((uint64_t)d.want(i).i + (uint64_t)(int64_t)d.want(i).d);
        }
        d.wantv = d.val;
    };
    // limits in force are usable: ordered and not NaN
    auto usable = [&](const V &lo, const V &hi) { return le(lo, hi); };

    for (auto &o : p.ops) {
        ctx.advance(20000);
        int i = (int)wrapi(o.a[0], 0, n - 1);
        Par &q = d.ps[(size_t)i];
        switch (o.kind) {
            case OP_STEP: {
                int mod = (int)wrapi(o.a[1], INT32_MIN, INT32_MAX);
                for (int64_t rep = clampi(o.a[2], 1, 40); rep > 0; rep--) {
                    V lo = d.lo(i, d.val), hi = d.hi(i, d.val, false), v = d.now(i);
                    // the C arithmetic of the largest operands is not defined for 32 and 64 bit signed values: outside the claim
                    if (!q.min.fl && TY[q.type].sg && TY[q.type].size >= 4) {
                        i128 prod = q.step.i * mod, lim = tmax(q.type);
                        if (prod > lim || prod < -lim) break;
                    }
                    progress();
                    int r = api->op(A, i, mod);
                    V got = d.now(i);
                    ctx.ev("step", i, mod, (int64_t)got.i, (int64_t)got.d);
                    ctx.state((uint64_t)q.type << 8 | (uint64_t)(usable(lo, hi) ? 1 + (eq(got, lo)) * 2 + (eq(got, hi)) * 4 : 0));
                    bool skip = !usable(lo, hi) || mod == 0;
                    if (skip) { memcpy(d.wantv[i].v, d.val[i].v, (size_t)TY[q.type].size); settle("an operator", p1); continue; }
                    if (p1 && r != 0) ctx.fail("return", "the operator returned %d", r);
                    if (p1 && !(le(lo, got) && le(got, hi)))
                        ctx.fail("out-of-limits", "parameter %d (type %d): %+d steps of %s from %s gave %s, outside %s..%s", i, q.type, mod, str(q.step).c_str(), str(v).c_str(), str(got).c_str(), str(lo).c_str(), str(hi).c_str());
                    const V &lim = mod > 0 ? lo : hi;
                    bool ok;
                    if (q.min.fl) {
                        long double x = v.d + q.step.d * mod, tol = (q.type == 8 ? 2e-7L : 1e-15L) * (fabsl(v.d) + fabsl(q.step.d * mod) + fabsl(x));
                        if (std::isnan(x)) ok = eq(got, lim);
                        else if (std::isinf(x) || std::isinf(tol)) ok = eq(got, lim) || (x >= lo.d && x <= hi.d);
                        else if (x > hi.d + tol || x < lo.d - tol) ok = eq(got, lim);
                        else if (x >= lo.d + tol && x <= hi.d - tol) ok = fabsl(got.d - x) <= tol;
                        else ok = eq(got, lim) || fabsl(got.d - x) <= 2 * tol;
                    } else {
                        i128 x = v.i + q.step.i * mod;
                        if (x >= lo.i && x <= hi.i) ok = got.i == x;
                        else {
                            ok = eq(got, lim) || (got.i == wrapt(q.type, x));      // an unrepresentable sum may wrap back into the range
                            ctx.probe(mod > 0 ? P_WRAPMAX : P_WRAPMIN);
                            if (wrapt(q.type, x) != x) { ctx.probe(P_OVERFLOW); ctx.nontrivial = true; }
                        }
                        if (lo.i == tmin(q.type) && hi.i == tmax(q.type)) ctx.probe(P_FULLRANGE);
                    }
                    if (p1 && !ok) ctx.fail("step", "parameter %d (type %d): %+d steps of %s from %s within %s..%s gave %s", i, q.type, mod, str(q.step).c_str(), str(v).c_str(), str(lo).c_str(), str(hi).c_str(), str(got).c_str());
                    memcpy(d.wantv[i].v, d.val[i].v, (size_t)TY[q.type].size);
                    settle("an operator", p1);
                }
                break;
            }
            case OP_CORRUPT: {
                int64_t more = clampi(o.a[3], 0, MAXFILL);     // the damage may run over the following parameters
                for (int first = i; i < n && i <= first + more; i++) {
                Par &q = d.ps[(size_t)i];
                size_t sz = (size_t)TY[q.type].size;
                uint64_t u = 0, x = (uint64_t)o.a[2];
                memcpy(&u, d.val[i].v, sz);
                switch (wrapi(o.a[1], 0, 4)) {
                    case 0: u ^= 1ull << (x % (8 * sz)); ctx.fault(F_BITS); break;
                    case 1: u = x; ctx.fault(F_WILD); break;
                    case 2: u = q.type == 8 ? 0x7FC00000 | (x & 0x803FFFFF) : q.type == 9 ? 0x7FF8000000000000ull | (x & 0x8007FFFFFFFFFFFFull) : ~0ull; ctx.fault(TY[q.type].fl ? F_NAN : F_WILD); break;
                    case 3: u = q.type == 8 ? 0x7F800000 | (x & 0x80000000) : q.type == 9 ? 0x7FF0000000000000ull | (x & 0x8000000000000000ull) : 0; ctx.fault(TY[q.type].fl ? F_INF : F_WILD); break;
                    default: {                    // one past a limit in force
                        V l = x & 1 ? d.lo(i, d.val) : d.hi(i, d.val, false);
                        uint8_t b[8] = {0};
                        if (l.fl) l.d += x & 1 ? -1 : 1; else l.i += x & 1 ? -1 : 1;
                        store(q.type, b, l);
                        memcpy(&u, b, 8);
                        ctx.fault(F_WILD);
                    }
                }
                memcpy(d.val[i].v, &u, sz);
                memcpy(d.wantv[i].v, &u, sz);
                ctx.nontrivial = true;
                ctx.ev("corrupt", i, (int64_t)u);
                }
                break;
            }
            case OP_DYN: {
                if (!(q.flags & (L_PMIN | L_PMAX))) break;
                store(q.type, (o.a[1] & 1) ? d.dmax[i].v : d.dmin[i].v, val(q.type, o.a[2]));
                ctx.fault(F_LIMITS);
                ctx.nontrivial = true;
                ctx.ev("limit", i, o.a[1] & 1, o.a[2]);
                break;
            }
            case OP_MODE:
                d.mode = (unsigned)wrapi(o.a[0], 0, 3);
                if (d.mode & 2) ctx.fault(F_LEVEL);
                if (d.mode & 1) ctx.fault(F_LIMITS);
                ctx.ev("mode", d.mode);
                break;
            case OP_CHECK: {
                int want = 0;
                bool fuzzy = false;
                for (int k = 0; k < n; k++) {     // in table order, each against the limits then in force
                    Par &w = d.ps[(size_t)k];
                    V v = d.want(k), lo = d.lo(k, d.wantv), hi = d.hi(k, d.wantv, true);
                    if (std::isnan((double)lo.d) || std::isnan((double)hi.d)) { fuzzy = true; continue; }
                    if (!(le(lo, v) && le(v, hi))) {
                        want++;
                        store(w.type, d.wantv[k].v, w.def);
                        if (!(le(lo, w.def) && le(w.def, hi))) ctx.probe(P_DEFOUT);
                    }
                }
                if (want > 1) ctx.probe(P_MULTIBAD);
                if (want) ctx.nontrivial = true;
                progress();
                int r = api->check(A, (size_t)n);
                ctx.ev("check", r, want);
                if (fuzzy) { d.wantv = d.val; break; }
                settle("the range check", p2);
                if (p2 && r != want) ctx.fail("count", "the range check reported %d corrected parameters, %d were out of range", r, want);
                break;
            }
            case OP_RESET:
                for (int k = 0; k < n; k++) store(d.ps[(size_t)k].type, d.wantv[k].v, d.ps[(size_t)k].def);
                progress();
                api->reset(A, (size_t)n);
                ctx.ev("reset");
                settle("the reset to defaults", p2);
                break;
            case OP_ENUM: {
                unsigned al = (unsigned)o.a[0];
                std::vector<int> seen;
                for (int k = 0; k < n; k++) {
                    Par &w = d.ps[(size_t)k];
                    unsigned lv = w.flags & L_RTLVL ? d.mode_level(w) : w.level;
                    if (lv == 0 || (lv & al)) seen.push_back(k); else { ctx.probe(P_HIDDEN); ctx.nontrivial = true; }
                    if (lv == 0) ctx.probe(P_FREE);
                }
                if (al == 0) ctx.probe(P_NULLAL);
                if (wrapi(o.a[1], 0, 2) == 1) {              // fetched without having been counted
                    int k = (int)wrapi(o.a[2], 0, n - 1);
                    progress();
                    void *h = api->get(A, (size_t)n, (size_t)k, al), *w = k < (int)seen.size() ? d.handle(seen[(size_t)k]) : nullptr;
                    ctx.probe(P_FIRSTGET);
                    if (p3 && h != w) ctx.fail("enumeration", "the accessible parameter number %d at access level %x is not the one expected (%d of %d accessible)", k, al, (int)seen.size(), n);
                }
                progress();
                size_t c = api->count(A, (size_t)n, al);
                ctx.ev("enum", al, (int64_t)c, (int64_t)seen.size());
                if (p3 && c != seen.size()) ctx.fail("count", "%zu parameters are counted at access level %x, %zu are accessible", c, al, seen.size());
                for (int k = 0; k < n; k++) {
                    progress();
                    void *h = api->get(A, (size_t)n, (size_t)k, al);
                    void *w = k < (int)seen.size() ? d.handle(seen[(size_t)k]) : nullptr;
                    if (p3 && h != w) ctx.fail("enumeration", "the accessible parameter number %d at access level %x is not the one expected (%d of %d accessible)", k, al, (int)seen.size(), n);
                    if (p3 && h && api->user(A, seen[(size_t)k]) != d.ps[(size_t)seen[(size_t)k]].data) ctx.fail("user-data", "parameter %d carries another one's user data", seen[(size_t)k]);
                }
                settle("an enumeration", p3);
                break;
            }
            case OP_READ: {
                V v = d.now(i);
                progress();
                int64_t l = api->to_long(A, i);
                ctx.ev("read", i, l);
                if (!v.fl && v.i <= INT64_MAX) {
                    if (p4 && l != (int64_t)v.i) ctx.fail("to-long", "parameter %d (type %d) holds %s and reads as %lld", i, q.type, str(v).c_str(), (long long)l);
                    if (v.i >= 0) {
                        uint64_t x = api->to_index(A, i);
                        if (p4 && x != (uint64_t)v.i) ctx.fail("to-index", "parameter %d (type %d) holds %s and its index is %llu", i, q.type, str(v).c_str(), (unsigned long long)x);
                        int b = api->to_bool(A, i);
                        if (p4 && (b != 0) != (v.i != 0)) ctx.fail("to-bool", "parameter %d holds %s and its truth value is %d", i, str(v).c_str(), b);
                    }
                }
                V lo = d.lo(i, d.val), hi = d.hi(i, d.val, false);
                if (!v.fl && usable(lo, hi) && hi.i - lo.i < (i128)UINT64_MAX) {
                    uint64_t tv = api->total(A, i);
                    if (p4 && tv != (uint64_t)(hi.i - lo.i + 1)) ctx.fail("total", "parameter %d can take %s..%s and %llu values are reported", i, str(lo).c_str(), str(hi).c_str(), (unsigned long long)tv);
                }
                char out[400], want[400], fmt[16];
                if (v.fl) { snprintf(fmt, sizeof fmt, "<%%.3f>"); snprintf(want, sizeof want, fmt, (double)v.d); }
                else {
                    snprintf(fmt, sizeof fmt, TY[q.type].size == 8 ? (TY[q.type].sg ? "<%%ld>" : "<%%lu>") : TY[q.type].sg ? "<%%i>" : "<%%u>");
                    snprintf(want, sizeof want, "<%s>", str(v).c_str());
                }
                if (!v.fl || fabsl(v.d) < 1e30L) {
                    api->format(A, i, out, fmt);
                    if (p4 && strcmp(out, want)) ctx.fail("format", "parameter %d (type %d) is printed as %s instead of %s", i, q.type, out, want);
                }
                settle("a read", p4);
                break;
            }
            case OP_BACKUP: {
                Backup b;
                b.of = i;
                memset(b.buf, 0xB7, 8);
                memcpy(b.copy, b.buf, 8);
                memcpy(b.copy, d.val[i].v, (size_t)TY[q.type].size);
                // a clone that lives in a separate buffer
                progress();
                std::unique_ptr<char[]> two(new char[2 * api->handle_size]);
                memcpy(two.get(), d.handle(i), api->handle_size);
                memset(two.get() + api->handle_size, 0x21, api->handle_size);
                api->clone_buf(two.get(), 1, 0, b.buf);
                if (p4 && memcmp(b.buf, b.copy, 8)) ctx.fail("backup", "the clone of parameter %d (type %d) does not hold its value", i, q.type);
                if (p4 && (api->ptr_of(two.get(), 1) != (void *)b.buf || api->type_of(two.get(), 1) != q.type || api->user(two.get(), 1) != q.data)) ctx.fail("clone", "the clone of parameter %d is not one", i);
                ctx.ev("backup", i);
                settle("a backup", p4);
                backups.push_back(b);
                if (backups.size() > 4) backups.erase(backups.begin());
                break;
            }
            case OP_RESTORE: {
                if (backups.empty()) break;
                Backup &b = backups[(size_t)wrapi(o.a[1], 0, (int64_t)backups.size() - 1)];
                int src = b.of;
                std::unique_ptr<char[]> two(new char[2 * api->handle_size]);
                memcpy(two.get(), d.handle(i), api->handle_size);
                memcpy(two.get() + api->handle_size, d.handle(src), api->handle_size);
                memcpy(b.buf, b.copy, 8);
                std::unique_ptr<char[]> mid(new char[api->handle_size]);
                progress();
                // handle of the backup: the source's handle pointed at the buffer
                uint8_t tmp[8];
                memcpy(tmp, b.copy, 8);
                std::unique_ptr<char[]> three(new char[2 * api->handle_size]);
                memcpy(three.get(), two.get() + api->handle_size, api->handle_size);
                uint8_t hold[8];
                api->clone_buf(three.get(), 1, 0, hold);        // a handle with its own storage, then the saved value in it
                memcpy(hold, tmp, 8);
                memcpy(two.get() + api->handle_size, three.get() + api->handle_size, api->handle_size);
                int r = api->copy(two.get(), 0, 1);
                bool ok = d.ps[(size_t)src].type == q.type;
                ctx.ev("restore", i, src, r);
                if (p4 && (r == 0) != ok) ctx.fail("return", "copying a parameter of type %d into one of type %d returned %d", d.ps[(size_t)src].type, q.type, r);
                if (ok) { memcpy(d.wantv[i].v, tmp, (size_t)TY[q.type].size); ctx.probe(P_RESTORED); ctx.nontrivial = true; }
                if (p4 && (api->copy(two.get(), -1, 1) == 0 || api->copy(two.get(), 0, -1) == 0)) ctx.fail("return", "copying to or from nothing was reported as done");
                settle("a restore", p4);
                break;
            }
            case OP_CLONE: {
                uint8_t buf[16];
                memset(buf, 0x3D, sizeof buf);
                std::unique_ptr<char[]> two(new char[2 * api->handle_size]);
                memcpy(two.get(), d.handle(i), api->handle_size);
                progress();
                api->clone(two.get(), 1, 0, buf);
                size_t sz = (size_t)TY[q.type].size;
                ctx.ev("clone", i);
                if (p4) {
                    if (memcmp(buf, d.val[i].v, sz)) ctx.fail("clone", "the clone of parameter %d (type %d) does not hold its value", i, q.type);
                    for (size_t k = sz; k < sizeof buf; k++) if (buf[k] != 0x3D) ctx.fail("overrun", "cloning parameter %d (type %d) wrote past its value", i, q.type);
                    if (api->ptr_of(two.get(), 1) != (void *)buf || api->type_of(two.get(), 1) != q.type) ctx.fail("clone", "the clone of parameter %d is not one", i);
                }
                settle("a clone", p4);
                break;
            }
            default: break;
        }
    }
}

Scenario sc() {
    Scenario s;
    s.name = "parameter_table";
    s.props = {"P01", "P02", "P03", "P04"};
    s.cfg_names = {"variant", "fill"};
    s.op_names = {"new", "step", "corrupt", "move-limit", "mode", "check-ranges", "reset", "enumerate", "read", "backup", "restore", "clone"};
    s.fault_names = {"bit flip in a parameter's memory", "NaN written over a parameter", "infinity written over a parameter", "limit moved under a parameter", "wild value written over a parameter", "access level changed by a hook"};
    s.probe_names = {"step past the maximum", "step past the minimum", "sum not representable in the type", "range covers the whole type", "64-bit parameter", "limit linked to another parameter",
                     "default outside the limits in force", "hidden parameter", "free-access parameter", "enumeration without any access level", "value restored", "several corrupted at once", "large table", "fetched before counting"};
    s.rule = "a case is one seed: a table of parameters of mixed types built with the library's macros, then operator steps, moving limits, memory corruption, range checks, enumerations and "
             "backups; non-trivial when memory was corrupted, a limit moved, a sum overflowed, a parameter was hidden or restored";
    s.state_measure = "type x position of the value relative to the limits in force after each step";
    s.real_components = {"gel/parameter/parameter.c and parameter.h macros, built for maximum sizes 8, 4, 2 and 1 (clang -O1, AddressSanitizer)"};
    s.stub_components = {"device memory holding the parameters", "runtime hooks of the application"};
    s.twin = true;
    s.twin_cfg = {C_VARIANT};
    s.edge_budget = 20000000;
    s.long_ops = 20000;
    s.gen = gen;
    s.run = run;
    return s;
}
Registrar r1(sc());
BudgetReg b({{"P01", 1500000, 55000000}, {"P02", 1500000, 55000000}, {"P03", 1500000, 60000000}, {"P04", 1500000, 60000000}});
}   // namespace
