// PID controller closed around a simulated plant with a faulty sensor (R01).
#include <algorithm>
#include <cmath>
#include <deque>
#include <memory>
#include "sim.h"
#include "pid_api.h"
using namespace sim;

namespace {
enum { OR_TUNE, OR_SP, OR_INPUT, OR_RUN, OR_CLEAR, OR_THR, OR_ENABLE, OR_INIT, OR_PLANT };
enum { C_VARIANT, C_DIRTY, C_CNT };
enum { F_SPIKE, F_STUCK, F_DROPOUT, F_SPJUMP, F_SPCROSS, F_PLANTJUMP };
enum { P_FULL, P_ZERO, P_NULLED, P_AUTOCLEAR, P_DTHR, P_FIRST, P_SIGN, P_EDGE };

void gen(Rng &r, Plan &p, int tier, const std::string &) {
    p.cfg = {r.weighted({30, 30, 36, 6, 4}), r.pick({0, 255, 0xA5})};
    int n = (int)r.range(4, tier ? 50 : 30);
    int big = p.cfg[C_VARIANT] == 4 ? 760 : 210;
    auto gain = [&]() -> int64_t { return r.chance(0.25) ? 0 : r.chance(0.5) ? r.range(1, 200) : r.range(-1000, 1000); };     // hundredths
    p.ops.push_back(Op(OR_TUNE, gain(), gain(), gain()));
    p.ops.push_back(Op(OR_SP, r.chance(0.5) ? 100 : r.range(-1000, 1000)));
    for (int i = 0; i < n; i++) {
        switch (r.weighted({2, 3, 8, 6, 1, 3, 3, 0, 1})) {
            case 0: p.ops.push_back(Op(OR_TUNE, gain(), gain(), gain())); break;
            case 1: p.ops.push_back(Op(OR_SP, r.chance(0.6) ? r.range(-120, 120) : r.range(-20000, 20000))); break;
            // near the set point (a3 = 1: a1 is the error), or anywhere
            case 2: p.ops.push_back(Op(OR_INPUT, r.range(1, r.chance(0.2) ? big : 6), r.chance(0.6) ? r.range(-3, 3) : r.chance(0.7) ? r.range(-200, 200) : r.range(-40000, 40000), r.chance(0.3) ? r.range(-5, 5) : 0, r.chance(0.7))); break;
            case 3: p.ops.push_back(Op(OR_RUN, r.range(1, r.chance(0.2) ? big + 20 : 20), r.weighted({6, 2, 1, 2}), (int64_t)r.next(), r.range(1, 16))); break;
            case 4: p.ops.push_back(Op(OR_CLEAR)); break;
            case 5: p.ops.push_back(Op(OR_THR, r.range(0, 2), r.chance(0.6) ? r.range(0, 10) : r.range(0, 300))); break;
            case 6: p.ops.push_back(Op(OR_ENABLE, r.range(0, 3), r.range(0, 1) | (r.chance(0.8) ? 1 : r.pick<int64_t>({2, -1, 256, 65536, 1 << 30})) * 2)); break;
            default: p.ops.push_back(Op(OR_PLANT, r.range(-2000, 2000))); break;
        }
    }
}

struct Model {
    bool   fl;
    int    H, D;
    float  kp = 0, ki = 0, kd = 0;
    double sp = 0, in = 0, lo = 0, hi = 0, dl = 0;
    bool   elo = false, ehi = false, ed = false, autoc = false, first = false;
    int    sign = 0;
    std::deque<double> rec, der;
    double err() const { return sp - in; }
    double isum() const { double s = 0; for (double x : rec) s += x; return s; }
    double iabs() const { double s = 0; for (double x : rec) s += fabs(x); return s; }
};

void run(const Plan &p, Ctx &ctx) {
    static const pid_api *const apis[5] = {&pid_int, &pid_flt, &pid_small, &pid_one, &pid_long};
    auto cfg = [&](int i) { return i < (int)p.cfg.size() ? p.cfg[(size_t)i] : 0; };
    const pid_api *api = apis[wrapi(cfg(C_VARIANT), 0, 4)];
    std::unique_ptr<char[]> mem(new char[api->size]);
    memset(mem.get(), (int)wrapi(cfg(C_DIRTY), 0, 255), api->size);
    void *c = mem.get();
    Model m{};
    m.fl = api->isfloat; m.H = api->hist; m.D = api->delta;
    progress();
    api->init(c);
    double plant = 0;
    const char *P = "R01";

    auto check = [&](const char *what) {
        double e = m.err(), t[4], tol[4];
        t[1] = (double)m.kp * e;
        t[2] = (double)m.ki * m.isum();
        t[3] = 0;
        if (!m.der.empty() && !(m.ed && fabs(e) > m.dl)) t[3] = (double)m.kd * (e - m.der.front());
        else if (!m.der.empty()) ctx.probe(P_DTHR);
        double unit = m.fl ? 1e-6 : 1.0;
        tol[1] = unit + 1e-5 * fabs(t[1]);
        tol[2] = unit + 1e-5 * fabs(t[2]) + (m.fl ? 1e-5 * fabs((double)m.ki) * m.iabs() : 0);
        tol[3] = unit + 1e-5 * (fabs(t[3]) + fabs((double)m.kd * e));
        t[0] = t[1] + t[2] + t[3];
        tol[0] = tol[1] + tol[2] + tol[3];
        progress();
        double er = api->compute(c, 4);
        SIM_CHECK(ctx, P, fabs(er - e) <= (m.fl ? 1e-5 * (fabs(m.sp) + fabs(m.in)) : 0), "error", "after %s the error is %g instead of %g", what, er, e);
        static const char *const nm[4] = {"output", "proportional term", "integral term", "derivative term"};
        for (int k = 1; k <= 4; k++) {
            int    w = k & 3;
            double g = api->compute(c, w);
            SIM_CHECK(ctx, P, fabs(g - t[w]) <= tol[w], w == 0 ? "output" : w == 1 ? "proportional" : w == 2 ? "integral" : "derivative",
                      "after %s the %s is %g, the inputs make it %g", what, nm[w], g, t[w]);
            ctx.ev("term", w, (int64_t)g);
        }
        ctx.state((uint64_t)m.rec.size() << 16 | (uint64_t)m.der.size() << 8 | (uint64_t)(m.sign + 1) << 4 | (uint64_t)m.autoc << 3 | (uint64_t)m.elo << 2 | (uint64_t)m.ehi << 1 | m.ed);
    };
    auto input = [&](double v) {
        v = std::max(-50000.0, std::min(50000.0, v));
        if (!m.fl) v = trunc(v); else v = round(v * 16) / 16;      // every error is exact in a float, thresholds are met or not
        double olderr = m.err();
        m.in = v;
        double e = m.err();
        int s = e > 0 ? 1 : e < 0 ? -1 : m.sign;
        if (s != m.sign) {
            if (m.sign) ctx.probe(P_SIGN);
            m.sign = s;
            if (m.autoc) { m.rec.clear(); ctx.probe(P_AUTOCLEAR); }
        }
        double w = e;
        if (e > 0 && m.elo && !(e < m.lo)) w = 0;
        if (e < 0 && m.ehi && !(-e < m.hi)) w = 0;
        if (e == 0) ctx.probe(P_ZERO);
        if (w != e) ctx.probe(P_NULLED);
        if (m.elo && e == m.lo) ctx.probe(P_EDGE);
        m.rec.push_back(w);
        if ((int)m.rec.size() > m.H) { m.rec.pop_front(); ctx.probe(P_FULL); ctx.nontrivial = true; }
        if (m.first) {
            m.der.push_back(olderr);
            if ((int)m.der.size() > m.D) m.der.pop_front();
        } else ctx.probe(P_FIRST);
        m.first = true;
        progress();
        api->input(c, v);
        ctx.advance(100000);
        ctx.ev("input", (int64_t)v);
    };

    check("init");
    for (auto &o : p.ops) {
        switch (o.kind) {
            case OR_TUNE: {
                auto g = [&](int i) { return (double)(float)((double)wrapi(o.a[i], -1000, 1000) / 100); };
                m.kp = (float)g(0); m.ki = (float)g(1); m.kd = (float)g(2);
                progress();
                api->tune(c, m.kp, m.ki, m.kd);
                ctx.ev("tune");
                check("tuning");
                break;
            }
            case OR_SP: {
                double v = (double)wrapi(o.a[0], -50000, 50000);
                double b = m.err();
                m.sp = v;
                if (b * m.err() < 0) ctx.fault(F_SPCROSS);
                ctx.fault(F_SPJUMP);
                progress();
                api->sp(c, v);
                ctx.ev("sp", (int64_t)v);
                check("a set point change");
                break;
            }
            case OR_INPUT: {
                double v = (double)clampi(o.a[1], -50000, 50000);
                for (int64_t k = clampi(o.a[0], 1, 800); k > 0; k--) {
                    input((o.a[3] & 1) ? m.sp - v : v);
                    v += (double)clampi(o.a[2], -100, 100);
                    check("an input");
                }
                break;
            }
            case OR_RUN: {        // closed loop: the plant follows the output; the sensor may be stuck, spike or drop out
                uint64_t seed = (uint64_t)o.a[2];
                int64_t  fk   = wrapi(o.a[1], 0, 3), tau = clampi(o.a[3], 1, 64);
                double   stuck = plant;
                for (int64_t k = clampi(o.a[0], 1, 800); k > 0; k--) {
                    double u = api->compute(c, 0);
                    plant += (u - plant) / (double)tau;
                    if (!(fabs(plant) < 50000)) plant = plant > 0 ? 50000 : -50000;
                    uint64_t x = Rng::splitmix(seed);
                    double   meas = plant + (double)(int64_t)(x % 5) - 2;
                    if (fk == 1 && x >> 32 & 1) { ctx.fault(F_DROPOUT); ctx.nontrivial = true; check("a missing reading"); continue; }
                    if (fk == 2) { ctx.fault(F_STUCK); ctx.nontrivial = true; meas = stuck; }
                    if (fk == 3 && (x >> 40) % 5 == 0) { ctx.fault(F_SPIKE); ctx.nontrivial = true; meas = (double)(int64_t)(x % 90000) - 45000; }
                    input(meas);
                    check("a control step");
                }
                break;
            }
            case OR_CLEAR: m.rec.clear(); progress(); api->clear(c); ctx.ev("clear"); check("clearing the integral"); break;
            case OR_THR: {
                int    w = (int)wrapi(o.a[0], 0, 2);
                double v = (double)wrapi(o.a[1], 0, 100000);
                (w == 0 ? m.hi : w == 1 ? m.lo : m.dl) = v;
                progress();
                api->thr(c, w, (uint64_t)v);
                check("setting a threshold");
                break;
            }
            case OR_ENABLE: {
                int  w = (int)wrapi(o.a[0], 0, 3);
                bool on = o.a[1] & 1;
                (w == 0 ? m.ehi : w == 1 ? m.elo : w == 2 ? m.ed : m.autoc) = on;
                progress();
                api->enable(c, w, on ? (o.a[1] >> 1 ? (int)(o.a[1] >> 1) : 1) : 0);     // any non-zero number enables
                check("enabling a threshold");
                break;
            }
            case OR_PLANT: plant = (double)wrapi(o.a[0], -20000, 20000); ctx.fault(F_PLANTJUMP); break;
            default: break;
        }
    }
}

Scenario sc() {
    Scenario s;
    s.name = "control_loop";
    s.props = {"R01"};
    s.cfg_names = {"variant", "dirty"};
    s.op_names = {"tune", "set-point", "inputs", "closed-loop", "clear-integral", "threshold", "enable", "-", "plant-disturbance"};
    s.fault_names = {"sensor spike", "sensor stuck", "sensor reading missing", "set point jump", "set point jump across the measurement", "plant disturbance"};
    s.probe_names = {"integral window full", "input exactly on the set point", "error over its integral threshold", "integral cleared by a sign change", "derivative suppressed by its threshold",
                     "first input", "error changed sign", "error exactly at the threshold"};
    s.rule = "a case is one seed: gains, set points, thresholds and a history of inputs, open loop or closed around a first-order plant with a faulty sensor; non-trivial when the integral window "
             "overflowed or a sensor fault fired";
    s.state_measure = "recorded errors x derivative history x last sign x enabled options";
    s.real_components = {"gel/pid/pid.c built for int and float, with windows of 200, 4, 1 and 700 errors and derivatives over 5, 2, 1 and 300 (clang -O1, AddressSanitizer)"};
    s.stub_components = {"plant, actuator and sensor"};
    s.twin = true;
    s.twin_cfg = {C_VARIANT};
    s.edge_budget = 20000000;
    s.long_ops = 5000;
    s.gen = gen;
    s.run = run;
    return s;
}
Registrar r1(sc());
BudgetReg b({{"R01", 250000, 6000000}});
}   // namespace
