// Deterministic simulation core: one seed -> one explicit plan (configuration, operations, faults and
// scheduling decisions all written out) -> one exactly repeatable execution.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace sim {

struct Rng {
    uint64_t s[4];
    explicit Rng(uint64_t seed = 1) { reseed(seed); }
    static uint64_t splitmix(uint64_t &x) {
        uint64_t z = (x += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    void reseed(uint64_t seed) {
        for (auto &v : s) v = splitmix(seed);
    }
    uint64_t next() {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }   // inclusive
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    // index drawn with the given integer weights
    int weighted(std::initializer_list<int> w) {
        int64_t tot = 0;
        for (int x : w) tot += x;
        int64_t r = (int64_t)below((uint64_t)tot);
        int i = 0;
        for (int x : w) { if (r < x) return i; r -= x; i++; }
        return 0;
    }
};

enum { NARGS = 6 };
struct Op {
    int     kind = 0;
    int64_t a[NARGS] = {0};
    Op() {}
    Op(int k, int64_t x0 = 0, int64_t x1 = 0, int64_t x2 = 0, int64_t x3 = 0, int64_t x4 = 0, int64_t x5 = 0) : kind(k) {
        a[0] = x0; a[1] = x1; a[2] = x2; a[3] = x3; a[4] = x4; a[5] = x5;
    }
};
struct Plan {
    std::vector<int64_t> cfg;
    std::vector<Op>      ops;
    // a second instance of the scenario living in the same process (0: none), its history, and the seed of the
    // interleaving of the two
    int64_t              twin = 0;
    std::vector<int64_t> cfg2;
    std::vector<Op>      ops2;
};

struct Violation {
    std::string cls, msg;
};

enum { MAXCNT = 48 };
struct Ctx {
    std::string target;          // the property whose oracles are armed in this run
    uint64_t    hash = 0x51ED270B0A5C3B1Dull;
    uint64_t    events = 0;
    uint64_t    sim_us = 0;
    uint64_t    faults[MAXCNT] = {0};
    uint64_t    probes[MAXCNT] = {0};
    bool        nontrivial = false;
    FILE       *log = nullptr;   // verbose event log (never influences the run)
    uint8_t    *statemap = nullptr;

    bool on(const char *p) const { return target == p; }
    void ev(const char *tag, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0) {
        for (const char *t = tag; *t; t++) mix((uint8_t)*t);
        mix((uint64_t)a); mix((uint64_t)b); mix((uint64_t)c); mix((uint64_t)d);
        events++;
        if (log) fprintf(log, "  %-18s %lld %lld %lld %lld\n", tag, (long long)a, (long long)b, (long long)c, (long long)d);
    }
    void mix(uint64_t v) {
        hash ^= v + 0x9E3779B97F4A7C15ull + (hash << 6) + (hash >> 2);
        hash *= 0xD6E8FEB86659FD93ull;
        hash ^= hash >> 32;
    }
    void fault(int id) { faults[id]++; }
    void probe(int id) { probes[id]++; }
    void advance(uint64_t us) { sim_us += us; }
    void state(uint64_t fp);     // abstract state fingerprint reached
    [[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    // oracle of property `prop`: evaluated only when that property is the one under check
    #define SIM_CHECK(ctx, prop, cond, cls, ...) do { if ((ctx).on(prop) && !(cond)) (ctx).fail(cls, __VA_ARGS__); } while (0)
};

struct Scenario {
    std::string              name;
    std::vector<std::string> props;       // properties it has oracles for
    std::vector<std::string> cfg_names, op_names, fault_names, probe_names;
    std::string              rule;        // what a case is, and what makes it non-trivial
    std::string              state_measure;
    std::vector<std::string> real_components, stub_components;
    int                      weight = 1;          // share of the runs of a property
    bool                     twin = false;        // a second instance may live beside the first, interleaved at progress() marks
    std::vector<int>         twin_cfg;            // configuration entries the second instance shares with the first
    int64_t                  long_ops = 60000;    // operations of an endurance run (up to; a few of them 6 times longer)
    uint64_t                 edge_budget = 20000000; // instrumented edges allowed between two progress() marks
    std::function<void(Rng &, Plan &, int tier, const std::string &prop)> gen;
    std::function<void(const Plan &, Ctx &)>                              run;
};

void register_scenario(Scenario s);
struct Registrar { Registrar(Scenario s) { register_scenario(std::move(s)); } };

// hang detection: real code under test is edge-instrumented; progress() restarts its budget
extern uint64_t g_edges, g_edge_limit;
void progress();
int  instance();                              // 0, or 1 inside the second instance
void per_instance(void *p, size_t n);         // a variable of the harness of which each instance has its own
struct PerInstance { PerInstance(void *p, size_t n) { per_instance(p, n); } };

// number of simulated runs for a property
struct Budget { const char *prop; long quick, thorough; };
void set_budget(const char *prop, long quick, long thorough);
struct BudgetReg { BudgetReg(std::initializer_list<Budget> l) { for (auto &b : l) set_budget(b.prop, b.quick, b.thorough); } };

inline int64_t clampi(int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : v > hi ? hi : v; }
// total mapping of any plan integer into [lo,hi]: plans stay executable whatever the minimiser does to them
inline int64_t wrapi(int64_t v, int64_t lo, int64_t hi) {
    if (v >= lo && v <= hi) return v;
    uint64_t n = (uint64_t)(hi - lo) + 1;
    return n ? lo + (int64_t)((uint64_t)v % n) : v;
}

}   // namespace sim
