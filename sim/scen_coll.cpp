// Message queues (Q01), stacks (Q02) and intrusive lists (Q03) shared by simulated tasks that a seeded
// scheduler interleaves call by call: bursts, overruns, starved consumers, index wrap-around, node migration.
#include <algorithm>
#include <deque>
#include <memory>
#include "sim.h"
#include "coll_api.h"
using namespace sim;

namespace {
// a container in its own heap block: AddressSanitizer sees any access past its end
struct Block {
    std::unique_ptr<uint8_t[]> m;
    void *make(size_t n, int fill) {
        m.reset(new uint8_t[n]);
        memset(m.get(), fill, n);
        return m.get();
    }
};
struct Item {
    size_t  len;
    uint8_t b[16];
    explicit Item(size_t l = 0, uint8_t fill = 0) : len(l) { memset(b, 0, sizeof b); memset(b, fill, l); }
    uint8_t *data() { return b; }
    bool operator==(const Item &o) const { return !memcmp(b, o.b, 16); }
};
struct Ring {      // a deque without allocation
    std::vector<Item> v;
    size_t            h = 0, n = 0;
    void cap(size_t c) { size_t k = 1; while (k < c + 1) k *= 2; v.resize(k); clear(); }
    size_t size() const { return n; }
    bool   empty() const { return !n; }
    Item  &front() { return v[h]; }
    Item  &back() { return v[(h + n - 1) & (v.size() - 1)]; }
    void   push_back(const Item &x) { v[(h + n++) & (v.size() - 1)] = x; }
    void   pop_front() { h = (h + 1) & (v.size() - 1); n--; }
    void   pop_back() { n--; }
    void   clear() { h = n = 0; }
};
struct ItemGen {
    uint64_t n = 0;
    Item make(size_t len) {
        Item  v(len);
        uint64_t x = ++n * 0x9E3779B97F4A7C15ull + 0x1234567;
        for (size_t i = 0; i < len; i++) { if (i == 8) x = x * 0x2545F4914F6CDD1Dull + 1; v.b[i] = (uint8_t)(x >> (8 * (i % 8))); }
        if (len >= 2) { v.b[0] = (uint8_t)n; v.b[1] = (uint8_t)(n >> 8); }
        else v.b[0] = (uint8_t)(n ^ (n >> 8));
        return v;
    }
};

// ------------------------------------------------------------------------------------------------ queue
enum { OQ_ENQ, OQ_DEQ, OQ_DROP, OQ_CHURN, OQ_BURST, OQ_DRAIN, OQ_INIT, OQ_Q };
enum { CQ_N, CQ_A, CQ_B, CQ_DIRTY, CQ_CNT };
enum { FQ_OVERRUN, FQ_STARVE, FQ_WRAP };
enum { PQ_FULL, PQ_EMPTY, PQ_WRAPFULL, PQ_TWO, PQ_CAP1 };
void gen_q(Rng &r, Plan &p, int tier, const std::string &) {
    p.cfg.resize(CQ_CNT);
    p.cfg[CQ_N]     = r.chance(0.3) ? 2 : 1;
    bool big        = r.chance(0.04);
    p.cfg[CQ_A]     = big ? r.range(6, 8) : r.range(0, 5);
    p.cfg[CQ_B]     = r.range(0, 5);
    p.cfg[CQ_DIRTY] = r.pick({0, 255, 0xA5});
    int n = (int)r.range(4, tier ? 60 : 40);
    if (r.chance(0.05))      // long uptime: the running indexes are about to wrap
        for (int64_t q = 0; q < p.cfg[CQ_N]; q++) p.ops.push_back(Op(OQ_CHURN, q, 65536 - r.range(0, 40), r.range(0, 3)));
    for (int i = 0; i < n; i++) {
        int64_t q = r.range(0, 1), cap = 1 << r.range(0, big ? 11 : 6);
        switch (r.weighted({10, 8, 2, 1, 4, 3, 1, 3})) {
            case 0: p.ops.push_back(Op(OQ_ENQ, q)); break;
            case 1: p.ops.push_back(Op(OQ_DEQ, q, r.chance(0.1))); break;
            case 2: p.ops.push_back(Op(OQ_DROP, q)); break;
            case 3: p.ops.push_back(Op(OQ_CHURN, q, r.range(1, 300), r.range(0, 8))); break;
            case 4: p.ops.push_back(Op(OQ_BURST, q, r.chance(0.15) ? 40000 : r.range(1, cap + 2))); break;
            case 5: p.ops.push_back(Op(OQ_DRAIN, q, r.chance(0.15) ? 40000 : r.range(1, cap + 2))); break;
            case 6: p.ops.push_back(Op(OQ_INIT, q)); break;
            default: p.ops.push_back(Op(OQ_Q, q)); break;
        }
    }
}
struct Queue {
    const queue_api *a;
    Block            blk;
    void            *q;
    Ring             m;
    uint64_t         enq = 0;
};
void run_q(const Plan &p, Ctx &ctx) {
    auto cfg = [&](int i) { return i < (int)p.cfg.size() ? p.cfg[(size_t)i] : 0; };
    int    nq = (int)wrapi(cfg(CQ_N), 1, 2);
    Queue  qs[2];
    ItemGen ig;
    const char *P = "Q01";
    int64_t budget = 400000;     // elements moved per run, at most
    for (int i = 0; i < nq; i++) {
        qs[i].a = &g_queues[wrapi(cfg(i ? CQ_B : CQ_A), 0, g_nqueues - 1)];
        qs[i].m.cap(qs[i].a->cap);
        qs[i].q = qs[i].blk.make(qs[i].a->size, (int)wrapi(cfg(CQ_DIRTY), 0, 255));
        progress();
        qs[i].a->init(qs[i].q);
        if (qs[i].a->cap == 1) ctx.probe(PQ_CAP1);
    }
    if (nq == 2) ctx.probe(PQ_TWO);
    auto check = [&](Queue &Q) {
        progress();
        size_t c = Q.a->count(Q.q), n = Q.m.size();
        int    e = Q.a->is_empty(Q.q), f = Q.a->is_full(Q.q);
        SIM_CHECK(ctx, P, c == n, "count", "%s: count is %zu with %zu messages waiting (after %llu sent)", Q.a->name, c, n, (unsigned long long)Q.enq);
        SIM_CHECK(ctx, P, !!e == (n == 0), "empty", "%s: is_empty is %d with %zu messages waiting", Q.a->name, e, n);
        SIM_CHECK(ctx, P, !!f == (n == Q.a->cap), "full", "%s: is_full is %d with %zu of %zu messages waiting", Q.a->name, f, n, Q.a->cap);
        ctx.state((uint64_t)(Q.a - g_queues) << 40 | (uint64_t)n << 16 | (Q.enq & 0xFFFF));
    };
    auto enq = [&](Queue &Q) {
        Item v = ig.make(Q.a->item), arg = v;
        progress();
        int  r  = Q.a->enqueue(Q.q, arg.data());
        bool ok = Q.m.size() < Q.a->cap;
        if (!ok) { ctx.fault(FQ_OVERRUN); ctx.probe(PQ_FULL); ctx.nontrivial = true; if ((Q.enq & 0xFFFF) < Q.a->cap && Q.enq > 65535) ctx.probe(PQ_WRAPFULL); }
        SIM_CHECK(ctx, P, (r == 0) == ok, "accept", "%s: a message was %s with %zu of %zu waiting", Q.a->name, r ? "refused" : "accepted", Q.m.size(), Q.a->cap);
        SIM_CHECK(ctx, P, arg == v, "argument", "%s: the sender's message was modified", Q.a->name);
        if (ok) {
            Q.m.push_back(v);
            if ((++Q.enq & 0xFFFF) == 0) { ctx.fault(FQ_WRAP); ctx.nontrivial = true; }
        }
        budget--;
    };
    auto deq = [&](Queue &Q, int how) {      // 0 dequeue, 1 dequeue without a place for the message, 2 drop
        Item v(Q.a->item, 0xEE), untouched = v;
        progress();
        int  r  = how == 2 ? Q.a->drop(Q.q) : Q.a->dequeue(Q.q, how ? nullptr : v.data());
        bool ok = !Q.m.empty();
        if (!ok) { ctx.fault(FQ_STARVE); ctx.probe(PQ_EMPTY); }
        SIM_CHECK(ctx, P, (r == 0) == ok, "deliver", "%s: receiving %s with %zu messages waiting", Q.a->name, r ? "found nothing" : "succeeded", Q.m.size());
        if (!how) SIM_CHECK(ctx, P, v == (ok ? Q.m.front() : untouched), "fifo", "%s: another message than the oldest was delivered (%zu waiting, %llu sent)", Q.a->name, Q.m.size(), (unsigned long long)Q.enq);
        if (ok) Q.m.pop_front();
        budget--;
    };
    for (auto &o : p.ops) {
        Queue &Q = qs[wrapi(o.a[0], 0, nq - 1)];
        switch (o.kind) {
            case OQ_ENQ: enq(Q); break;
            case OQ_DEQ: deq(Q, o.a[1] & 1); break;
            case OQ_DROP: deq(Q, 2); break;
            case OQ_CHURN: {     // steady traffic with a backlog of a few messages
                int64_t n = clampi(o.a[1], 0, 70000), back = clampi(o.a[2], 0, (int64_t)Q.a->cap - 1);
                for (int64_t i = 0; i < n && budget > 0; i++) {
                    enq(Q);
                    if ((int64_t)Q.m.size() > back) deq(Q, 0);
                }
                break;
            }
            case OQ_BURST: for (int64_t i = 0; i < clampi(o.a[1], 0, 40000) && budget > 0; i++) { bool full = Q.m.size() == Q.a->cap; enq(Q); if (full) break; } break;
            case OQ_DRAIN: for (int64_t i = 0; i < clampi(o.a[1], 0, 40000) && budget > 0; i++) { bool e = Q.m.empty(); deq(Q, 0); if (e) break; } break;
            case OQ_INIT: Q.a->init(Q.q); Q.m.clear(); Q.enq = 0; break;
            default: break;
        }
        ctx.ev("op", o.kind, Q.a - g_queues, (int64_t)Q.m.size(), (int64_t)Q.enq);
        for (int i = 0; i < nq; i++) check(qs[i]);
    }
    for (int i = 0; i < nq; i++) {
        while (!qs[i].m.empty()) deq(qs[i], 0);
        deq(qs[i], 0);
        check(qs[i]);
    }
}

// ------------------------------------------------------------------------------------------------ stack
enum { OS_PUSH, OS_POP, OS_PEEK, OS_OLDEST, OS_BURST, OS_DRAIN, OS_INIT };
enum { FS_OVER, FS_UNDER };
enum { PS_FULL, PS_OLDFULL, PS_OLD1, PS_OLDEMPTY };
void gen_s(Rng &r, Plan &p, int tier, const std::string &) {
    p.cfg.resize(CQ_CNT);
    p.cfg[CQ_N]     = r.chance(0.3) ? 2 : 1;
    p.cfg[CQ_A]     = r.chance(0.06) ? r.range(6, 8) : r.range(0, 5);
    p.cfg[CQ_B]     = r.range(0, 5);
    p.cfg[CQ_DIRTY] = r.pick({0, 255, 0xA5});
    int n = (int)r.range(4, tier ? 60 : 40);
    for (int i = 0; i < n; i++) {
        int64_t q = r.range(0, 1);
        switch (r.weighted({10, 6, 6, 4, 2, 1, 1})) {
            case 0: p.ops.push_back(Op(OS_PUSH, q)); break;
            case 1: p.ops.push_back(Op(OS_POP, q, r.chance(0.1))); break;
            case 2: p.ops.push_back(Op(OS_PEEK, q, r.chance(0.1))); break;
            case 3: p.ops.push_back(Op(OS_OLDEST, q)); break;
            case 4: p.ops.push_back(Op(OS_BURST, q, r.chance(0.3) ? 400 : r.range(1, 20))); break;
            case 5: p.ops.push_back(Op(OS_DRAIN, q, r.chance(0.3) ? 400 : r.range(1, 20))); break;
            default: p.ops.push_back(Op(OS_INIT, q)); break;
        }
    }
}
struct Stack {
    const stack_api *a;
    Block            blk;
    void            *s;
    Ring             m;
};
void run_s(const Plan &p, Ctx &ctx) {
    auto cfg = [&](int i) { return i < (int)p.cfg.size() ? p.cfg[(size_t)i] : 0; };
    int    ns = (int)wrapi(cfg(CQ_N), 1, 2);
    Stack  ss[2];
    ItemGen ig;
    const char *P = "Q02";
    int64_t budget = 20000;
    for (int i = 0; i < ns; i++) {
        ss[i].a = &g_stacks[wrapi(cfg(i ? CQ_B : CQ_A), 0, g_nstacks - 1)];
        ss[i].m.cap(ss[i].a->cap);
        ss[i].s = ss[i].blk.make(ss[i].a->size, (int)wrapi(cfg(CQ_DIRTY), 0, 255));
        progress();
        ss[i].a->init(ss[i].s);
    }
    auto check = [&](Stack &S) {
        progress();
        int e = S.a->is_empty(S.s), f = S.a->is_full(S.s);
        SIM_CHECK(ctx, P, !!e == S.m.empty(), "empty", "%s: is_empty is %d with %zu elements", S.a->name, e, S.m.size());
        SIM_CHECK(ctx, P, !!f == (S.m.size() == S.a->cap), "full", "%s: is_full is %d with %zu of %zu elements", S.a->name, f, S.m.size(), S.a->cap);
        ctx.state((uint64_t)(S.a - g_stacks) << 32 | (uint64_t)S.m.size());
    };
    auto peek = [&](Stack &S, bool null) {
        Item v(S.a->item, 0xEE), untouched = v;
        progress();
        int r = S.a->peek(S.s, null ? nullptr : v.data());
        SIM_CHECK(ctx, P, (r == 0) == !S.m.empty(), "deliver", "%s: peek %s with %zu elements", S.a->name, r ? "found nothing" : "succeeded", S.m.size());
        if (!null) SIM_CHECK(ctx, P, v == (S.m.empty() ? untouched : S.m.back()), "peek", "%s: peek shows another element than the last one pushed (%zu of %zu elements)", S.a->name, S.m.size(), S.a->cap);
    };
    auto push = [&](Stack &S) {
        Item v = ig.make(S.a->item), arg = v;
        progress();
        int  r  = S.a->push(S.s, arg.data());
        bool ok = S.m.size() < S.a->cap;
        if (!ok) { ctx.fault(FS_OVER); ctx.probe(PS_FULL); ctx.nontrivial = true; }
        SIM_CHECK(ctx, P, (r == 0) == ok, "accept", "%s: an element was %s with %zu of %zu present", S.a->name, r ? "refused" : "accepted", S.m.size(), S.a->cap);
        if (ok) S.m.push_back(v);
        budget--;
    };
    auto pop = [&](Stack &S, bool null) {
        Item v(S.a->item, 0xEE), untouched = v;
        progress();
        int  r  = S.a->pop(S.s, null ? nullptr : v.data());
        bool ok = !S.m.empty();
        if (!ok) { ctx.fault(FS_UNDER); ctx.nontrivial = true; }
        SIM_CHECK(ctx, P, (r == 0) == ok, "deliver", "%s: pop %s with %zu elements", S.a->name, r ? "found nothing" : "succeeded", S.m.size());
        if (!null) SIM_CHECK(ctx, P, v == (ok ? S.m.back() : untouched), "lifo", "%s: another element than the last one pushed was popped (%zu elements)", S.a->name, S.m.size());
        if (ok) S.m.pop_back();
        budget--;
    };
    for (auto &o : p.ops) {
        Stack &S = ss[wrapi(o.a[0], 0, ns - 1)];
        switch (o.kind) {
            case OS_PUSH: push(S); break;
            case OS_POP: pop(S, o.a[1] & 1); break;
            case OS_PEEK: peek(S, o.a[1] & 1); break;
            case OS_OLDEST:
                ctx.probe(S.m.empty() ? PS_OLDEMPTY : S.m.size() == 1 ? PS_OLD1 : S.m.size() == S.a->cap ? PS_OLDFULL : PS_OLD1);
                progress();
                S.a->dequeue(S.s);
                if (!S.m.empty()) S.m.pop_front();
                break;
            case OS_BURST: for (int64_t i = 0; i < clampi(o.a[1], 0, 400) && budget > 0; i++) { bool f = S.m.size() == S.a->cap; push(S); if (f) break; } break;
            case OS_DRAIN: for (int64_t i = 0; i < clampi(o.a[1], 0, 400) && budget > 0; i++) { bool e = S.m.empty(); pop(S, false); if (e) break; } break;
            case OS_INIT: S.a->init(S.s); S.m.clear(); break;
            default: break;
        }
        ctx.ev("op", o.kind, S.a - g_stacks, (int64_t)S.m.size());
        for (int i = 0; i < ns; i++) check(ss[i]);
    }
    for (int i = 0; i < ns; i++) {
        while (!ss[i].m.empty()) { peek(ss[i], false); pop(ss[i], false); }
        peek(ss[i], false);
        pop(ss[i], false);
        check(ss[i]);
    }
}

// ------------------------------------------------------------------------------------------------ lists
enum { OL_ADD, OL_TAIL, OL_DEL, OL_MOVE, OL_ROTATE, OL_WALK, OL_NEIGH, OL_INSERT, OL_REAP };
enum { NE = 12, NL = 3 };
enum { FL_MIGRATE, FL_KILL, FL_REAP };
enum { PL_EMPTY, PL_ONE, PL_ALL, PL_MID, PL_BESIDE };
void gen_l(Rng &r, Plan &p, int tier, const std::string &) {
    p.cfg = {r.range(1, NL), r.range(1, NE), r.pick({0, 255, 0xA5}), r.range(0, 1)};
    int n = (int)r.range(4, tier ? 80 : 50);
    for (int i = 0; i < n; i++) {
        int64_t e = r.range(0, NE - 1), l = r.range(0, NL - 1);
        switch (r.weighted({5, 6, 4, 5, 2, 3, 3, 4, 2})) {
            case 0: p.ops.push_back(Op(OL_ADD, e, l)); break;
            case 1: p.ops.push_back(Op(OL_TAIL, e, l)); break;
            case 2: p.ops.push_back(Op(OL_DEL, e, 0, r.range(0, 1))); break;
            case 7: p.ops.push_back(Op(OL_INSERT, e, r.range(0, NE - 1), r.range(0, 1))); break;
            case 8: p.ops.push_back(Op(OL_REAP, 0, l, r.range(0, 1), r.chance(0.2) ? 0xFFF : r.range(0, 0xFFF))); break;
            case 3: p.ops.push_back(Op(OL_MOVE, e, l, r.range(0, 1))); break;
            case 4: p.ops.push_back(Op(OL_ROTATE, 0, l)); break;
            case 5: p.ops.push_back(Op(OL_WALK, 0, l, r.range(0, 3))); break;
            default: p.ops.push_back(Op(OL_NEIGH, e)); break;
        }
    }
}
void run_l(const Plan &p, Ctx &ctx) {
    auto cfg = [&](int i) { return i < (int)p.cfg.size() ? p.cfg[(size_t)i] : 0; };
    int nl = (int)wrapi(cfg(0), 1, NL), ne = (int)wrapi(cfg(1), 1, NE);
    int fill = (int)wrapi(cfg(2), 0, 255);
    const char *P = "Q03";
    Block hb[NL], eb[NE];
    void *h[NL], *e[NE];
    std::deque<int> m[NL];
    int in[NE];
    for (int i = 0; i < nl; i++) { h[i] = hb[i].make(g_list.head_size, fill); (cfg(3) & 1 ? g_list.head_static : g_list.head_init)(h[i]); }
    for (int i = 0; i < ne; i++) { e[i] = eb[i].make(g_list.elem_size, fill); g_list.elem_set(e[i], (uint32_t)(i + 100)); in[i] = -1; }
    auto walk = [&](int l, int how) {
        uint32_t out[NE + 2];
        progress();
        int n = g_list.walk(h[l], how, out, NE + 1);
        std::vector<uint32_t> want, got(out, out + std::min(n, NE + 1));
        for (int x : m[l]) want.push_back((uint32_t)(x + 100));
        if (how & 1) std::reverse(want.begin(), want.end());
        SIM_CHECK(ctx, P, got == want, "walk", "walking list %d (way %d) visits %d elements in place of the %zu linked, or in another order", l, how, n, want.size());
    };
    auto check = [&] {
        uint64_t fp = 0;
        for (int l = 0; l < nl; l++) {
            progress();
            SIM_CHECK(ctx, P, !!g_list.empty(h[l]) == m[l].empty(), "empty", "list %d with %zu elements reports empty=%d", l, m[l].size(), g_list.empty(h[l]));
            ctx.probe(m[l].empty() ? PL_EMPTY : m[l].size() == 1 ? PL_ONE : (int)m[l].size() == ne ? PL_ALL : PL_MID);
            walk(l, 0);
            walk(l, 1);
            fp = fp * 16 + m[l].size();
            for (int x : m[l]) fp = fp * 31 + (uint64_t)x;
        }
        ctx.state(fp);
    };
    auto unlink = [&](int x) {
        progress();
        g_list.del(e[x]);
        auto &d = m[in[x]];
        d.erase(std::find(d.begin(), d.end(), x));
        in[x] = -1;
    };
    auto link = [&](int x, int l, bool tail) {
        progress();
        if (tail) { g_list.add_tail(e[x], h[l]); m[l].push_back(x); }
        else { g_list.add(e[x], h[l]); m[l].push_front(x); }
        in[x] = l;
    };
    for (auto &o : p.ops) {
        int x = (int)wrapi(o.a[0], 0, ne - 1), l = (int)wrapi(o.a[1], 0, nl - 1);
        ctx.ev("op", o.kind, x, l, in[x]);
        switch (o.kind) {
            case OL_ADD: if (in[x] < 0) link(x, l, false); break;
            case OL_TAIL: if (in[x] < 0) link(x, l, true); break;
            case OL_DEL:
                if (in[x] >= 0) {
                    ctx.fault(FL_KILL);
                    unlink(x);
                    if (o.a[2] & 1) { e[x] = eb[x].make(g_list.elem_size, fill); g_list.elem_set(e[x], (uint32_t)(x + 100)); }    // its memory is gone
                }
                break;
            case OL_INSERT: {
                int y = (int)wrapi(o.a[1], 0, ne - 1);
                if (in[x] >= 0 || in[y] < 0) break;
                auto &d = m[in[y]];
                bool before = o.a[2] & 1;
                progress();
                g_list.add_at(e[x], e[y], before);
                d.insert(std::find(d.begin(), d.end(), y) + !before, x);
                in[x] = in[y];
                ctx.probe(PL_BESIDE);
                break;
            }
            case OL_REAP: {
                uint32_t mask = (uint32_t)o.a[3], out[NE + 2];
                std::vector<uint32_t> want;
                for (int y : m[l]) want.push_back((uint32_t)(y + 100));
                if (o.a[2] & 1) std::reverse(want.begin(), want.end());
                progress();
                int n = g_list.reap(h[l], o.a[2] & 1, mask, out, NE + 1);
                std::vector<uint32_t> got(out, out + std::min(n, NE + 1));
                SIM_CHECK(ctx, P, got == want, "walk", "walking list %d while removing visits %d elements in place of the %zu linked, or in another order", l, n, want.size());
                for (size_t i = 0; i < m[l].size();) {
                    int y = m[l][i];
                    if (!(mask >> y & 1)) { i++; continue; }
                    m[l].erase(m[l].begin() + (long)i);
                    in[y] = -1;
                    ctx.fault(FL_REAP);
                }
                break;
            }
            case OL_MOVE: if (in[x] >= 0) { ctx.fault(FL_MIGRATE); ctx.nontrivial = true; unlink(x); link(x, l, o.a[2] & 1); } break;
            case OL_ROTATE: if (!m[l].empty()) { x = m[l].front(); unlink(x); link(x, l, true); } break;      // round robin
            case OL_WALK: walk(l, (int)wrapi(o.a[2], 0, 3)); break;
            case OL_NEIGH:
                if (in[x] >= 0) {
                    l = in[x];
                    auto   it = std::find(m[l].begin(), m[l].end(), x);
                    bool   last = it + 1 == m[l].end(), first = it == m[l].begin();
                    void *wn = last ? h[l] : e[*(it + 1)], *wp = first ? h[l] : e[*(it - 1)];
                    progress();
                    SIM_CHECK(ctx, P, !!g_list.is_last(e[x], h[l]) == last, "last", "is_last is wrong for element %d of list %d", x, l);
                    SIM_CHECK(ctx, P, g_list.next(e[x], h[l]) == wn, "next", "next of element %d of list %d is wrong", x, l);
                    SIM_CHECK(ctx, P, g_list.prev(e[x], h[l]) == wp, "prev", "prev of element %d of list %d is wrong", x, l);
                }
                l = (int)wrapi(o.a[1], 0, nl - 1);
                progress();
                SIM_CHECK(ctx, P, g_list.next(nullptr, h[l]) == (m[l].empty() ? nullptr : e[m[l].front()]), "next", "the first element of list %d is wrong", l);
                SIM_CHECK(ctx, P, g_list.prev(nullptr, h[l]) == (m[l].empty() ? nullptr : e[m[l].back()]), "prev", "the last element of list %d is wrong", l);
                break;
            default: break;
        }
        check();
    }
    for (int l = 0; l < nl; l++) { walk(l, 2); walk(l, 3); }
}

Scenario mk(const char *name, const char *prop) {
    Scenario s;
    s.name  = name;
    s.props = {prop};
    s.twin = true;
    s.edge_budget = 20000000;
    s.stub_components = {"the tasks using the container (seeded scheduler, one whole call at a time)"};
    return s;
}
Scenario mkq() {
    Scenario s    = mk("message_queues", "Q01");
    s.cfg_names   = {"queues", "type-a", "type-b", "dirty"};
    s.op_names    = {"enqueue", "dequeue", "drop", "steady-traffic", "burst", "drain", "init", "query"};
    s.fault_names = {"producer overrun of a full queue", "consumer starved on an empty queue", "running index wrapped around"};
    s.probe_names = {"full", "empty", "full across the index wrap", "two queues", "capacity 1"};
    s.rule = "a case is one seed: one or two queues of nine generated types (capacity 1 to 32768) and an interleaved history of producer and consumer calls, often starting just "
             "before the 16-bit running indexes wrap; non-trivial when a producer overran the queue or an index wrapped";
    s.state_measure   = "queue type x messages waiting x running index";
    s.real_components = {"gel/collections/queue.h, nine instances (clang -O1, AddressSanitizer)"};
    s.gen = gen_q; s.run = run_q;
    return s;
}
Scenario mks() {
    Scenario s    = mk("stacks", "Q02");
    s.cfg_names   = {"stacks", "type-a", "type-b", "dirty"};
    s.op_names    = {"push", "pop", "peek", "discard-oldest", "burst", "drain", "init"};
    s.fault_names = {"push on a full stack", "pop on an empty stack"};
    s.probe_names = {"full", "oldest discarded from a full stack", "oldest discarded", "oldest discarded from an empty stack"};
    s.rule = "a case is one seed: one or two stacks of nine generated types (capacity 1 to 300) and an interleaved history of calls; non-trivial when a push or pop was refused";
    s.state_measure   = "stack type x elements";
    s.real_components = {"gel/collections/stack.h, nine instances (clang -O1, AddressSanitizer)"};
    s.gen = gen_s; s.run = run_s;
    return s;
}
Scenario mkl() {
    Scenario s    = mk("run_queues", "Q03");
    s.cfg_names   = {"lists", "elements", "dirty", "static-initialiser"};
    s.op_names    = {"add", "add-tail", "delete", "move", "rotate", "walk", "neighbours", "insert-beside", "walk-removing"};
    s.fault_names = {"element moved to another list", "element removed in the middle of its life", "element removed by the walk that visits it"};
    s.probe_names = {"empty list", "one element", "every element in one list", "in between", "inserted before or after an element"};
    s.rule = "a case is one seed: up to three lists and twelve elements (as the run and wait queues of simulated tasks) and a history of insertions, removals and migrations; "
             "non-trivial when an element migrated";
    s.state_measure   = "contents of all lists in order";
    s.real_components = {"gel/collections/listx.h (clang -O1, AddressSanitizer)"};
    s.long_ops = 20000;
    s.gen = gen_l; s.run = run_l;
    return s;
}
Registrar r0(mkq()), r1(mks()), r2(mkl());
BudgetReg br({{"Q01", 100000, 4000000}, {"Q02", 1200000, 80000000}, {"Q03", 1500000, 28000000}});
}
