// Page managers (M01) and state machines (M02): navigation histories and re-entrant events.
#include <algorithm>
#include "page_api.h"
#include "sim.h"
using namespace sim;

namespace {
// ---------------------------------------------------------------------------------------------- pages
enum { OP_CHANGE, OP_SWAP, OP_REBASE, OP_BACK, OP_UPDATE, OP_RESET, OP_EVENT };
enum { C_DIRTY, C_N, C_DEPTH, C_IDS };
enum { F_DIRTY, F_FULL, F_MISS, F_BURST };
enum { P_ROOT, P_FIRSTSWAP, P_FIRSTREBASE, P_REBASEDEEP, P_RESETDEEP, P_DUPID, P_NOCREATE, P_AFTERMISS, P_NEST };
enum { MAXM = 2, IDS = 6 };
enum { CREATE, DESTROY, OPEN, CLOSE, UPDATE, EVENT };
const char *cb_names[] = {"create", "destroy", "open", "close", "update", "process_event"};

// page ids are the application's: small numbers, or numbers that agree in their low bytes
int page_id(int64_t mode, int k) {
    static const int v[2][IDS + 1] = {{0, 256, 65536, 1 << 24, -256, -65536, -2147483647 - 1}, {1, 257, 65537, (1 << 24) + 1, -255, -65535, -1}};
    return mode ? v[mode - 1][k] : k;
}
struct Inst { int kind, id, data; void *extra; };
struct Call { int what, kind, model, data, event; void *extra; int ret; };
bool same(const Call &a, const Call &b) { return a.what == b.what && a.kind == b.kind && a.model == b.model && a.data == b.data && a.event == b.event && a.extra == b.extra; }
struct World {
    Ctx              *ctx;
    std::vector<Call> log;
    int               next_data = 1, salt = 0;
};
World *W;
PerInstance pi_w(&W, sizeof W);
void rec(int what, int kind, int model, int data, int event, void *extra, int ret) {
    progress();
    if (W->log.size() < 4000) W->log.push_back({what, kind, model, data, event, extra, ret});
}
int  h_create(int k, int m, void *x) { int d = W->next_data++; rec(CREATE, k, m, 0, 0, x, d); return d; }
void h_destroy(int k, int d, void *x) { rec(DESTROY, k, 0, d, 0, x, 0); }
void h_open(int k, int m, int d) { rec(OPEN, k, m, d, 0, nullptr, 0); }
void h_close(int k, int d) { rec(CLOSE, k, 0, d, 0, nullptr, 0); }
int  h_update(int k, int m, int d) { int r = W->salt + k * 1000 + d; rec(UPDATE, k, m, d, 0, nullptr, r); return r; }
int  h_event(int k, int m, int d, int e) { int r = W->salt - k - d * 7 + e; rec(EVENT, k, m, d, e, nullptr, r); return r; }

void gen_pages(Rng &r, Plan &p, int tier, bool depths) {
    int n = r.chance(0.7) ? 1 : 2;
    p.cfg = {r.pick({0, 0, 255, 165, 1}), n, depths ? r.weighted({88, 8, 4}) : 0, r.chance(0.7) ? 0 : r.range(1, 2)};      // 0: five pages below the one in view, 1: one, 2: three hundred
    int k = (int)r.range(3, tier ? 60 : 40), ids = (int)r.range(1, IDS);
    int w_deep = r.chance(0.4) ? 14 : 6;
    int burst  = p.cfg[C_DEPTH] == 2 ? (int)r.range(0, 320) : 0;       // a deep stack to begin with
    for (int i = 0; i < k + burst; i++) {
        int64_t m = r.range(0, n - 1), kind = r.chance(0.6) ? r.range(0, 3) : r.range(0, PK_KINDS - 1), id = r.range(0, ids), x = r.chance(0.4) ? 0 : r.range(1, 200), model = r.range(-50, 50);
        switch (i < burst ? 0 : r.weighted({w_deep, 2, 1, 5, 2, 2, 4})) {
            case 0: p.ops.push_back(Op(OP_CHANGE, m, model, kind, id, x)); break;
            case 1: p.ops.push_back(Op(OP_SWAP, m, model, kind, id, x)); break;
            case 2: p.ops.push_back(Op(OP_REBASE, m, model, kind, id, x)); break;
            case 3: p.ops.push_back(Op(OP_BACK, m, model, r.chance(0.2) ? r.range(2, burst && r.chance(0.5) ? 320 : 7) : 1)); break;
            case 4: p.ops.push_back(Op(OP_UPDATE, m, model)); break;
            case 5: p.ops.push_back(Op(OP_RESET, m, model, id)); break;
            default: p.ops.push_back(Op(OP_EVENT, m, model, r.range(-1000, 1000))); break;
        }
    }
}

void run_pages(const Plan &p, Ctx &ctx, const page_api *api) {
    static const page_hooks hooks = {h_create, h_destroy, h_open, h_close, h_update, h_event, nullptr};
    auto cfg = [&](int i) { return i < (int)p.cfg.size() ? p.cfg[(size_t)i] : 0; };
    const page_api *const depth[3] = {api, &page_one, &page_deep};
    if (api == &page_update) api = depth[wrapi(cfg(C_DEPTH), 0, 2)];
    const char *P = "M01";
    static World ws[2];
    World &w = ws[instance()];
    static char  tags[256];
    W = &w; w = World(); w.ctx = &ctx;
    api->bind(&hooks);
    int dirty = (int)wrapi(cfg(C_DIRTY), 0, 255), n = (int)wrapi(cfg(C_N), 1, MAXM);
    const int64_t ids = wrapi(cfg(C_IDS), 0, 2);
    if (dirty) { ctx.fault(F_DIRTY); ctx.nontrivial = true; }
    std::vector<uint8_t *> mem(MAXM);
    struct Free { std::vector<uint8_t *> &m; ~Free() { for (auto q : m) free(q); } } fr{mem};
    struct { std::vector<Inst> st; bool missed = false; } M[MAXM];     // the page in view is the last one
    for (int i = 0; i < n; i++) {
        mem[(size_t)i] = (uint8_t *)malloc(api->size);
        memset(mem[(size_t)i], dirty, api->size);
        progress();
        api->init(mem[(size_t)i]);
    }
    auto has = [](const Inst &i, int h) { return (pk_has[i.kind] & h) != 0; };
    std::vector<Call> want;
    int want_ret = 0, model = 0;
    auto leave = [&](const Inst &i, bool open, bool destroy) {
        if (open && has(i, PH_CLOSE)) want.push_back({CLOSE, i.kind, 0, i.data, 0, nullptr, 0});
        if (destroy && has(i, PH_DESTROY)) want.push_back({DESTROY, i.kind, 0, i.data, 0, i.extra, 0});
    };
    auto enter = [&](Inst &i, bool create) {
        if (create) {
            if (has(i, PH_CREATE)) { want.push_back({CREATE, i.kind, model, 0, 0, i.extra, w.next_data}); i.data = w.next_data; }
            else { i.data = 0; ctx.probe(P_NOCREATE); }
        }
        if (has(i, PH_OPEN)) want.push_back({OPEN, i.kind, model, i.data, 0, nullptr, 0});
        want_ret = 0;
        if (api->has_update && has(i, PH_UPDATE)) { want_ret = w.salt + i.kind * 1000 + i.data; want.push_back({UPDATE, i.kind, model, i.data, 0, nullptr, want_ret}); }
    };
    auto text = [&](const Call &c) {
        static char b[2][160];
        static int  k;
        k ^= 1;
        snprintf(b[k], sizeof b[k], "%s of page kind %d (model %d, data %d, event %d%s)", cb_names[c.what], c.kind, c.model, c.data, c.event, c.extra ? ", extra" : "");
        return b[k];
    };
    auto verify = [&](const char *what, int ret, bool has_ret, const Inst *entered, const Inst *left) {
        ctx.ev(what, ret, (int64_t)w.log.size());
        for (auto &c : w.log) ctx.ev(cb_names[c.what], c.kind, c.model, c.data, c.event);
        std::vector<Call> left_over = w.log;
        for (auto &e : want) {
            auto it = std::find_if(left_over.begin(), left_over.end(), [&](const Call &c) { return same(c, e); });
            SIM_CHECK(ctx, P, it != left_over.end(), "callback", "%s did not call %s", what, text(e));
            if (it != left_over.end()) left_over.erase(it);
        }
        SIM_CHECK(ctx, P, left_over.empty(), "callback", "%s called %s", what, text(left_over[0]));
        // order: a page is created before it opens, is updated after; whatever was open has closed before; a page closes before it is destroyed
        auto pos = [&](int wh, const Inst *i) {
            for (size_t k = 0; i && k < w.log.size(); k++)
                if (w.log[k].what == wh && w.log[k].kind == i->kind && (wh == CREATE || w.log[k].data == i->data)) return (int)k;
            return -1;
        };
        int cr = pos(CREATE, entered), op = pos(OPEN, entered), up = pos(UPDATE, entered), cl = pos(CLOSE, left), de = pos(DESTROY, left);
        SIM_CHECK(ctx, P, cr < 0 || op < 0 || cr < op, "order", "%s opened the page before it was created", what);
        SIM_CHECK(ctx, P, up < 0 || (op < up && cr < up), "order", "%s updated the page before it was open", what);
        SIM_CHECK(ctx, P, cl < 0 || de < 0 || cl < de, "order", "%s destroyed the page before closing it", what);
        if (!(entered && left && entered->kind == left->kind && entered->data == left->data))
            SIM_CHECK(ctx, P, cl < 0 || op < 0 || cl < op, "order", "%s opened a page while another was still open", what);
        if (has_ret) SIM_CHECK(ctx, P, ret == want_ret, "return", "%s returned %d instead of %d", what, ret, want_ret);
        w.log.clear();
        want.clear();
    };
    int step = 0;
    for (auto &o : p.ops) {
        int mi = (int)wrapi(o.a[0], 0, n - 1);
        auto &st = M[mi].st;
        void *m = mem[(size_t)mi];
        model = (int)wrapi(o.a[1], -50, 50);
        w.salt = 100000 * (1 + step++ % 7);
        progress();
        want_ret = 0;
        auto newpage = [&](int &plain) {
            Inst i{(int)wrapi(o.a[2], 0, PK_KINDS - 1), page_id(ids, (int)wrapi(o.a[3], 0, IDS)), 0, nullptr};
            int64_t x = wrapi(o.a[4], 0, 200);
            plain = x == 0;
            i.extra = x ? &tags[x] : nullptr;
            for (auto &q : st) if (q.id == i.id) { ctx.probe(P_DUPID); break; }
            return i;
        };
        int plain = 0;
        switch (o.kind) {
            case OP_CHANGE: {
                if (st.size() > api->depth) { ctx.fault(F_FULL); break; }      // deeper than the configured depth: asserted against
                Inst i = newpage(plain), old{}, *left = nullptr;
                if (!st.empty()) { old = st.back(); left = &old; leave(old, true, false); }
                enter(i, true);
                int r = api->change(m, model, i.kind, i.id, i.extra, plain);
                st.push_back(i);
                if (M[mi].missed) { M[mi].missed = false; ctx.probe(P_AFTERMISS); }
                verify("change_page", r, true, &i, left);
                break;
            }
            case OP_SWAP: {
                Inst i = newpage(plain), old{}, *left = nullptr;
                if (!st.empty()) { old = st.back(); left = &old; leave(old, true, true); st.pop_back(); }
                else { ctx.probe(P_FIRSTSWAP); if (M[mi].missed) ctx.probe(P_AFTERMISS); }
                enter(i, true);
                int r = api->swap(m, model, i.kind, i.id, i.extra, plain);
                st.push_back(i);
                M[mi].missed = false;
                verify("swap_page", r, true, &i, left);
                break;
            }
            case OP_REBASE: {
                Inst i = newpage(plain), old{}, *left = nullptr;
                if (!st.empty()) { old = st.back(); left = &old; }
                else { ctx.probe(P_FIRSTREBASE); if (M[mi].missed) ctx.probe(P_AFTERMISS); }
                if (st.size() > 2) { ctx.probe(P_REBASEDEEP); ctx.nontrivial = true; }
                for (size_t q = st.size(); q-- > 0;) leave(st[q], q + 1 == st.size(), true);
                st.clear();
                enter(i, true);
                int r = api->rebase(m, model, i.kind, i.id, i.extra, plain);
                st.push_back(i);
                M[mi].missed = false;
                verify("rebase_page", r, true, &i, left);
                break;
            }
            case OP_BACK: {
                int64_t k = wrapi(o.a[2], 1, 320);
                if (k > 1) { ctx.fault(F_BURST); ctx.nontrivial = true; }
                for (; k > 0; k--) {
                    if (st.empty()) break;
                    Inst old = st.back(), *left = nullptr, *ent = nullptr;
                    want_ret = 0;
                    if (st.size() > 1) { left = &old; leave(old, true, true); st.pop_back(); ent = &st.back(); enter(*ent, false); }
                    else ctx.probe(P_ROOT);
                    int r = api->back(m, model);
                    verify("back", r, true, ent, left);
                }
                break;
            }
            case OP_UPDATE: {
                if (st.empty()) break;
                if (api->has_update && has(st.back(), PH_UPDATE)) {
                    want_ret = w.salt + st.back().kind * 1000 + st.back().data;
                    want.push_back({UPDATE, st.back().kind, model, st.back().data, 0, nullptr, want_ret});
                }
                int r = api->update(m, model);
                verify("page_update", r, true, nullptr, nullptr);
                break;
            }
            case OP_RESET: {
                int     id = page_id(ids, (int)wrapi(o.a[2], 0, IDS));
                uint8_t found = 0x5A;
                Inst    old{}, *left = nullptr, *ent = nullptr;
                bool    hit = false;
                if (!st.empty()) {
                    old = st.back(); left = &old; leave(old, true, true); st.pop_back();
                    int under = 0;
                    while (!st.empty()) {
                        if (st.back().id == id) { hit = true; ent = &st.back(); enter(*ent, false); break; }
                        leave(st.back(), false, true);
                        st.pop_back();
                        under++;
                    }
                    if (under && hit) { ctx.probe(P_RESETDEEP); ctx.nontrivial = true; }
                    if (!hit) { ctx.fault(F_MISS); M[mi].missed = true; ctx.nontrivial = true; }
                }
                if (!hit) want_ret = 0;
                int r = api->reset(m, model, id, &found);
                verify("reset_to_page", r, true, ent, left);
                ctx.ev("found", found);
                SIM_CHECK(ctx, P, hit ? found == 1 : found == 0, "found", "reset_to_page(%d) said found=%d when the page was%s on the stack", id, found, hit ? "" : " not");
                break;
            }
            case OP_EVENT: {
                if (st.empty()) break;
                int e = (int)wrapi(o.a[2], -1000, 1000);
                want_ret = w.salt - st.back().kind - st.back().data * 7 + e;
                want.push_back({EVENT, st.back().kind, model, st.back().data, e, nullptr, want_ret});
                int r = api->event(m, model, e);
                verify("process_page_event", r, true, nullptr, nullptr);
                break;
            }
            default: break;
        }
        uint64_t fp = (uint64_t)o.kind << 56 | (uint64_t)M[mi].missed << 55;
        for (size_t q = 0; q < st.size() && q < 6; q++) fp |= (uint64_t)(st[q].kind + 1) << (q * 4) | (uint64_t)(st[q].id + 1) << (24 + q * 3);
        ctx.state(fp);
    }
    // afterwards every page still on a stack can be left one by one, and only its own callbacks run
    for (int i = 0; i < n; i++) {
        auto &st = M[i].st;
        while (st.size() > 1) {
            Inst old = st.back();
            model = 7; w.salt = 900000; want_ret = 0;
            progress();
            leave(old, true, true); st.pop_back(); enter(st.back(), false);
            int r = api->back(mem[(size_t)i], model);
            verify("back", r, true, &st.back(), &old);
        }
    }
}

// ------------------------------------------------------------------------------------- state machines
enum { OM_SEND };
enum { MAXSM = 3 };
struct SMWorld {
    Ctx            *ctx;
    const page_api *api;
    int             n, which;
    uint8_t        *mem[MAXSM];
    int64_t         state[MAXSM];
    char            model[MAXSM];
    // the event being handled
    int             cur = -1, depth = 0, calls = 0;
    int64_t         event = 0, r[4], e[4];
    int             nested = 0, target = 0;
    void           *table = nullptr;
};
SMWorld *S;
PerInstance pi_s(&S, sizeof S);
int sm_func(int64_t state) { return (int)((state * 5 + state / 8) % 8); }
void send(int m, int64_t ev, int level);
int h_handler(int func, void *model, int64_t event) {
    progress();
    SMWorld &s = *S;
    int level = s.depth, m = s.cur;
    s.calls++;
    s.ctx->ev("handler", func, m, event, level);
    SIM_CHECK(*s.ctx, "M02", func == sm_func(s.state[m]), "handler", "handler %d ran for an event in state %lld (handler %d)", func, (long long)s.state[m], sm_func(s.state[m]));
    SIM_CHECK(*s.ctx, "M02", model == (void *)&s.model[m], "arguments", "the handler received another model");
    SIM_CHECK(*s.ctx, "M02", event == s.event, "arguments", "the handler received event %lld instead of %lld", (long long)event, (long long)s.event);
    int calls = s.calls;
    if (level < s.nested) {
        s.ctx->probe(P_NEST);
        s.ctx->nontrivial = true;
        send(level == 0 ? s.target : m, s.e[level + 1], level + 1);
        s.cur = m; s.depth = level; s.event = event; s.calls = calls;
    }
    return (int)s.r[level];
}
void send(int m, int64_t ev, int level) {
    SMWorld &s = *S;
    if (!s.which) ev = (int64_t)(int32_t)ev;
    s.cur = m; s.depth = level; s.event = ev; s.calls = 0;
    int r = s.api->sm_send(s.mem[m], s.which, &s.model[m], ev);
    s.ctx->ev("sent", m, r, s.r[level], level);
    SIM_CHECK(*s.ctx, "M02", s.calls == 1, "handler", "%d handlers ran for one event", s.calls);
    bool moved = s.r[level] >= 0;
    if (moved) s.state[m] = s.r[level];
    SIM_CHECK(*s.ctx, "M02", (r != 0) == moved, "return", "the event was reported as %s when its handler answered %lld", r ? "a transition" : "no transition", (long long)s.r[level]);
    unsigned got = s.api->sm_state(s.mem[m], s.which);
    SIM_CHECK(*s.ctx, "M02", (int64_t)got == s.state[m], "state", "state %u is in force instead of %lld", got, (long long)s.state[m]);
}
void gen_sm(Rng &r, Plan &p, int tier) {
    int64_t top = r.chance(0.003) ? SM_MANY - 1 : SM_STATES - 1;
    p.cfg = {r.range(0, 1), r.range(1, MAXSM), r.range(0, top), r.pick({0, 255, 165}), top > SM_STATES};
    int k = (int)r.range(2, tier ? 60 : 40);
    for (int i = 0; i < k; i++) {
        auto res = [&] { return r.chance(0.35) ? r.pick({-1, -1, -2, -2147483647 - 1}) : r.chance(0.3) ? r.range(0, 9) : r.range(0, top); };
        int nested = r.chance(0.3) ? (int)r.range(1, 2) : 0;
        p.ops.push_back(Op(OM_SEND, r.range(0, MAXSM - 1) | nested << 4 | r.range(0, MAXSM - 1) << 8, r.chance(0.5) ? r.range(-5, 5) : (int64_t)r.next(), res(), res(), res(), (int64_t)r.next()));
    }
}
void run_sm(const Plan &p, Ctx &ctx, const page_api *api) {
    static const page_hooks hooks = {nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, h_handler};
    auto cfg = [&](int i) { return i < (int)p.cfg.size() ? p.cfg[(size_t)i] : 0; };
    static SMWorld ss[2];
    SMWorld &s = ss[instance()];
    S = &s; s = SMWorld(); s.ctx = &ctx; s.api = api;
    api->bind(&hooks);
    s.which = (int)wrapi(cfg(0), 0, 1);
    s.n     = (int)wrapi(cfg(1), 1, MAXSM);
    const int64_t states = wrapi(cfg(4), 0, 1) ? SM_MANY : SM_STATES;
    struct Free { ~Free() { for (auto q : S->mem) free(q); free(S->table); } } fr;
    s.table = malloc((size_t)states * sizeof(void (*)(void)));
    for (int i = 0; i < s.n; i++) {
        s.mem[i] = (uint8_t *)malloc(api->sm_size);
        memset(s.mem[i], (int)wrapi(cfg(3), 0, 255), api->sm_size);
        s.state[i] = wrapi(cfg(2) + i * 131, 0, states - 1);
        api->sm_init(s.mem[i], s.which, (unsigned)s.state[i], s.table, (size_t)states);
    }
    for (auto &o : p.ops) {
        if (o.kind != OM_SEND) continue;
        progress();
        int64_t sel = o.a[0] < 0 ? 0 : o.a[0];
        int m = (int)wrapi(sel & 15, 0, s.n - 1);
        s.nested = (int)wrapi(sel >> 4 & 15, 0, 2);
        s.target = (int)wrapi(sel >> 8 & 15, 0, s.n - 1);
        for (int q = 0; q < 3; q++) { s.r[q] = o.a[2 + q] < 0 ? (int64_t)(int32_t)clampi(o.a[2 + q], INT32_MIN, -1) : wrapi(o.a[2 + q], 0, states - 1); }
        s.e[1] = o.a[5]; s.e[2] = o.a[5] ^ 0x55;
        send(m, o.a[1], 0);
        for (int i = 0; i < s.n; i++) {
            unsigned got = api->sm_state(s.mem[i], s.which);
            SIM_CHECK(ctx, "M02", (int64_t)got == s.state[i], "state", "machine %d is in state %u instead of %lld", i, got, (long long)s.state[i]);
        }
        ctx.state((uint64_t)s.state[m] << 8 | (uint64_t)s.nested << 4 | (uint64_t)(s.r[0] < 0) << 1 | (uint64_t)s.which);
    }
}

Scenario make(const char *name, bool pages, const page_api *api, const char *build) {
    Scenario s;
    s.name  = name;
    s.props = {pages ? "M01" : "M02"};
    if (pages) {
        s.cfg_names = {"dirty", "managers", "depth", "ids"};
        s.op_names = {"change", "swap", "rebase", "back", "update", "reset-to", "event"};
        s.fault_names = {"manager in dirty memory", "navigation deeper than configured (not done)", "reset to a page that is not there", "burst of back requests"};
        s.probe_names = {"back on the last page", "swap without a page", "rebase without a page", "rebase of a deep stack", "reset past other pages", "page id twice on the stack", "page without create callback", "first page after a reset that found none", "-"};
        s.rule = "a case is one seed: managers in clean or dirty memory and a navigation history; non-trivial with dirty memory, deep rebases or resets, missed resets or bursts of back requests";
        s.state_measure = "stack of page kinds and ids x last operation";
        s.real_components = {std::string("gel/pagemanager/page_manager.c, gel/collections/stack.h (") + build + ", clang -O1, AddressSanitizer)"};
        s.stub_components = {"the pages and their callbacks", "the application loop"};
        s.gen = [=](Rng &r, Plan &p, int tier, const std::string &) { gen_pages(r, p, tier, api == &page_update); };
        s.run = [=](const Plan &p, Ctx &c) { run_pages(p, c, api); };
    } else {
        s.cfg_names = {"event type", "machines", "initial state", "dirty", "large table"};
        s.op_names = {"send"};
        s.fault_names = {"-", "-", "-", "-"};
        s.probe_names = {"-", "-", "-", "-", "-", "-", "-", "-", "event sent from inside a handler"};
        s.rule = "a case is one seed: machines over 400 states, a history of events with the handlers' answers, some sending further events; non-trivial when handlers were re-entered";
        s.state_measure = "state x nesting x transition";
        s.real_components = {"gel/state_machine/state_machine.h (integer and structured events)"};
        s.stub_components = {"the handlers", "the event source"};
        s.gen = [](Rng &r, Plan &p, int tier, const std::string &) { gen_sm(r, p, tier); };
        s.run = [=](const Plan &p, Ctx &c) { run_sm(p, c, api); };
    }
    s.twin = true;
    s.edge_budget = 20000000;
    return s;
}
Registrar r0(make("pages_update", true, &page_update, "with update callbacks; depths 5, 1 and 300")), r1(make("pages_plain", true, &page_plain, "without update callbacks")),
    r2(make("pages_ndebug", true, &page_ndebug, "with update callbacks, NDEBUG")), r3(make("state_machines", false, &page_update, ""));
BudgetReg br({{"M01", 800000, 40000000}, {"M02", 1000000, 40000000}});
}
