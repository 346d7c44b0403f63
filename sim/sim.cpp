// Driver: seeded search over runs, violation gate, minimiser, replay, evidence.
#include "sim.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define NOSAN __attribute__((no_sanitize("address")))
#endif
#endif
#ifndef NOSAN
#define NOSAN
#endif

extern "C" const char *__asan_default_options() {
    return "exitcode=99:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:handle_segv=1:"
           "allocator_may_return_null=1:max_malloc_fill_size=4096:quarantine_size_mb=8:print_legend=0";
}

extern "C" {
extern char __start_modbss[] __attribute__((weak));
extern char __stop_modbss[] __attribute__((weak));
extern char __start_moddata[] __attribute__((weak));
extern char __stop_moddata[] __attribute__((weak));
}

namespace sim {

uint64_t g_edges = 0, g_edge_limit = ~0ull;

static std::vector<Scenario> &scens() {
    static std::vector<Scenario> v;
    return v;
}
static std::map<std::string, std::pair<long, long>> &budgets() {
    static std::map<std::string, std::pair<long, long>> m;
    return m;
}
void register_scenario(Scenario s) { scens().push_back(std::move(s)); }
void set_budget(const char *p, long q, long t) { budgets()[p] = {q, t}; }

static uint64_t g_budget_per_step = ~0ull;
static void twin_point();
void progress() {
    g_edges = 0;
    g_edge_limit = g_budget_per_step;
    twin_point();
}

void Ctx::fail(const char *cls, const char *fmt, ...) {
    char    buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (char *c = buf; *c; c++) if ((unsigned char)*c < 32 || (unsigned char)*c > 126) *c = '?';      // it may quote damaged strings
    throw Violation{cls, buf};
}

enum { STATEBYTES = 1 << 20 };
void Ctx::state(uint64_t fp) {
    if (!statemap) return;
    uint64_t x = fp;
    x = Rng::splitmix(x);
    uint32_t bit = (uint32_t)(x % (STATEBYTES * 8ull));
    __atomic_fetch_or(&statemap[bit >> 3], (uint8_t)(1u << (bit & 7)), __ATOMIC_RELAXED);
}

// ---- isolation of the globals of the code under test --------------------------------------------------
static std::vector<char> g_snap_bss, g_snap_data;
NOSAN static void raw_copy(volatile char *d, const volatile char *s, size_t n) {
    for (size_t i = 0; i < n; i++) d[i] = s[i];
}
static void snapshot_globals() {
    if (__start_modbss) {
        g_snap_bss.resize((size_t)(__stop_modbss - __start_modbss));
        raw_copy(g_snap_bss.data(), __start_modbss, g_snap_bss.size());
    }
    if (__start_moddata) {
        g_snap_data.resize((size_t)(__stop_moddata - __start_moddata));
        raw_copy(g_snap_data.data(), __start_moddata, g_snap_data.size());
    }
}
static void restore_globals() {
    if (g_snap_bss.size()) raw_copy(__start_modbss, g_snap_bss.data(), g_snap_bss.size());
    if (g_snap_data.size()) raw_copy(__start_moddata, g_snap_data.data(), g_snap_data.size());
}

// ---- shared state between the driver and its forked workers -------------------------------------------
enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOL = 2, ST_INTERNAL = 3 };
struct Slot {
    std::atomic<long> cur;
    std::atomic<int>  status;
    long              viol_index;
    char              cls[64];
    char              msg[1024];
    uint64_t          hash, events;
    alignas(16) char  ctxmem[sizeof(Ctx)];
    Ctx              *ctx() { return (Ctx *)ctxmem; }
};
struct ScenTotals {
    uint64_t runs, nontrivial, events, sim_us, ops, endurance, longest, twins;
    uint64_t faults[MAXCNT], probes[MAXCNT], probe_runs[MAXCNT], fault_runs[MAXCNT];
};
static void *shm(size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return p;
}
static double now_s() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

static uint64_t fnv(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

static const Scenario *scenario_for_run(const std::string &prop, uint64_t seed, long idx, Rng &rng) {
    uint64_t x = seed * 0x9E3779B97F4A7C15ull ^ fnv(prop);
    x = Rng::splitmix(x) ^ ((uint64_t)idx * 0xD1342543DE82EF95ull);
    rng.reseed(x);
    int tot = 0;
    for (auto &s : scens())
        if (std::count(s.props.begin(), s.props.end(), prop)) tot += s.weight;
    int r = (int)rng.below((uint64_t)tot);
    for (auto &s : scens())
        if (std::count(s.props.begin(), s.props.end(), prop)) {
            if (r < s.weight) return &s;
            r -= s.weight;
        }
    return nullptr;
}

// The plan of a run. A few runs of every search are endurance runs: the same world lives through thousands of
// operations (many generated histories in a row under one configuration), for defects that need a long life.
static int g_force_long = 0;
static void make_twin(const Scenario &sc, Rng &rng, Plan &plan, int tier, const std::string &prop) {
    if (!sc.twin || !rng.chance(0.25)) return;
    plan.twin = (int64_t)(rng.next() >> 1) | 1;
    int how = rng.weighted({3, 3, 4});
    if (how == 0 && plan.ops.size() < 2000) { plan.cfg2 = plan.cfg; plan.ops2 = plan.ops; return; }       // the same life twice
    Plan p;
    sc.gen(rng, p, tier, prop);
    plan.ops2 = p.ops;
    plan.cfg2 = how < 2 ? plan.cfg : p.cfg;
    for (int i : sc.twin_cfg) if (i < (int)plan.cfg.size() && i < (int)plan.cfg2.size()) plan.cfg2[(size_t)i] = plan.cfg[(size_t)i];
}
static bool make_history(const Scenario &sc, Rng &rng, Plan &plan, int tier, const std::string &prop);
static bool make_plan(const Scenario &sc, Rng &rng, Plan &plan, int tier, const std::string &prop) {
    bool r = make_history(sc, rng, plan, tier, prop);
    make_twin(sc, rng, plan, tier, prop);
    return r;
}
static bool make_history(const Scenario &sc, Rng &rng, Plan &plan, int tier, const std::string &prop) {
    sc.gen(rng, plan, tier, prop);
    if (sc.long_ops <= 0 || plan.ops.empty()) return false;
    auto   b = budgets().count(prop) ? budgets()[prop] : std::make_pair(20000L, 400000L);
    double p = tier ? 400.0 / (double)b.second : 40.0 / (double)b.first;
    if (!rng.chance(p) && !g_force_long) return false;
    int64_t want = rng.range(sc.long_ops / 10, sc.long_ops);
    if (rng.chance(0.1)) want *= 6;
    for (int tries = 0; (int64_t)plan.ops.size() < want && tries < want; tries++) {
        Plan more;
        sc.gen(rng, more, tier, prop);
        plan.ops.insert(plan.ops.end(), more.ops.begin(), more.ops.end());
    }
    return true;
}

// ---- two instances in one process ---------------------------------------------------------------------
// The scenario is run twice, on two stacks, each with its own plan; at every progress() mark a seeded draw decides
// whether the other one goes on. Both have their oracles armed: what one does must not show in the other.
}
extern "C" void twin_switch(void **save_sp, void *load_sp);
asm(R"(
.text
.globl twin_switch
.type twin_switch,@function
twin_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size twin_switch,.-twin_switch
)");
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define TWIN_ASAN 1
extern "C" void __sanitizer_start_switch_fiber(void **, const void *, size_t);
extern "C" void __sanitizer_finish_switch_fiber(void *, const void **, size_t *);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
#endif
#endif
namespace sim {
struct PerVar { void *p; size_t n; };
static std::vector<PerVar> &per_vars() { static std::vector<PerVar> v; return v; }
void per_instance(void *p, size_t n) { per_vars().push_back({p, n}); }
enum { TWIN_STACK = 1 << 20 };
static struct Twin {
    bool        on = false, done = false, failed = false, drain = false;
    int         cur = 0;
    uint64_t    draw = 0, den = 1;
    void       *sp[2] = {nullptr, nullptr};
    char       *stack = nullptr;
    const void *main_bottom = nullptr;
    size_t      main_size = 0;
    Violation   v;
    std::vector<char> vars[2];
    const Scenario *sc = nullptr;
    const Plan     *plan = nullptr;
    Ctx            *ctx = nullptr;
} T;
int instance() { return T.on ? T.cur : 0; }
static void twin_vars(int save, int load) {
    char *s = T.vars[save].data(), *l = T.vars[load].data();
    for (auto &v : per_vars()) {
        memcpy(s, v.p, v.n); memcpy(v.p, l, v.n);
        s += v.n; l += v.n;
    }
}
static void twin_to(int to) {
    int from = T.cur;
    twin_vars(from, to);
    T.cur = to;
#ifdef TWIN_ASAN
    void *fake = nullptr;
    __sanitizer_start_switch_fiber(from == 1 && T.done ? nullptr : &fake, to ? T.stack : T.main_bottom, to ? TWIN_STACK : T.main_size);
#endif
    twin_switch(&T.sp[from], T.sp[to]);
#ifdef TWIN_ASAN
    __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
#endif
    g_edges = 0;
}
static void twin_entry() {
#ifdef TWIN_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &T.main_bottom, &T.main_size);
#endif
    try {
        T.sc->run(*T.plan, *T.ctx);
    } catch (Violation &v) {
        T.v = v;
        T.failed = true;
    }
    T.done = true;
    for (;;) twin_to(0);
}
static void twin_point() {
    if (!T.on || T.done || T.drain) return;
    if (Rng::splitmix(T.draw) % T.den) return;
    int me = T.cur;
    twin_to(!me);
    if (me == 0 && T.failed) { T.failed = false; throw T.v; }
}
static void twin_start(const Scenario &sc, const Plan &plan2, int64_t seed, Ctx *ctx) {
    T.done = T.failed = T.drain = false;
    T.cur = 0;
    T.draw = (uint64_t)seed;
    static const int dens[] = {1, 2, 3, 8, 24, 80};
    T.den = (uint64_t)dens[Rng::splitmix(T.draw) % 6];
    T.sc = &sc; T.plan = &plan2; T.ctx = ctx;
    if (!T.stack) T.stack = (char *)mmap(nullptr, TWIN_STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#ifdef TWIN_ASAN
    __asan_unpoison_memory_region(T.stack, TWIN_STACK);
#endif
    size_t n = 0;
    for (auto &v : per_vars()) n += v.n;
    T.vars[0].resize(n);
    T.vars[1].resize(n);
    char *l = T.vars[1].data();
    for (auto &v : per_vars()) { memcpy(l, v.p, v.n); l += v.n; }
    void **s = (void **)(((uintptr_t)T.stack + TWIN_STACK) & ~(uintptr_t)15);
    *--s = nullptr;
    *--s = (void *)twin_entry;
    for (int i = 0; i < 6; i++) *--s = nullptr;
    T.sp[1] = s;
    T.on = true;
}
static void twin_finish() {         // the first instance is done: the second lives on alone
    T.drain = true;
    if (!T.done) twin_to(1);
    if (T.failed) { T.failed = false; throw T.v; }
}

static void silence_stdio(int errfd) {
    int n = open("/dev/null", O_RDWR);
    if (n >= 0) { dup2(n, 0); dup2(n, 1); }
    if (errfd >= 0) dup2(errfd, 2);
}

// executes one plan in this process
static int execute(const Scenario &sc, const Plan &plan, Slot *slot) {
    Ctx *ctx = slot->ctx();
    restore_globals();
    g_budget_per_step = sc.edge_budget;
    progress();
    int  st = ST_OK;
    Plan second;
    T.on = false;
    try {
        if (plan.twin && sc.twin) {
            second.cfg = plan.cfg2;
            second.ops = plan.ops2;
            twin_start(sc, second, plan.twin, ctx);
            sc.run(plan, *ctx);
            twin_finish();
        } else sc.run(plan, *ctx);
    } catch (Violation &v) {
        snprintf(slot->cls, sizeof slot->cls, "%s", v.cls.c_str());
        snprintf(slot->msg, sizeof slot->msg, "%s", v.msg.c_str());
        st = ST_VIOL;
    }
    T.on = false;
    g_edge_limit = ~0ull;
    return st;
}

struct Result {
    int         status = ST_NONE;
    std::string cls, msg;
    uint64_t    hash = 0, events = 0;
};

static std::string read_summary(int fd) {
    std::string out;
    char        buf[4096];
    lseek(fd, 0, SEEK_SET);
    ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) > 0 && out.size() < 65536) out.append(buf, (size_t)n);
    size_t p = out.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = out.find("SUMMARY:");
    if (p == std::string::npos) return out.substr(0, 200);
    std::string line = out.substr(p, out.find('\n', p) - p);
    size_t      q    = out.find("#0 ", p);
    if (q != std::string::npos) line += " | " + out.substr(q, out.find('\n', q) - q);
    // addresses differ between machines: keep the kind and the location only
    std::string clean;
    for (size_t i = 0; i < line.size(); i++) {
        if (line.compare(i, 2, "0x") == 0) {
            i += 2;
            while (i < line.size() && isxdigit((unsigned char)line[i])) i++;
            clean += "0x..";
            i--;
            continue;
        }
        if (line[i] != '\n') clean += line[i];
    }
    return clean.substr(0, 600);
}

static void classify_exit(int wst, int errfd, std::string &cls, std::string &msg) {
    if (WIFEXITED(wst) && WEXITSTATUS(wst) == 77) {
        cls = "hang";
        msg = "the code under test did not return within its step budget";
    } else if (WIFEXITED(wst) && WEXITSTATUS(wst) == 99) {
        cls = "memory-error";
        msg = read_summary(errfd);
    } else if (WIFSIGNALED(wst) && WTERMSIG(wst) == SIGALRM) {
        cls = "hang";
        msg = "the run did not finish within its wall-clock safety limit";
    } else if (WIFSIGNALED(wst)) {
        cls = "crash";
        msg = std::string("the code under test died: ") + strsignal(WTERMSIG(wst));
    } else {
        cls = "";
        msg = "worker exited unexpectedly: " + read_summary(errfd);
    }
}

static int tmp_fd() {
    int fd = memfd_create("simerr", 0);
    return fd;
}

static Slot *g_iso;
static Result run_isolated(const Scenario &sc, const Plan &plan, const std::string &prop, const char *logfile = nullptr) {
    if (!g_iso) g_iso = (Slot *)shm(sizeof(Slot));
    memset((void *)g_iso, 0, sizeof *g_iso);
    int   fd  = tmp_fd();
    pid_t pid = fork();
    if (pid == 0) {
        silence_stdio(fd);
        alarm(60);
        Ctx *c    = new (g_iso->ctxmem) Ctx();
        c->target = prop;
        if (logfile) c->log = fopen(logfile, "w");
        int st = execute(sc, plan, g_iso);
        g_iso->hash = c->hash;
        g_iso->events = c->events;
        g_iso->status = st;
        if (c->log) fclose(c->log);
        _exit(0);
    }
    int wst = 0;
    while (waitpid(pid, &wst, 0) < 0 && errno == EINTR) {}
    Result r;
    if (WIFEXITED(wst) && WEXITSTATUS(wst) == 0 && g_iso->status != ST_NONE) {
        r.status = g_iso->status;
        r.cls    = g_iso->cls;
        r.msg    = g_iso->msg;
        r.hash   = g_iso->hash;
        r.events = g_iso->events;
    } else {
        classify_exit(wst, fd, r.cls, r.msg);
        r.status = r.cls.empty() ? ST_INTERNAL : ST_VIOL;
        r.hash   = g_iso->ctx()->hash;
        r.events = g_iso->ctx()->events;
    }
    close(fd);
    return r;
}

// ---- replay files ----------------------------------------------------------------------------------
static void write_ops(FILE *f, const Scenario &sc, const std::vector<int64_t> &cfg, const std::vector<Op> &ops, const char *k) {
    fprintf(f, "cfg%s", k);
    for (auto v : cfg) fprintf(f, " %lld", (long long)v);
    fprintf(f, "\n");
    for (auto &o : ops) {
        fprintf(f, "op%s %d", k, o.kind);
        for (int i = 0; i < NARGS; i++) fprintf(f, " %lld", (long long)o.a[i]);
        if (o.kind >= 0 && o.kind < (int)sc.op_names.size()) fprintf(f, "   # %s", sc.op_names[(size_t)o.kind].c_str());
        fprintf(f, "\n");
    }
}
static void write_plan(FILE *f, const Scenario &sc, const Plan &p) {
    write_ops(f, sc, p.cfg, p.ops, "");
    if (!p.twin) return;
    fprintf(f, "# the second instance, and the seed of its interleaving with the first\ntwin %lld\n", (long long)p.twin);
    write_ops(f, sc, p.cfg2, p.ops2, "2");
}

static bool load_replay(const char *path, std::string &prop, const Scenario *&sc, Plan &plan, Result &want) {
    FILE *f = fopen(path, "r");
    if (!f) return false;
    char line[4096];
    sc = nullptr;
    while (fgets(line, sizeof line, f)) {
        if (line[0] == '#') continue;
        char *hash = strchr(line, '#');
        char  key[64];
        int   off = 0;
        if (sscanf(line, "%63s %n", key, &off) < 1) continue;
        std::string k = key;
        if (k == "msg" || k == "class") {
            std::string v = line + off;
            while (v.size() && (v.back() == '\n' || v.back() == ' ')) v.pop_back();
            (k == "msg" ? want.msg : want.cls) = v;
            continue;
        }
        if (hash) *hash = 0;
        char val[256] = "";
        if (k == "property") { sscanf(line + off, "%255s", val); prop = val; }
        else if (k == "scenario") {
            sscanf(line + off, "%255s", val);
            for (auto &s : scens()) if (s.name == val) sc = &s;
        } else if (k == "hash") want.hash = strtoull(line + off, nullptr, 16);
        else if (k == "events") want.events = strtoull(line + off, nullptr, 10);
        else if (k == "twin") plan.twin = strtoll(line + off, nullptr, 10);
        else if (k == "cfg" || k == "op" || k == "cfg2" || k == "op2") {
            std::vector<int64_t> v;
            char *q = line + off, *e;
            for (;;) {
                long long x = strtoll(q, &e, 10);
                if (e == q) break;
                v.push_back(x);
                q = e;
            }
            if (k == "cfg") plan.cfg = v;
            else if (k == "cfg2") plan.cfg2 = v;
            else if (!v.empty()) {
                Op o((int)v[0]);
                for (size_t i = 1; i < v.size() && i <= NARGS; i++) o.a[i - 1] = v[i];
                (k == "op" ? plan.ops : plan.ops2).push_back(o);
            }
        }
    }
    fclose(f);
    return sc != nullptr;
}

// The same in a newly executed process: nothing of this process's memory (heap contents, addresses) can matter.
static Result run_exec(const Scenario &sc, const Plan &plan, const std::string &prop, const std::string &dir) {
    std::string in = dir + "/.probe." + std::to_string(getpid()), out = in + ".out";
    Result      r;
    FILE       *f = fopen(in.c_str(), "w");
    if (!f) return r;
    fprintf(f, "property %s\nscenario %s\nclass -\nhash 0\nevents 0\nmsg -\n", prop.c_str(), sc.name.c_str());
    write_plan(f, sc, plan);
    fclose(f);
    pid_t pid = fork();
    if (pid == 0) {
        silence_stdio(-1);
        execl("/proc/self/exe", "sim", "--replay", in.c_str(), "--probe", out.c_str(), (char *)nullptr);
        _exit(2);
    }
    int wst = 0;
    while (waitpid(pid, &wst, 0) < 0 && errno == EINTR) {}
    if ((f = fopen(out.c_str(), "r"))) {
        unsigned long long h = 0, e = 0;
        char               cls[64] = "", msg[512] = "";
        if (fscanf(f, "%d %llx %llu %63s %511[^\n]", &r.status, &h, &e, cls, msg) >= 4) { r.hash = h; r.events = e; r.cls = strcmp(cls, "-") ? cls : ""; r.msg = msg; }
        fclose(f);
    }
    unlink(in.c_str());
    unlink(out.c_str());
    return r;
}

// ---- minimiser ---------------------------------------------------------------------------------------
struct Minimiser {
    const Scenario &sc;
    std::string     prop, cls;
    double          deadline;
    long            budget;
    std::function<Result(const Plan &)> runner;
    long            tried = 0;
    bool spent() { return tried >= budget || now_s() > deadline; }
    bool fails(const Plan &p) {
        if (spent()) return false;
        tried++;
        Result r = runner(p);
        return r.status == ST_VIOL && r.cls == cls;
    }
    void ops(Plan &p, std::vector<Op> Plan::*which) {
        size_t chunk = std::max<size_t>(1, (p.*which).size() / 2);
        while (!spent() && !(p.*which).empty()) {
            bool any = false;
            for (size_t i = 0; i < (p.*which).size() && !spent();) {
                Plan   q = p;
                auto  &l = q.*which;
                size_t e = std::min(l.size(), i + chunk);
                l.erase(l.begin() + (long)i, l.begin() + (long)e);
                if (fails(q)) { p = q; any = true; }
                else i += chunk;
            }
            if (chunk == 1 && !any) break;
            if (!any || chunk > (p.*which).size()) chunk = std::max<size_t>(1, std::min(chunk / 2, (p.*which).size() / 2));
        }
    }
    void alone(Plan &p) {         // is one of the two instances enough?
        if (!p.twin) return;
        Plan q = p;
        q.twin = 0;
        q.cfg2.clear();
        q.ops2.clear();
        if (fails(q)) { p = q; return; }
        q.cfg = p.cfg2;
        q.ops = p.ops2;
        if (fails(q)) { p = q; return; }
        q = p;
        for (int s = 1; s <= 12; s++) { q.twin = s; if (s < p.twin && fails(q)) { p = q; return; } }
    }
    bool shrink_val(Plan &p, int64_t &ref) {
        bool    any  = false;
        int64_t orig = ref;
        for (int64_t cand : {(int64_t)0, (int64_t)1, orig / 2, orig - 1}) {
            if (cand == ref || (cand < 0 ? -cand : cand) > (orig < 0 ? -orig : orig)) continue;
            int64_t keep = ref;
            ref          = cand;
            if (fails(p)) return true;
            ref = keep;
        }
        return any;
    }
    void values(Plan &p) {
        for (auto &v : p.cfg) for (int k = 0; k < 6 && !spent(); k++) if (!shrink_val(p, v)) break;
        for (auto &v : p.cfg2) for (int k = 0; k < 6 && !spent(); k++) if (!shrink_val(p, v)) break;
        for (auto *l : {&p.ops, &p.ops2})
            for (auto &o : *l)
                for (auto &v : o.a) for (int k = 0; k < 6 && !spent(); k++) if (!shrink_val(p, v)) break;
    }
    void run(Plan &p) {
        for (int round = 0; round < 4 && !spent(); round++) {
            Plan old = p;
            alone(p);
            ops(p, &Plan::ops);
            ops(p, &Plan::ops2);
            values(p);
            auto eq = [](const std::vector<Op> &a, const std::vector<Op> &b) {
                bool same = a.size() == b.size();
                for (size_t i = 0; same && i < a.size(); i++) same = a[i].kind == b[i].kind && !memcmp(a[i].a, b[i].a, sizeof a[i].a);
                return same;
            };
            if (old.twin == p.twin && old.cfg == p.cfg && old.cfg2 == p.cfg2 && eq(old.ops, p.ops) && eq(old.ops2, p.ops2)) break;
        }
    }
};

// ---- known findings ------------------------------------------------------------------------------------
struct Known { std::string prop, match, text; };
static std::vector<Known> load_known(const char *path) {
    // finding: property=<id> match=<substring of "class: message"; spaces written as ~> <what fails>
    std::vector<Known> v;
    FILE *f = fopen(path, "r");
    if (!f) return v;
    char line[2048];
    while (fgets(line, sizeof line, f)) {
        char p[64], m[512];
        int  off = 0;
        if (sscanf(line, "finding: property=%63s match=%511s %n", p, m, &off) == 2 && off) {
            std::string mm = m, t = line + off;
            for (auto &c : mm) if (c == '~') c = ' ';
            while (t.size() && t.back() == '\n') t.pop_back();
            v.push_back({p, mm, t});
        }
    }
    fclose(f);
    return v;
}
static bool is_known(const std::vector<Known> &k, const std::string &prop, const std::string &cls, const std::string &msg) {
    std::string s = cls + ": " + msg;
    for (auto &x : k) if (x.prop == prop && s.find(x.match) != std::string::npos) return true;
    return false;
}

static std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
static std::string jlist(const std::vector<std::string> &v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += (i ? ", \"" : "\"") + jesc(v[i]) + "\"";
    return s + "]";
}

static int spawn_self(const char *replay) {
    pid_t pid = fork();
    if (pid == 0) {
        int n = open("/dev/null", O_RDWR);
        dup2(n, 1);
        execl("/proc/self/exe", "sim", "--replay", replay, (char *)nullptr);
        _exit(2);
    }
    int wst = 0;
    while (waitpid(pid, &wst, 0) < 0 && errno == EINTR) {}
    return WIFEXITED(wst) ? WEXITSTATUS(wst) : 2;
}

static int do_replay(const char *path, const char *probe) {
    std::string     prop;
    const Scenario *sc;
    Plan            plan;
    Result          want;
    if (!load_replay(path, prop, sc, plan, want)) { fprintf(stderr, "cannot load %s\n", path); return 2; }
    Result r = run_isolated(*sc, plan, prop);
    if (probe) {
        FILE *f = fopen(probe, "w");
        if (!f) return 2;
        fprintf(f, "%d %llx %llu %s %s\n", r.status, (unsigned long long)r.hash, (unsigned long long)r.events, r.cls.empty() ? "-" : r.cls.c_str(), r.msg.c_str());
        fclose(f);
        return 0;
    }
    printf("scenario=%s class=%s hash=%016llx events=%llu\n%s\n", sc->name.c_str(), r.cls.c_str(), (unsigned long long)r.hash,
           (unsigned long long)r.events, r.msg.c_str());
    if (r.status != ST_VIOL) { printf("replay: no violation\n"); return 0; }
    if (r.cls == want.cls && r.hash == want.hash) {
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path);
        return 1;
    }
    printf("replay: a different violation than recorded (class %s hash %016llx)\n", want.cls.c_str(), (unsigned long long)want.hash);
    return 2;
}

struct Options {
    std::string prop, tier = "quick", evidence, replays = "replays", known;
    uint64_t    seed = 1;
    long        runs = -1, from = 0;
    int         jobs = 8;
    double      wall = 0;
    long        divide = 1;             // this many times fewer runs than the budget says
    std::string append;                 // a finished evidence file to add this search to, if it holds
    std::string binary = "sim_GROUP";   // name of the binary replay files are for
    bool        dump = false;
};

static int search(Options &o) {
    std::vector<const Scenario *> mine;
    for (auto &s : scens()) if (std::count(s.props.begin(), s.props.end(), o.prop)) mine.push_back(&s);
    if (mine.empty()) { fprintf(stderr, "no scenario for %s\n", o.prop.c_str()); return 2; }
    int  tier = o.tier == "thorough";
    auto b    = budgets().count(o.prop) ? budgets()[o.prop] : std::make_pair(20000L, 400000L);
    long N    = o.runs >= 0 ? o.runs : (tier ? b.second : b.first) / std::max(1L, o.divide);
    if (o.wall <= 0) o.wall = (tier ? 600 : 120) / (o.divide > 1 ? 3.0 : 1.0);
    int    W  = o.jobs;
    size_t ns = scens().size();
    auto   known = load_known(o.known.c_str());

    printf("seed=%llu property=%s tier=%s runs=%ld jobs=%d\n", (unsigned long long)o.seed, o.prop.c_str(), o.tier.c_str(), N, W);
    fflush(stdout);

    auto *slots  = (Slot *)shm(sizeof(Slot) * (size_t)W);
    auto *tot    = (ScenTotals *)shm(sizeof(ScenTotals) * (size_t)W * ns);
    auto *hashes = (uint64_t *)shm(sizeof(uint64_t) * (size_t)(N + 1));
    auto *flags  = (uint8_t *)shm((size_t)N + 1);   // 1 done, 2 non-trivial
    auto *smap   = (uint8_t *)shm(STATEBYTES * ns);
    auto *minv   = (std::atomic<long> *)shm(sizeof(std::atomic<long>));
    auto *nknown = (std::atomic<long> *)shm(sizeof(std::atomic<long>));
    *minv        = N;
    double t0    = now_s();

    auto one = [&](long idx, Slot *sl, bool record, int w) {
        Rng             rng;
        const Scenario *sc = scenario_for_run(o.prop, o.seed, idx, rng);
        size_t          si = (size_t)(sc - scens().data());
        Plan            plan;
        bool endurance = make_plan(*sc, rng, plan, tier, o.prop);
        Ctx *c     = new (sl->ctxmem) Ctx();
        c->target  = o.prop;
        c->statemap = record ? smap + STATEBYTES * si : nullptr;
        sl->cls[0] = sl->msg[0] = 0;
        int st = execute(*sc, plan, sl);
        if (record) {
            hashes[idx] = c->hash;
            flags[idx]  = (uint8_t)(1 | (c->nontrivial ? 2 : 0));
            ScenTotals &t = tot[(size_t)w * ns + si];
            t.runs++;
            t.endurance += endurance;
            t.twins += plan.twin != 0;
            t.longest = std::max<uint64_t>(t.longest, plan.ops.size());
            t.ops += plan.ops.size();
            t.nontrivial += c->nontrivial;
            t.events += c->events;
            t.sim_us += c->sim_us;
            for (int k = 0; k < MAXCNT; k++) {
                t.faults[k] += c->faults[k];
                t.probes[k] += c->probes[k];
                t.fault_runs[k] += c->faults[k] != 0;
                t.probe_runs[k] += c->probes[k] != 0;
            }
        }
        return st;
    };

    std::vector<pid_t> pids((size_t)W);
    std::vector<int>   fds((size_t)W);
    for (int w = 0; w < W; w++) {
        fds[(size_t)w] = tmp_fd();
        new (&slots[w]) Slot();
        slots[w].cur = -1;
        slots[w].viol_index = -1;
        pid_t pid = fork();
        if (pid == 0) {
            silence_stdio(fds[(size_t)w]);
            Slot *sl = &slots[w];
            for (long i = o.from + w; i < N; i += W) {
                if (i > minv->load()) break;
                if ((i / W) % 16 == 0) {
                    if (now_s() - t0 > o.wall) break;
                    struct itimerval it = {{0, 0}, {60, 0}};
                    setitimer(ITIMER_REAL, &it, nullptr);
                }
                sl->cur = i;
                int st  = one(i, sl, true, w);
                if (st == ST_VIOL) {
                    if (is_known(known, o.prop, sl->cls, sl->msg)) { (*nknown)++; continue; }
                    sl->viol_index = i;
                    long m = minv->load();
                    while (i < m && !minv->compare_exchange_weak(m, i)) {}
                    break;
                }
            }
            sl->status = ST_OK;
            _exit(0);
        }
        pids[(size_t)w] = pid;
    }
    std::string crash_cls, crash_msg;
    bool        internal = false;
    for (int left = W; left > 0; left--) {
        int   wst = 0;
        pid_t p   = wait(&wst);
        if (p < 0) { if (errno == EINTR) { left++; continue; } break; }
        int w = (int)(std::find(pids.begin(), pids.end(), p) - pids.begin());
        if (w >= W) { left++; continue; }
        if (WIFEXITED(wst) && WEXITSTATUS(wst) == 0) continue;
        std::string c, m;
        classify_exit(wst, fds[(size_t)w], c, m);
        long i = slots[w].cur;
        if (c.empty()) { fprintf(stderr, "internal error at run %ld: %s\n", i, m.c_str()); internal = true; continue; }
        slots[w].viol_index = i;
        snprintf(slots[w].cls, sizeof slots[w].cls, "%s", c.c_str());
        snprintf(slots[w].msg, sizeof slots[w].msg, "%s", m.c_str());
        long cur = minv->load();
        while (i < cur && !minv->compare_exchange_weak(cur, i)) {}
    }
    for (int fd : fds) close(fd);
    double t_search = now_s() - t0;

    long vi = -1;
    int  vw = -1;
    for (int w = 0; w < W; w++)
        if (slots[w].viol_index >= 0 && (vi < 0 || slots[w].viol_index < vi)) { vi = slots[w].viol_index; vw = w; }
    if (internal && vi < 0) return 2;

    // in-check determinism proof: a sample of the runs again, other process, other order
    long rechecked = 0, mismatched = 0;
    if (vi < 0) {
        auto *res = (long *)shm(sizeof(long) * 2);
        pid_t pid = fork();
        if (pid == 0) {
            silence_stdio(-1);
            Slot *sl   = &slots[0];
            long  step = std::max(1L, N / (tier ? 4000 : 400));
            for (long i = N - 1; i >= 0; i -= step) {
                if (!(flags[i] & 1)) continue;
                uint64_t h = hashes[i];
                sl->cur = i;
                one(i, sl, false, 0);
                res[0]++;
                if (sl->ctx()->hash != h) { res[1]++; fprintf(stderr, "run %ld is not repeatable\n", i); }
            }
            _exit(0);
        }
        int wst = 0;
        while (waitpid(pid, &wst, 0) < 0 && errno == EINTR) {}
        rechecked  = res[0];
        mismatched = res[1];
        if (!WIFEXITED(wst) || WEXITSTATUS(wst)) { fprintf(stderr, "determinism recheck died at run %ld\n", (long)slots[0].cur); return 2; }
        if (mismatched) { fprintf(stderr, "%ld of %ld rechecked runs were not repeatable\n", mismatched, rechecked); return 2; }
    }

    // totals
    std::vector<ScenTotals> sum(ns);
    memset((void *)sum.data(), 0, sizeof(ScenTotals) * ns);
    uint64_t runs = 0, nontrivial = 0, events = 0, ops = 0;
    double   sim_us = 0;
    for (int w = 0; w < W; w++)
        for (size_t s = 0; s < ns; s++) {
            uint64_t *d = (uint64_t *)&sum[s], *x = (uint64_t *)&tot[(size_t)w * ns + s];
            uint64_t longest = std::max(sum[s].longest, tot[(size_t)w * ns + s].longest);
            for (size_t k = 0; k < sizeof(ScenTotals) / 8; k++) d[k] += x[k];
            sum[s].longest = longest;
        }
    for (auto &s : sum) { runs += s.runs; nontrivial += s.nontrivial; events += s.events; sim_us += (double)s.sim_us; ops += s.ops; }
    std::vector<uint64_t> hv;
    std::set<uint64_t>    all;
    for (long i = 0; i < N; i++) if (flags[i] & 1) { hv.push_back(hashes[i]); }
    size_t distinct_all = 0, distinct_nt = 0;
    {
        auto v = hv;
        std::sort(v.begin(), v.end());
        distinct_all = (size_t)(std::unique(v.begin(), v.end()) - v.begin());
        std::vector<uint64_t> nt;
        for (long i = 0; i < N; i++) if ((flags[i] & 3) == 3) nt.push_back(hashes[i]);
        std::sort(nt.begin(), nt.end());
        distinct_nt = (size_t)(std::unique(nt.begin(), nt.end()) - nt.begin());
    }
    uint64_t states = 0;
    for (size_t s = 0; s < ns; s++)
        for (size_t k = 0; k < STATEBYTES; k++) states += (uint64_t)__builtin_popcount(smap[s * STATEBYTES + k]);

    int         verdict = 0;
    std::string replay_path;
    Plan        vplan;
    size_t      ops_before = 0;
    std::string vcls, vmsg;
    if (vi >= 0) {
        Rng             rng;
        const Scenario *sc = scenario_for_run(o.prop, o.seed, vi, rng);
        make_plan(*sc, rng, vplan, tier, o.prop);
        ops_before = vplan.ops.size();
        vcls       = slots[vw].cls;
        printf("run %ld (scenario %s) breaks %s: %s: %s\n", vi, sc->name.c_str(), o.prop.c_str(), slots[vw].cls, slots[vw].msg);
        fflush(stdout);
        mkdir(o.replays.c_str(), 0777);
        Result first = run_isolated(*sc, vplan, o.prop);
        // A run that ends well may have damaged memory and made a later run of the same worker fail: find it.
        for (long back = vi - W, n = 0; first.status != ST_VIOL && back >= o.from && n < 4000; back -= W, n++) {
            Rng             rng2;
            const Scenario *sc2 = scenario_for_run(o.prop, o.seed, back, rng2);
            Plan            plan2;
            make_plan(*sc2, rng2, plan2, tier, o.prop);
            Result r = run_isolated(*sc2, plan2, o.prop);
            if (r.status != ST_VIOL || is_known(known, o.prop, r.cls, r.msg)) continue;
            printf("run %ld does not fail alone; run %ld before it (scenario %s) does: %s: %s\n", vi, back, sc2->name.c_str(), r.cls.c_str(), r.msg.c_str());
            first = r; sc = sc2; vplan = plan2; vi = back; vcls = r.cls;
            ops_before = vplan.ops.size();
        }
        // What failed depends on what the worker had done before (addresses, for one): search again with every run in a fresh process.
        double fresh_until = now_s() + (tier ? 300 : 120);
        for (long i = o.from, n = 0; first.status != ST_VIOL && i < N && n < 60000 && now_s() < fresh_until; i++, n++) {
            Rng             rng2;
            const Scenario *sc2 = scenario_for_run(o.prop, o.seed, i, rng2);
            Plan            plan2;
            make_plan(*sc2, rng2, plan2, tier, o.prop);
            Result r = run_isolated(*sc2, plan2, o.prop);
            if (r.status != ST_VIOL || is_known(known, o.prop, r.cls, r.msg)) continue;
            printf("run %ld does not fail alone; run %ld (scenario %s) does: %s: %s\n", vi, i, sc2->name.c_str(), r.cls.c_str(), r.msg.c_str());
            first = r; sc = sc2; vplan = plan2; vi = i; vcls = r.cls;
            ops_before = vplan.ops.size();
        }
        if (first.status == ST_VIOL && first.cls != vcls) {
            printf("alone, run %ld shows: %s: %s\n", vi, first.cls.c_str(), first.msg.c_str());
            vcls = first.cls;
        }
        if (first.status != ST_VIOL) {
            fprintf(stderr, "violation of run %ld did not reproduce in isolation (%s)\n", vi, first.cls.c_str());
            return 2;
        }
        Plan      minp = vplan;
        std::function<Result(const Plan &)> runner = [&](const Plan &p) { return run_isolated(*sc, p, o.prop); };
        Minimiser m{*sc, o.prop, vcls, now_s() + (tier ? 90 : 30), tier ? 20000 : 4000, runner};
        m.run(minp);
        auto gate = [&](const Plan &p, const char *suffix) {
            Result a = runner(p), c = runner(p);
            if (a.status != ST_VIOL || c.status != ST_VIOL || a.hash != c.hash || a.cls != c.cls || a.cls != vcls) return false;
            char name[256], logname[300];
            snprintf(name, sizeof name, "%s/%s-seed%llu-run%ld%s.replay", o.replays.c_str(), o.prop.c_str(), (unsigned long long)o.seed, vi, suffix);
            snprintf(logname, sizeof logname, "%s.log", name);
            FILE *f = fopen(name, "w");
            if (!f) return false;
            fprintf(f, "# deterministic simulation replay: VERIF_SEED=%llu run %ld, %zu operations minimised to %zu\n",
                    (unsigned long long)o.seed, vi, ops_before, p.ops.size());
            fprintf(f, "# replay with: build/%s --replay FILE [--verbose]\n", o.binary.c_str());
            fprintf(f, "property %s\nscenario %s\nclass %s\nhash %016llx\nevents %llu\nmsg %s\n", o.prop.c_str(), sc->name.c_str(), a.cls.c_str(),
                    (unsigned long long)a.hash, (unsigned long long)a.events, a.msg.c_str());
            fprintf(f, "# cfg:");
            for (auto &n : sc->cfg_names) fprintf(f, " %s", n.c_str());
            fprintf(f, "\n");
            write_plan(f, *sc, p);
            fclose(f);
            run_isolated(*sc, p, o.prop, logname);
            if (spawn_self(name) != 1 || spawn_self(name) != 1) return false;
            vmsg        = a.msg;
            replay_path = name;
            FILE *lf = fopen(logname, "r");
            if (lf) {
                f = fopen(name, "a");
                fprintf(f, "# event log of the run (tag and values):\n");
                char line[512];
                int  n = 0;
                while (fgets(line, sizeof line, lf) && n++ < 2000) fprintf(f, "# %s", line);
                fclose(f);
                fclose(lf);
                unlink(logname);
            }
            return true;
        };
        if (gate(minp, "")) vplan = minp;
        else if (!gate(vplan, "-full")) {
            // It depends on what lies in memory around the objects of the code under test: search and minimise with
            // every run in a newly executed process, where that is the same every time.
            runner       = [&](const Plan &p) { return run_exec(*sc, p, o.prop, o.replays); };
            bool   found = false;
            double until = now_s() + (tier ? 300 : 120);
            for (long i = vi, n = 0; !found && n < 20000 && now_s() < until; n++, i = n == 1 ? o.from : i + 1) {
                if (i >= N) break;
                Rng             rng2;
                const Scenario *sc2 = scenario_for_run(o.prop, o.seed, i, rng2);
                Plan            plan2;
                make_plan(*sc2, rng2, plan2, tier, o.prop);
                sc       = sc2;
                Result r = runner(plan2);
                if (r.status != ST_VIOL || is_known(known, o.prop, r.cls, r.msg)) continue;
                vplan = plan2; vi = i; vcls = r.cls; ops_before = vplan.ops.size();
                minp = vplan;
                Minimiser m2{*sc, o.prop, vcls, now_s() + (tier ? 90 : 40), tier ? 10000 : 2000, runner};
                m2.run(minp);
                if (gate(minp, "")) { vplan = minp; found = true; }
                else found = gate(vplan, "-full");
            }
            if (!found) {
                fprintf(stderr, "violation of run %ld failed the replay gate\n", vi);
                return 2;
            }
        }
        printf("%s: %s\n", vcls.c_str(), vmsg.c_str());
        printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), replay_path.c_str());
        verdict = 1;
    }
    for (auto &k : known)
        if (k.prop == o.prop) printf("KNOWN-FINDING: property=%s %s\n", o.prop.c_str(), k.text.c_str());

    double wall = now_s() - t0;
    if (!o.append.empty() && !verdict) {        // a further search of the same property on another build: a note in its evidence
        std::ifstream     in(o.append);
        std::stringstream ss;
        ss << in.rdbuf();
        std::string all = ss.str(), mark = "  \"samples\": [";
        size_t      at = all.find(mark);
        if (at == std::string::npos) { fprintf(stderr, "no evidence to add to in %s\n", o.append.c_str()); return 2; }
        char b[512];
        snprintf(b, sizeof b, "  \"search_on_%s\": {\"runs\": %llu, \"distinct_traces\": %zu, \"distinct_nontrivial\": %zu, \"operations\": %llu, \"simulated_seconds\": %.3f, "
                              "\"determinism_rechecked_runs\": %ld, \"wall_s\": %.3f},\n", o.binary.c_str(), (unsigned long long)runs, distinct_all, distinct_nt,
                 (unsigned long long)ops, sim_us * 1e-6, rechecked, wall);
        all.insert(at, b);
        std::ofstream out(o.append + ".tmp");
        out << all;
        out.close();
        if (!out || rename((o.append + ".tmp").c_str(), o.append.c_str())) { perror("evidence"); return 2; }
    } else if (!o.evidence.empty()) {
        FILE *f = fopen((o.evidence + ".tmp").c_str(), "w");
        if (!f) { perror("evidence"); return 2; }
        fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n", o.prop.c_str(),
                o.tier.c_str(), (unsigned long long)o.seed);
        fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n", (unsigned long long)runs, distinct_nt);
        std::string rule;
        for (auto *s : mine) { if (!rule.empty()) rule += " || "; rule += s->name + ": " + s->rule; }
        fprintf(f, "  \"rule\": \"%s\",\n", jesc(rule).c_str());
        fprintf(f, "  \"distinct_traces\": %zu,\n  \"nontrivial_runs\": %llu,\n  \"operations\": %llu,\n  \"events\": %llu,\n", distinct_all,
                (unsigned long long)nontrivial, (unsigned long long)ops, (unsigned long long)events);
        fprintf(f, "  \"states\": %llu,\n", (unsigned long long)states);
        std::string sm;
        for (auto *s : mine) { if (!sm.empty()) sm += " || "; sm += s->name + ": " + s->state_measure; }
        fprintf(f, "  \"state_measure\": \"%s (distinct 64-bit fingerprints folded into an 8-Mbit map, so a lower bound)\",\n", jesc(sm).c_str());
        fprintf(f, "  \"simulated_seconds\": %.3f,\n  \"search_wall_s\": %.3f,\n  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n", sim_us * 1e-6, t_search,
                (double)runs / std::max(t_search, 1e-3) * 3600, (double)runs / std::max(t_search, 1e-3) * 3600);
        fprintf(f, "  \"seeds\": \"one derived 64-bit seed per run: f(VERIF_SEED, property, run index 0..%ld)\",\n", N - 1);
        fprintf(f, "  \"determinism_rechecked_runs\": %ld,\n  \"determinism_mismatches\": %ld,\n", rechecked, mismatched);
        fprintf(f, "  \"scenarios\": {");
        bool fs = true;
        for (auto *s : mine) {
            ScenTotals &t = sum[(size_t)(s - scens().data())];
            fprintf(f, "%s\n   \"%s\": {\"runs\": %llu, \"endurance_runs\": %llu, \"longest_run_operations\": %llu, \"runs_with_two_instances\": %llu, \"simulated_seconds\": %.3f,\n", fs ? "" : ",", s->name.c_str(), (unsigned long long)t.runs,
                    (unsigned long long)t.endurance, (unsigned long long)t.longest, (unsigned long long)t.twins, (double)t.sim_us * 1e-6);
            fs = false;
            for (int pass = 0; pass < 2; pass++) {
                auto &names = pass ? s->probe_names : s->fault_names;
                fprintf(f, "    \"%s\": {", pass ? "conditions_reached" : "faults_injected");
                for (size_t k = 0; k < names.size(); k++)
                    fprintf(f, "%s\"%s\": {\"times\": %llu, \"runs\": %llu}", k ? ", " : "", jesc(names[k]).c_str(),
                            (unsigned long long)(pass ? t.probes : t.faults)[k], (unsigned long long)(pass ? t.probe_runs : t.fault_runs)[k]);
                fprintf(f, "},\n");
            }
            fprintf(f, "    \"real_code\": %s,\n    \"stubs\": %s}", jlist(s->real_components).c_str(), jlist(s->stub_components).c_str());
        }
        fprintf(f, "\n  },\n  \"samples\": [");
        int  printed = 0;
        auto sample  = [&](long i, const Plan *given) {
            Rng             rng;
            const Scenario *sc = scenario_for_run(o.prop, o.seed, i, rng);
            Plan            plan;
            if (given) plan = *given;
            else make_plan(*sc, rng, plan, tier, o.prop);
            std::string s = "run " + std::to_string(i) + " scenario " + sc->name + " cfg[";
            for (size_t k = 0; k < plan.cfg.size() && k < 48; k++)
                s += (k ? " " : "") + (k < sc->cfg_names.size() ? sc->cfg_names[k] + "=" : std::string()) + std::to_string(plan.cfg[k]);
            s += "] " + std::to_string(plan.ops.size()) + " ops:";
            for (size_t k = 0; k < plan.ops.size() && k < 12; k++) {
                auto &op = plan.ops[k];
                s += " " + (op.kind >= 0 && op.kind < (int)sc->op_names.size() ? sc->op_names[(size_t)op.kind] : std::to_string(op.kind)) + "(";
                int last = NARGS;
                while (last > 0 && op.a[last - 1] == 0) last--;
                for (int q = 0; q < last; q++) s += (q ? "," : "") + std::to_string(op.a[q]);
                s += ")";
            }
            if (plan.ops.size() > 12) s += " ...";
            if (plan.twin) s += " beside a second instance with " + std::to_string(plan.ops2.size()) + " ops";
            if (!given) { char hb[40]; snprintf(hb, sizeof hb, " trace=%016llx", (unsigned long long)hashes[i]); s += hb; }
            else s += " -> VIOLATION " + vcls + ": " + vmsg;
            fprintf(f, "%s\n   \"%s\"", printed++ ? "," : "", jesc(s).c_str());
        };
        if (vi >= 0) sample(vi, &vplan);
        for (long i = 0; i < N && printed < 4; i += std::max(1L, N / 3)) if ((flags[i] & 3) == 3) sample(i, nullptr);
        if (!printed) for (long i = 0; i < N && printed < 1; i++) if (flags[i] & 1) sample(i, nullptr);
        fprintf(f, "\n  ]\n },\n");
        fprintf(f, " \"assumptions\": [\"sampling: a clean batch is evidence, not proof\", \"simulated devices, clocks, callers and schedules as listed under stubs\"],\n");
        fprintf(f, " \"wall_s\": %.3f,\n \"violations\": %d", wall, vi >= 0 ? 1 : 0);
        fprintf(f, "\n}\n");
        fclose(f);
        if (rename((o.evidence + ".tmp").c_str(), o.evidence.c_str())) { perror("evidence"); return 2; }
    }
    if (!verdict)
        printf("%s held on %llu runs (%zu distinct, %zu distinct non-trivial, %llu states, %.1f simulated s) in %.1f s; %ld rechecked, 0 diverged\n", o.prop.c_str(),
               (unsigned long long)runs, distinct_all, distinct_nt, (unsigned long long)states, sim_us * 1e-6, wall, rechecked);
    if (!verdict && (long)runs < std::min(N, 64L)) { fprintf(stderr, "too few runs executed\n"); return 2; }
    return verdict;
}

// prints one line per run: index, trace hash - for cross-process determinism comparison
static int hashes_main(Options &o) {
    std::string prop = o.prop;
    int         tier = o.tier == "thorough";
    Slot       *sl   = (Slot *)shm(sizeof(Slot));
    for (long i = o.from; i < o.from + o.runs; i++) {
        Rng             rng;
        const Scenario *sc = scenario_for_run(prop, o.seed, i, rng);
        if (!sc) return 2;
        Plan plan;
        make_plan(*sc, rng, plan, tier, prop);
        Ctx *c    = new (sl->ctxmem) Ctx();
        c->target = prop;
        sl->cls[0] = 0;
        int st = execute(*sc, plan, sl);
        printf("%s %ld %016llx %d %s\n", prop.c_str(), i, (unsigned long long)c->hash, st, sl->cls);
    }
    return 0;
}

}   // namespace sim

int main(int argc, char **argv) {
    using namespace sim;
    // same addresses on every run (best effort; no oracle or hash depends on an address)
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    snapshot_globals();
    Options     o;
    const char *replay = nullptr, *probe = nullptr;
    bool        hashes = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto        v = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
        if (a == "--replay") replay = v();
        else if (a == "--probe") probe = v();
        else if (a == "--tier") o.tier = v();
        else if (a == "--seed") o.seed = strtoull(v(), nullptr, 0);
        else if (a == "--evidence") o.evidence = v();
        else if (a == "--replays") o.replays = v();
        else if (a == "--known") o.known = v();
        else if (a == "--runs") o.runs = atol(v());
        else if (a == "--from") o.from = atol(v());
        else if (a == "--jobs") o.jobs = atoi(v());
        else if (a == "--wall") o.wall = atof(v());
        else if (a == "--divide") o.divide = atol(v());
        else if (a == "--append") o.append = v();
        else if (a == "--binary") o.binary = v();
        else if (a == "--long") g_force_long = 1;
        else if (a == "--hashes") hashes = true;
        else if (a == "--list") {
            for (auto &s : scens()) for (auto &p : s.props) printf("%s %s\n", p.c_str(), s.name.c_str());
            return 0;
        } else o.prop = a;
    }
    if (replay) return do_replay(replay, probe);
    if (hashes) return hashes_main(o);
    return search(o);
}
