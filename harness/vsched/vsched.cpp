// compiled WITHOUT the prelude
#include "vsched.h"
#include <ucontext.h>
#include <cxxabi.h>
#include <sys/mman.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <array>
#include <unordered_map>

namespace vsched {
namespace {
struct Rng {
    std::uint64_t s{1};
    std::uint64_t next() { std::uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
};
constexpr std::size_t kStack = 256 * 1024;

enum class St { kReady, kBlocked, kDone, kCrashed };
using Vc = std::array<std::uint32_t, 32>;
// happens-before is tracked apart for the first 31 fibers; a harness with more of them does not ask for it
std::size_t Ix(int fiber) { return static_cast<std::size_t>(fiber < 31 ? fiber : 31); }
struct Fiber {
    Vc vc{};
    ucontext_t ctx{};
    void* stack{nullptr};
    std::function<void()> body;
    std::string name;
    St st{St::kReady};
    std::size_t points{0};
    std::size_t crash_at{0};
    std::size_t stall_at{0};
    std::int64_t stall_ns{0};
    std::function<bool()> pred;
    std::int64_t deadline{-1};
    std::int64_t prio{0};
    char eh[sizeof(void*) * 2]{};
};
struct Impl {
    std::vector<std::unique_ptr<Fiber>> fibers;
    std::vector<std::pair<int, std::size_t>> pending_crash;
    ucontext_t main{};
    char main_eh[sizeof(void*) * 2]{};
    int cur{-1};
    std::int64_t now{1000000000};
    Rng rng;
    Config cfg;
    Outcome out;
    std::vector<std::size_t> pct_points;
    std::int64_t pct_low{-1};
    int streak{0};
    int preemptions{0};
    bool running{false};
    std::function<void(int)> crash_cb;
    std::unordered_map<const void*, Vc> rel;
};
Scheduler* g_sched{nullptr};
Impl* g{nullptr};
int g_quiet{0};
Dfs* g_dfs{nullptr};
Rng g_rand;
std::vector<void*> g_stack_pool;

void* AllocStack() {
    if (!g_stack_pool.empty()) { void* s = g_stack_pool.back(); g_stack_pool.pop_back(); return s; }
    void* s = mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (s == MAP_FAILED) { std::perror("vsched: mmap"); std::exit(70); }
    return s;
}
void SaveEh(char* to) { std::memcpy(to, abi::__cxa_get_globals(), sizeof(void*) * 2); }
void LoadEh(const char* from) { std::memcpy(abi::__cxa_get_globals(), from, sizeof(void*) * 2); }

void Trampoline() {
    Fiber* f = g->fibers[static_cast<std::size_t>(g->cur)].get();
    f->body();
    f->st = St::kDone;
    f->body = nullptr;
    SaveEh(f->eh);
    swapcontext(&f->ctx, &g->main);
    std::abort();
}
void ToMain() {
    Fiber* f = g->fibers[static_cast<std::size_t>(g->cur)].get();
    SaveEh(f->eh);
    swapcontext(&f->ctx, &g->main);
    LoadEh(f->eh);
}
bool Runnable(Fiber& f) {
    if (f.st == St::kReady) return true;
    if (f.st == St::kBlocked) {
        if (f.deadline >= 0 && f.deadline <= g->now) return true;
        if (f.pred) { ++g_quiet; const bool r = f.pred(); --g_quiet; return r; }
    }
    return false;
}
int Decide(const std::vector<int>& cand, int prev) {
    // cand non-empty; prev is in cand or not
    const bool prev_ok = std::find(cand.begin(), cand.end(), prev) != cand.end();
    switch (g->cfg.strategy) {
        case Strategy::kRandom: {
            if (prev_ok && static_cast<int>(g->rng.below(1000)) >= g->cfg.switch_permille) return prev;
            return cand[g->rng.below(cand.size())];
        }
        case Strategy::kPct: {
            for (auto p : g->pct_points) if (p == g->out.steps && prev >= 0) g->fibers[static_cast<std::size_t>(prev)]->prio = g->pct_low--;
            // a fiber that polls for something does not keep the others from running for ever
            if (prev_ok && cand.size() > 1) { if (++g->streak > 3000) { g->streak = 0; g->fibers[static_cast<std::size_t>(prev)]->prio = g->pct_low--; } }
            const int c = *std::max_element(cand.begin(), cand.end(), [](int a, int b) { return g->fibers[static_cast<std::size_t>(a)]->prio < g->fibers[static_cast<std::size_t>(b)]->prio; });
            if (c != prev) g->streak = 0;
            return c;
        }
        case Strategy::kDfs: {
            std::vector<int> order;
            if (prev_ok) {
                order.push_back(prev);
                if (g->preemptions < g->cfg.preempt_bound) for (int c : cand) if (c != prev) order.push_back(c);
            } else order = cand;
            if (order.size() == 1) return order[0];
            int idx = 0;
            if (g_dfs->pos < g_dfs->path.size()) { idx = g_dfs->path[g_dfs->pos].index; if (idx >= static_cast<int>(order.size())) { std::fprintf(stderr, "vsched: nondeterministic DFS replay\n"); std::exit(70); } }
            else g_dfs->path.push_back({0, static_cast<int>(order.size())});
            g_dfs->path[g_dfs->pos].count = static_cast<int>(order.size());
            ++g_dfs->pos;
            if (prev_ok && idx != 0) ++g->preemptions;
            return order[static_cast<std::size_t>(idx)];
        }
    }
    return cand[0];
}
}  // namespace

std::uint64_t Rand() { return g_rand.next(); }
void SeedRand(std::uint64_t s) { g_rand.s = s * 0x2545F4914F6CDD1DULL + 77; }

Scheduler* Current() { return g_sched; }
bool InFiber() { return g != nullptr && g->running && g->cur >= 0; }
int CurrentFiber() { return InFiber() ? g->cur : -1; }
std::int64_t NowNs() { return g != nullptr ? g->now : 1000000000; }
Quiet::Quiet() { ++g_quiet; }
Quiet::~Quiet() { --g_quiet; }

Scheduler::Scheduler() {
    if (g != nullptr) { std::fprintf(stderr, "vsched: nested scheduler\n"); std::exit(70); }
    g = new Impl;
    g_sched = this;
}
Scheduler::~Scheduler() {
    for (auto& f : g->fibers) {
        if (f->stack) g_stack_pool.push_back(f->stack);
        // bodies of crashed fibers are deliberately leaked: a crash runs no destructors
        if (f->st != St::kDone) { new std::function<void()>(std::move(f->body)); }
    }
    delete g;
    g = nullptr;
    g_sched = nullptr;
    g_quiet = 0;
}
int Scheduler::Spawn(std::function<void()> body, std::string name) {
    auto f = std::make_unique<Fiber>();
    f->body = std::move(body);
    f->name = std::move(name);
    f->stack = AllocStack();
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack;
    f->ctx.uc_stack.ss_size = kStack;
    f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, Trampoline, 0);
    const int id = static_cast<int>(g->fibers.size());
    if (id >= 256) { std::fprintf(stderr, "vsched: too many fibers\n"); std::exit(70); }
    if (InFiber()) { Fiber& p = *g->fibers[static_cast<std::size_t>(g->cur)]; f->vc = p.vc; ++p.vc[Ix(g->cur)]; }
    f->vc[Ix(id)] = 1;
    f->prio = static_cast<std::int64_t>(g->rng.next() >> 2);
    for (auto& p : g->pending_crash) if (p.first == id) f->crash_at = p.second;
    g->fibers.push_back(std::move(f));
    return id;
}
void Scheduler::CrashAt(int fiber, std::size_t point) {
    g->pending_crash.emplace_back(fiber, point);
    if (static_cast<std::size_t>(fiber) < g->fibers.size()) g->fibers[static_cast<std::size_t>(fiber)]->crash_at = point;
}
void Scheduler::Kill(int f) { auto& x = *g->fibers.at(static_cast<std::size_t>(f)); if (f != g->cur && x.st != St::kDone) { x.st = St::kCrashed; } }
void Scheduler::SetCrashCallback(std::function<void(int)> cb) { g->crash_cb = std::move(cb); }
std::size_t Scheduler::PointsOf(int f) const { return g->fibers.at(static_cast<std::size_t>(f))->points; }
bool Scheduler::Finished(int f) const { return g->fibers.at(static_cast<std::size_t>(f))->st == St::kDone; }
bool Scheduler::Crashed(int f) const { return g->fibers.at(static_cast<std::size_t>(f))->st == St::kCrashed; }

Outcome Scheduler::Run(const Config& cfg) {
    g->cfg = cfg;
    g->rng.s = cfg.seed * 0xD1342543DE82EF95ULL + 11;
    for (auto& f : g->fibers) f->prio = static_cast<std::int64_t>(g->rng.next() >> 2);
    g->pct_points.clear();
    for (int i = 0; i + 1 < cfg.pct_depth; ++i) g->pct_points.push_back(1 + g->rng.below(static_cast<std::uint64_t>(cfg.pct_length)));
    g->out = Outcome{};
    g->preemptions = 0;
    g->running = true;
    int prev = -1;
    std::vector<int> cand;
    for (;;) {
        cand.clear();
        bool alive = false;
        for (std::size_t i = 0; i < g->fibers.size(); ++i) {
            Fiber& f = *g->fibers[i];
            if (f.st == St::kReady || f.st == St::kBlocked) alive = true;
            if (Runnable(f)) cand.push_back(static_cast<int>(i));
        }
        if (!alive) { g->out.completed = true; break; }
        if (cand.empty()) {
            std::int64_t best = -1;
            for (auto& f : g->fibers) if (f->st == St::kBlocked && f->deadline >= 0 && (best < 0 || f->deadline < best)) best = f->deadline;
            if (best < 0) { g->out.deadlock = true; break; }
            g->now = std::max(g->now, best);
            continue;
        }
        if (g->out.steps >= cfg.max_steps) { g->out.step_limit = true; break; }
        ++g->out.steps;
        const int next = Decide(cand, prev);
        if (next != prev && prev >= 0) ++g->out.switches;
        Fiber& f = *g->fibers[static_cast<std::size_t>(next)];
        f.st = St::kReady;
        g->cur = next;
        SaveEh(g->main_eh);
        LoadEh(f.eh);
        swapcontext(&g->main, &f.ctx);
        LoadEh(g->main_eh);
        g->cur = -1;
        if (f.st == St::kCrashed && g->crash_cb) g->crash_cb(next);
        prev = next;
    }
    g->running = false;
    g->cur = -1;
    return g->out;
}

static void Join(Vc& a, const Vc& b) { for (std::size_t i = 0; i < a.size(); ++i) a[i] = std::max(a[i], b[i]); }
static std::function<bool(const void*)> g_sync_filter;
void SetSyncFilter(std::function<bool(const void*)> f) { g_sync_filter = std::move(f); }
static bool Ignored(const void* a) { return g_sync_filter && !g_sync_filter(a); }
void SyncAcquire(const void* addr) {
    if (!InFiber() || Ignored(addr)) return;
    auto it = g->rel.find(addr);
    if (it != g->rel.end()) Join(g->fibers[static_cast<std::size_t>(g->cur)]->vc, it->second);
}
void SyncRelease(const void* addr, bool keep) {
    if (!InFiber() || Ignored(addr)) return;
    Fiber& f = *g->fibers[static_cast<std::size_t>(g->cur)];
    if (keep) Join(g->rel[addr], f.vc); else g->rel[addr] = f.vc;
    ++f.vc[Ix(g->cur)];
}
void SyncRelaxedStore(const void* addr) { if (InFiber()) g->rel.erase(addr); }
Epoch Now() { if (!InFiber()) return {}; return {g->cur, g->fibers[static_cast<std::size_t>(g->cur)]->vc[Ix(g->cur)]}; }
void JoinFrom(int f) { if (InFiber()) Join(g->fibers[static_cast<std::size_t>(g->cur)]->vc, g->fibers[static_cast<std::size_t>(f)]->vc); }
bool HappensBefore(const Epoch& e) {
    if (!InFiber() || e.fiber < 0 || e.fiber == g->cur) return true;
    return g->fibers[static_cast<std::size_t>(g->cur)]->vc[Ix(e.fiber)] >= e.clock;
}

void CrashSelf() {
    Fiber& f = *g->fibers[static_cast<std::size_t>(g->cur)];
    f.st = St::kCrashed;
    ToMain();
    std::abort();
}
void ArmCrash(std::size_t n) {
    if (!InFiber()) return;
    Fiber& f = *g->fibers[static_cast<std::size_t>(g->cur)];
    f.crash_at = n == 0 ? 0 : f.points + n;
}
void ArmStall(std::size_t n, std::int64_t ns) {
    if (!InFiber()) return;
    Fiber& f = *g->fibers[static_cast<std::size_t>(g->cur)];
    f.stall_at = n == 0 ? 0 : f.points + n;
    f.stall_ns = ns;
}
void CrashPoint() {
    if (g == nullptr || g->cur < 0 || !g->running || g_quiet > 0) return;
    Fiber& f = *g->fibers[static_cast<std::size_t>(g->cur)];
    ++f.points;
    if (f.crash_at != 0 && f.points == f.crash_at) CrashSelf();
}
static int g_exit_permille = 0;
static std::uint64_t g_exit_rng = 1;
void PointsAtFunctionExits(int permille) { g_exit_permille = permille; g_exit_rng = 0x9E3779B97F4A7C15ULL; }
void ExitPoint() {
    if (g_exit_permille == 0 || g == nullptr || g->cur < 0 || !g->running || g_quiet > 0) return;
    g_exit_rng ^= g_exit_rng << 13; g_exit_rng ^= g_exit_rng >> 7; g_exit_rng ^= g_exit_rng << 17;
    if (static_cast<int>(g_exit_rng % 1000) < g_exit_permille) { g->now += 10; ToMain(); }
}
void Point(Op, const void*) {
    if (!InFiber() || g_quiet > 0) return;
    Fiber& f = *g->fibers[static_cast<std::size_t>(g->cur)];
    ++f.points;
    if (f.crash_at != 0 && f.points == f.crash_at) CrashSelf();
    g->now += 10;
    if (f.stall_at != 0 && f.points >= f.stall_at) { f.stall_at = 0; SleepNs(f.stall_ns); return; }
    ToMain();
}
void Observe(const void* addr, std::size_t size, std::uint64_t o, std::uint64_t n) {
    if (g_sched != nullptr && g_sched->observer && g_quiet == 0) { ++g_quiet; g_sched->observer(addr, size, o, n); --g_quiet; }
}
bool BlockUntil(const std::function<bool()>& pred, std::int64_t deadline) {
    if (!InFiber()) {
        if (pred && pred()) return true;
        std::fprintf(stderr, "vsched: blocking wait outside of a fiber\n");
        std::exit(70);
    }
    Fiber& f = *g->fibers[static_cast<std::size_t>(g->cur)];
    ++f.points;
    if (f.crash_at != 0 && f.points == f.crash_at) CrashSelf();
    for (;;) {
        { Quiet q; if (pred && pred()) return true; }
        if (deadline >= 0 && deadline <= g->now) return false;
        f.pred = pred;
        f.deadline = deadline;
        f.st = St::kBlocked;
        ToMain();
        f.pred = nullptr;
        f.deadline = -1;
    }
}
void SleepNs(std::int64_t ns) {
    if (!InFiber()) { if (g) g->now += ns; return; }
    BlockUntil(nullptr, g->now + (ns > 0 ? ns : 1));
}

Dfs::Dfs() { g_dfs = this; }
Dfs::~Dfs() { g_dfs = nullptr; }
Dfs* Dfs::Active() { return g_dfs; }
bool Dfs::Next() {
    if (first_) { first_ = false; pos = 0; ++runs_; return true; }
    path.resize(std::min(path.size(), pos));
    while (!path.empty() && path.back().index + 1 >= path.back().count) path.pop_back();
    if (path.empty()) return false;
    ++path.back().index;
    pos = 0;
    ++runs_;
    return true;
}
}  // namespace vsched

extern "C" {
void __cyg_profile_func_enter(void*, void*) {}
void __cyg_profile_func_exit(void*, void*) { vsched::CrashPoint(); vsched::ExitPoint(); }
}
