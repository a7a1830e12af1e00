// Deferred commands (TimedCommandQueue) and the waiting handshake (NonAllocatingFuture), driven by fibers.
#include "score/message_passing/non_allocating_future/non_allocating_future.h"
#include "score/message_passing/timed_command_queue.h"
#include "score/message_passing/timed_command_queue_entry.h"
#include "trace.h"
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>

using vtrace::Emit;
namespace mp = score::message_passing::detail;
using Entry = mp::TimedCommandQueueEntry;
using TP = Entry::TimePoint;
static std::uint64_t Rnd(std::uint64_t n) { return n == 0 ? 0 : vsched::Rand() % n; }
static void Yield() { vsched::Point(vsched::Op::kUser, nullptr); }

namespace {
TP T(int t) { return TP{} + std::chrono::nanoseconds(t); }
int N(TP t) { return static_cast<int>((t - TP{}).count()); }

struct World {
    mp::TimedCommandQueue q;
    int next_id{0};
    int owners{1};
    int max_due{6};
    int max_entries{14};
    std::vector<char> owner_obj = std::vector<char>(8);
    std::deque<Entry> entries;                 // one per registration; reused ones stay at their place
    std::map<int, Entry*> free_again;          // id -> entry that may be reused
    const void* Owner(int o) { return o == 0 ? nullptr : &owner_obj[static_cast<std::size_t>(o)]; }

    // the callback's captured object: tells when it is destroyed
    struct Capture {
        World* w; int id; Entry* e; int act;
        ~Capture() { if (w != nullptr) w->Destroyed(id, act); }
        Capture(World* a, int b, Entry* c, int d) : w{a}, id{b}, e{c}, act{d} {}
        Capture(Capture&& o) noexcept : w{o.w}, id{o.id}, e{o.e}, act{o.act} { o.w = nullptr; }
        Capture(const Capture&) = delete;
    };
    void Register(Entry* e, int o, int due, bool immediate) {
        const int id = ++next_id;
        if (e == nullptr) { entries.emplace_back(); e = &entries.back(); }
        const int act = static_cast<int>(Rnd(12));
        Emit("{\"e\":\"RegC\",\"id\":%d,\"o\":%d,\"due\":%d}", id, o, immediate ? 0 : due);
        Entry::QueuedCallback cb{[c = Capture{this, id, e, act}](TP now) mutable { c.w->Invoked(c, N(now)); }};
        if (immediate) q.RegisterImmediateEntry(*e, std::move(cb), Owner(o));
        else q.RegisterTimedEntry(*e, T(due), std::move(cb), Owner(o));
        Emit("{\"e\":\"RegR\",\"id\":%d}", id);
    }
    void Invoked(Capture& c, int now) {
        World* w = this;
        const int id = c.id, act = c.act;
        Entry* e = c.e;
        Emit("{\"e\":\"Run\",\"id\":%d,\"now\":%d}", id, now);
        Yield();
        if (next_id < max_entries) {
            if (act == 1) w->Register(e, static_cast<int>(Rnd(static_cast<std::uint64_t>(w->owners) + 1)), now + static_cast<int>(Rnd(4)), false);   // re-arm itself
            else if (act == 2) w->Register(nullptr, static_cast<int>(Rnd(static_cast<std::uint64_t>(w->owners) + 1)), static_cast<int>(Rnd(static_cast<std::uint64_t>(w->max_due) + 1)), false);
            else if (act == 3) w->Register(nullptr, static_cast<int>(Rnd(static_cast<std::uint64_t>(w->owners) + 1)), 0, true);
        }
        if (act == 4 || act == 5) w->Clean(1 + static_cast<int>(Rnd(static_cast<std::uint64_t>(w->owners))));
        Emit("{\"e\":\"RunR\",\"id\":%d}", id);
    }
    void Destroyed(int id, int act) {
        Emit("{\"e\":\"Gone\",\"id\":%d}", id);
        if (act == 6 && vsched::InFiber() && next_id < max_entries) Register(nullptr, 0, static_cast<int>(Rnd(static_cast<std::uint64_t>(max_due) + 1)), Rnd(2) == 0);
        if (act == 7 && vsched::InFiber()) Yield();
    }
    void Clean(int o) {
        Emit("{\"e\":\"CleanC\",\"o\":%d}", o);
        q.CleanUpOwner(Owner(o));
        Emit("{\"e\":\"CleanR\",\"o\":%d}", o);
    }
};

vsched::Config Sched(std::uint64_t seed) {
    vsched::Config sc;
    sc.strategy = Rnd(2) == 0 ? vsched::Strategy::kRandom : vsched::Strategy::kPct;
    sc.switch_permille = 50 + static_cast<int>(Rnd(900));
    sc.pct_depth = 2 + static_cast<int>(Rnd(4));
    sc.pct_length = 20 + static_cast<int>(Rnd(150));
    sc.seed = seed;
    return sc;
}

void RunQueue(std::uint64_t seed) {
    vsched::SeedRand(seed ^ 0x71ED);
    World w;
    w.owners = 1 + static_cast<int>(Rnd(3));
    w.max_due = 1 + static_cast<int>(Rnd(8));
    w.max_entries = 3 + static_cast<int>(Rnd(12));
    const int threads = static_cast<int>(Rnd(3));
    const int rounds = 1 + static_cast<int>(Rnd(5));
    Emit("{\"e\":\"Begin\"}");
    vsched::Outcome out;
    {
        vsched::Scheduler s;
        auto some = [&w] {
            if (w.next_id < w.max_entries) w.Register(nullptr, static_cast<int>(Rnd(static_cast<std::uint64_t>(w.owners) + 1)), static_cast<int>(Rnd(static_cast<std::uint64_t>(w.max_due) + 1)), Rnd(4) == 0);
        };
        s.Spawn([&] {       // the engine's thread
            int now = 0;
            for (int r = 0; r < rounds; ++r) {
                for (std::uint64_t k = Rnd(4); k > 0; --k) some();
                if (Rnd(4) == 0) w.Clean(1 + static_cast<int>(Rnd(static_cast<std::uint64_t>(w.owners))));
                now += static_cast<int>(Rnd(4));
                if (r == rounds - 1) now = 1000;
                Emit("{\"e\":\"ProcC\",\"now\":%d}", now);
                const auto n = w.q.ProcessQueue(T(now));
                Emit("{\"e\":\"ProcR\",\"next\":%d}", N(n));
            }
        });
        for (int t = 0; t < threads; ++t) s.Spawn([&] { for (std::uint64_t k = 1 + Rnd(4); k > 0; --k) { some(); Yield(); } });
        out = s.Run(Sched(seed));
    }
    if (out.completed) {
        for (int now = 2000; now < 4000; now += 100) {
            Emit("{\"e\":\"ProcC\",\"now\":%d}", now);
            const auto n = w.q.ProcessQueue(T(now));
            Emit("{\"e\":\"ProcR\",\"next\":%d}", N(n));
            if (N(n) == 0) break;
        }
        Emit("{\"e\":\"End\"}");
    } else {
        Emit("{\"e\":\"Hang\"}");
    }
}

// ---------------------------------------------------------------- waiting handshake
// Storage of a waiter: lock, condition and value live on the waiter's stack; every access after the waiters left is recorded.
struct Store {
    std::vmutex m;
    std::vcondition_variable cv;
    bool gone{false};
    int id{0};
    void Touch(const char* what) const { if (gone) Emit("{\"e\":\"Late\",\"f\":%d,\"on\":\"%s\"}", id, what); }
};
struct LockW {
    Store* s;
    void lock() { s->Touch("lock"); s->m.lock(); s->Touch("lock"); }
    void unlock() { s->Touch("unlock"); s->m.unlock(); }
    bool try_lock() { s->Touch("lock"); return s->m.try_lock(); }
};
struct CvW {
    Store* s; bool spurious;
    void notify_all() noexcept { s->Touch("notify"); s->cv.notify_all(); }
    void notify_one() noexcept { s->Touch("notify"); s->cv.notify_one(); }
    template <class L> void wait(L& l) {
        if (spurious && Rnd(3) == 0) { l.unlock(); Yield(); l.lock(); return; }
        s->cv.wait(l);
    }
    template <class L, class P> void wait(L& l, P p) { while (!p()) wait(l); }
    template <class L, class T> std::cv_status wait_until(L& l, const T& t) { return s->cv.wait_until(l, t); }
    template <class L, class T, class P> bool wait_until(L& l, const T& t, P p) { return s->cv.wait_until(l, t, p); }
    template <class L, class T> std::cv_status wait_for(L& l, const T& t) { return s->cv.wait_for(l, t); }
    template <class L, class T, class P> bool wait_for(L& l, const T& t, P p) { return s->cv.wait_for(l, t, p); }
};
struct Val {      // two halves with a scheduling point in between: a torn read is visible
    int a{0}, b{0};
    Store* s{nullptr};
    Val& operator=(const Val& o) { if (s) s->Touch("value"); a = o.a; Yield(); if (s) s->Touch("value"); b = o.b; return *this; }
    Val(int x, int y, Store* z) : a{x}, b{y}, s{z} {}
    Val(const Val&) = default;
};
using Future = mp::NonAllocatingFuture<LockW, CvW, Val>;
using VoidFuture = mp::NonAllocatingFuture<LockW, CvW, void>;

struct Slot {
    Store st;
    LockW lk{&st};
    CvW cv{&st, false};
    Val v{0, 0, &st};
    std::unique_ptr<Future> f;
    std::unique_ptr<VoidFuture> g;
    int waiters{1};
    int left{0};
    vsched::Epoch set{};
};

void RunFuture(std::uint64_t seed) {
    vsched::SeedRand(seed ^ 0xF07);
    const int n = 1 + static_cast<int>(Rnd(3));
    std::vector<std::unique_ptr<Slot>> slots;
    Emit("{\"e\":\"FBegin\",\"n\":%d}", n);
    vsched::Scheduler s;
    for (int i = 0; i < n; ++i) {
        slots.push_back(std::make_unique<Slot>());
        Slot* x = slots.back().get();
        x->st.id = i + 1;
        x->cv.spurious = Rnd(2) == 0;
        const bool is_void = Rnd(4) == 0;
        if (is_void) x->g = std::make_unique<VoidFuture>(x->lk, x->cv);
        else x->f = std::make_unique<Future>(x->lk, x->cv, x->v);
        x->waiters = Rnd(3) == 0 ? 2 : 1;
        x->left = x->waiters;
        const int kind = is_void ? 3 : static_cast<int>(Rnd(3));
        const int id = i + 1;
        const std::uint64_t delay = Rnd(6), wdelay = Rnd(6);
        s.Spawn([x, id, kind, delay] {     // setter
            for (std::uint64_t k = 0; k < delay; ++k) Yield();
            const int val = 100 + id;
            Emit("{\"e\":\"SetC\",\"f\":%d,\"v\":%d}", id, kind == 3 ? 0 : val);
            x->set = vsched::Now();
            if (kind == 0) { const Val v{val, val, nullptr}; x->f->UpdateValueMarkReady(v); }
            else if (kind == 1) { Val v{val, val, nullptr}; x->f->UpdateValueMarkReady(std::move(v)); }
            else if (kind == 2) { auto& r = x->f->GetValueForUpdate(); r.a = val; Yield(); r.b = val; x->f->MarkReady(); }
            else x->g->MarkReady();
            Emit("{\"e\":\"SetR\",\"f\":%d}", id);
        });
        for (int k = 0; k < x->waiters; ++k)
            s.Spawn([x, id, wdelay, k] {
                for (std::uint64_t d = 0; d < wdelay; ++d) Yield();
                Emit("{\"e\":\"WaitC\",\"f\":%d,\"w\":%d}", id, k);
                if (x->f) x->f->Wait(); else x->g->Wait();
                const bool hb = vsched::HappensBefore(x->set);
                int a = 0, b = 0;
                if (x->f) { a = x->f->GetValue().a; Yield(); b = x->f->GetValue().b; }
                Emit("{\"e\":\"WaitR\",\"f\":%d,\"w\":%d,\"a\":%d,\"b\":%d,\"hb\":%s}", id, k, a, b, hb ? "true" : "false");
                if (--x->left == 0) { x->st.gone = true; Emit("{\"e\":\"FGone\",\"f\":%d}", id); }
            });
    }
    const auto out = s.Run(Sched(seed));
    if (!out.completed) Emit("{\"e\":\"Hang\"}");
    else Emit("{\"e\":\"End\"}");
}
}  // namespace

int main(int argc, char** argv) {
    const auto o = vtrace::Parse(argc, argv);
    return vtrace::Drive(o, [&o](std::uint64_t i) {
        const std::uint64_t seed = o.seed * 1000003ULL + i;
        if (o.mode == "future") RunFuture(seed);
        else RunQueue(seed);
    });
}
