// Event notifications (L01): handlers registered and deregistered by several threads of several processes, updates by a
// provider which restarts, consumers which restart.
#include "notify.h"
namespace {
struct Slot { Proc* p{nullptr}; int ev{0}; pid_t view{0}; bool reg{false}; lola::IMessagePassingService::HandlerRegistrationNoType no{0}; int h{0}; std::unique_ptr<score::safecpp::Scope<>> scope; std::shared_ptr<impl::ScopedEventReceiveHandler> ptr; };
lola::ElementFqId Ev(int e) { return lola::ElementFqId{static_cast<std::uint16_t>(7 + e / 2), static_cast<std::uint16_t>(1 + e % 2), 1, e == 1 ? impl::ServiceElementType::FIELD : impl::ServiceElementType::EVENT}; }
struct World {
    Net net; std::vector<std::unique_ptr<Engine>> engines; std::vector<std::unique_ptr<Pool>> pools; std::vector<std::unique_ptr<Proc>> procs;
    std::vector<std::thread> threads;
    Proc* prov{nullptr}; int inc{0}; std::map<pid_t, int> inc_of; int next_h{0}; int events{2};
    std::vector<std::unique_ptr<std::atomic<bool>>> flags;
    std::vector<std::unique_ptr<Slot>> slots;
    std::vector<pid_t> pids; lola::ClientQualityType q{lola::ClientQualityType::kASIL_QM};
    bool dense{false}; pid_t next_pid{0};
    pid_t NewPid() { if (next_pid != 0) { const pid_t p = next_pid; next_pid = 0; return p; } if (dense) { pids.push_back(static_cast<pid_t>(pids.empty() ? 2 : pids.back() + 1)); return pids.back(); } for (;;) { const pid_t p = static_cast<pid_t>(2 + Rnd(90)); bool used = false; for (auto x : pids) used |= x == p; if (!used) { pids.push_back(p); return p; } } }
    Engine& NewEngine() { engines.push_back(std::make_unique<Engine>(net)); Engine* e = engines.back().get(); threads.emplace_back([e] { e->Run(); }); return *e; }
    Pool& NewPool(std::size_t n) { pools.push_back(std::make_unique<Pool>(n)); return *pools.back(); }
    Proc* NewProc(Engine& e, Pool& p) { procs.push_back(std::make_unique<Proc>(net, NewPid(), 1000, e, p, q)); return procs.back().get(); }
    Proc* NewProc() { return NewProc(NewEngine(), NewPool(2)); }
    bool Idle() {
        for (auto& e : engines) if (e->busy || e->HasWork()) return false;
        for (auto& p : pools) if (p->open != 0) return false;
        return true;
    }
    void Offer() { for (int e = 0; e < events; ++e) { auto* f = flags[static_cast<std::size_t>(e)].get(); prov->inst->RegisterEventNotificationExistenceChangedCallback(Ev(e), [f](bool b) noexcept { f->store(b); }); } }
    void Withdraw() { for (int e = 0; e < events; ++e) { prov->inst->UnregisterEventNotificationExistenceChangedCallback(Ev(e)); flags[static_cast<std::size_t>(e)]->store(false); } }
    void Start() {      // a new incarnation of the provider
        prov = NewProc(); inc_of[prov->pid] = ++inc;
        flags.clear();
        for (int e = 0; e < events; ++e) flags.push_back(std::make_unique<std::atomic<bool>>(false));
        Offer();
        for (auto& s : slots) if (!s->reg) s->view = prov->pid;
        Emit("{\"e\":\"Prov\",\"n\":%d}", inc);
    }
    void Gone(Proc* p) {
        for (auto& s : slots) if (s->p == p && s->reg) { Emit("{\"e\":\"Gone\",\"h\":%d}", s->h); s->reg = false; }
        p->Kill(Rnd(2) == 0);
    }
    void Update(int e) {
        Emit("{\"e\":\"UpC\",\"ev\":%d}", e);
        if (flags[static_cast<std::size_t>(e)]->load()) prov->inst->NotifyEvent(Ev(e));
        Emit("{\"e\":\"UpR\",\"ev\":%d}", e);
    }
    void Register(Slot& s) {
        s.h = ++next_h; s.scope = std::make_unique<score::safecpp::Scope<>>();
        const int h = s.h; Proc* p = s.p; const bool slow = Rnd(4) == 0;
        s.ptr = std::make_shared<impl::ScopedEventReceiveHandler>(*s.scope, [h, p, slow] { if (p->live) Emit("{\"e\":\"Call\",\"h\":%d}", h); if (slow) vsched::SleepNs(500); });
        Emit("{\"e\":\"RegC\",\"h\":%d,\"ev\":%d,\"to\":%d}", h, s.ev, inc_of[s.view]);
        s.no = s.p->inst->RegisterEventNotification(Ev(s.ev), s.ptr, s.view);
        s.reg = true;
        Emit("{\"e\":\"RegR\",\"h\":%d}", h);
    }
    void Unregister(Slot& s) {
        Emit("{\"e\":\"UnrC\",\"h\":%d}", s.h);
        s.scope->Expire(); s.ptr.reset();
        s.p->inst->UnregisterEventNotification(Ev(s.ev), s.no, s.view);
        s.reg = false; if (s.view != prov->pid) s.view = prov->pid;
        Emit("{\"e\":\"UnrR\",\"h\":%d}", s.h);
    }
    void Reregister(Slot& s) {
        s.view = prov->pid;
        const int to = inc_of[s.view];
        Emit("{\"e\":\"RerC\",\"h\":%d,\"to\":%d}", s.h, to);
        s.p->inst->ReregisterEventNotification(Ev(s.ev), s.view);
        Emit("{\"e\":\"RerR\",\"h\":%d}", s.h);
    }
    // one step of the thread which owns a receiver
    void Act(Slot& s) {
        if (s.reg && s.view != prov->pid && Rnd(4) != 0) Reregister(s);
        else if (!s.reg) Register(s);
        else if (Rnd(3) != 0) Unregister(s);
    }
};
}
void RunNotify(std::uint64_t seed, const std::string& mode) {
    const bool rediscover = mode == "rediscover", outdated = mode == "outdated";
    g_slow_connect = outdated;
    vsched::SeedRand(seed ^ 0x4071F);
    Emit("{\"e\":\"Begin\"}");
    vsched::Scheduler s;
    auto* w = new World;
    w->q = static_cast<lola::ClientQualityType>(Rnd(3));
    w->events = RndI(1, 3);
    const bool crowd = Rnd(12) == 0;
    const bool exact = crowd && Rnd(2) == 0;     // numbers around what is copied at a time
    static const int kAround[] = {19, 20, 21, 22, 40, 41};
    const int ncons = exact ? kAround[Rnd(6)] : crowd ? RndI(18, 46) : RndI(1, 3);
    w->dense = crowd && Rnd(2) == 0;
    const bool local = Rnd(2) == 0;
    const int phases = crowd ? RndI(2, 3) : RndI(2, 6);
    const bool restarts = Rnd(2) == 0 || rediscover || outdated;
    const auto cfg = SchedCfg(seed, 600);
    bool done = false;
    s.Spawn([&] {
        w->Start();
        std::vector<Proc*> cons;
        Engine* ce = nullptr; Pool* cp = nullptr;
        auto fill = [&](Proc* p, int n, pid_t view) { for (int k = 0; k < n; ++k) { w->slots.push_back(std::make_unique<Slot>()); auto& x = *w->slots.back(); x.p = p; x.ev = static_cast<int>(Rnd(static_cast<std::uint64_t>(w->events))); x.view = view; } };
        for (int c = 0; c < ncons; ++c) {
            if (crowd && ce == nullptr) { ce = &w->NewEngine(); cp = &w->NewPool(1); }
            Proc* p = crowd ? w->NewProc(*ce, *cp) : w->NewProc();
            cons.push_back(p);
            fill(p, crowd ? 1 : RndI(1, 4), w->prov->pid);
            if (crowd && (exact || Rnd(8) != 0)) { auto& x = *w->slots.back(); x.ev = 0; w->Register(x); }
        }
        for (int ph = 0; ph < phases; ++ph) {
            const bool again = restarts && ph > (exact ? 1 : 0) && Rnd(2) == 0;
            if (again) for (auto i = w->slots.begin(); i != w->slots.end();) { if ((*i)->p == w->prov && (*i)->reg) w->Unregister(**i); if ((*i)->p == w->prov) i = w->slots.erase(i); else ++i; }
            if (local && !again) { int have = 0; for (auto& x : w->slots) have += x->p == w->prov ? 1 : 0; if (have == 0) fill(w->prov, RndI(1, 3), w->prov->pid); }
            if (restarts && !crowd && Rnd(4) == 0) {        // a consumer restarts
                auto& p = cons[Rnd(cons.size())];
                const pid_t old = p->pid;
                w->Gone(p);
                const bool same_pid = Rnd(3) == 0;
                if (same_pid) { vsched::BlockUntil([&] { return w->Idle(); }, -1); w->next_pid = old; }
                Proc* n = w->NewProc();
                if (!same_pid) n->inst->NotifyOutdatedNodeId(old, w->prov->pid);
                if (!outdated) vsched::BlockUntil([&] { return w->Idle(); }, -1);
                for (auto& x : w->slots) if (x->p == p) { x->p = n; x->view = w->prov->pid; }
                p = n;
            }
            // the provider restarts; each process finds it again for all its receivers before it goes on
            if (again) {
                w->Gone(w->prov); w->Start();
                std::vector<std::thread> fs;
                if (!rediscover) for (auto* c : cons) fs.emplace_back([w, c] {
                    for (auto& x : w->slots) if (x->p == c && x->reg && Rnd(6) == 0) w->Unregister(*x);
                    for (auto& x : w->slots) if (x->p == c && x->reg) w->Reregister(*x);
                });
                if (Rnd(2) == 0) fs.emplace_back([w] { for (int k = RndI(1, 3); k > 0; --k) w->Update(static_cast<int>(Rnd(static_cast<std::uint64_t>(w->events)))); });
                for (auto& t : fs) t.join();
            }
            std::vector<std::thread> ts;
            const bool only_updates = Rnd(3) == 0 || exact;
            const int ups = exact ? RndI(2, 5) : RndI(1, 5); const bool reoffer = Rnd(4) == 0;
            ts.emplace_back([&] {
                for (int k = 0; k < ups; ++k) {
                    if (reoffer && Rnd(3) == 0) { w->Withdraw(); w->Offer(); }
                    w->Update(static_cast<int>(Rnd(static_cast<std::uint64_t>(w->events))));
                    if (Rnd(2) == 0) vsched::SleepNs(static_cast<std::int64_t>(Rnd(2000)));
                }
            });
            if (!only_updates) for (auto& x : w->slots) {
                if (Rnd(crowd ? 6 : 3) == 0) continue;
                Slot* sl = x.get();
                ts.emplace_back([w, sl, crowd] { for (int k = crowd ? 1 : RndI(1, 3); k > 0; --k) { w->Act(*sl); if (Rnd(3) == 0) vsched::SleepNs(static_cast<std::int64_t>(Rnd(2000))); } });
                if (crowd && ts.size() > 8) break;
            }
            for (auto& t : ts) t.join();
            vsched::BlockUntil([&] { return w->Idle(); }, -1);
            Emit("{\"e\":\"Quiet\"}");
        }
        done = true;
        for (auto& p : w->pools) p->Shutdown();
        for (auto& e : w->engines) e->stop = true;
        for (auto& t : w->threads) t.join();
        for (auto& x : w->slots) if (x->scope) x->scope->Expire();
        for (auto& p : w->procs) p->live = false;
        w->procs.clear();
        w->net.conns.clear();
    });
    const auto out = s.Run(cfg);
    if (!done) Emit("{\"e\":\"Hang\",\"limit\":%s}", B(out.step_limit));
    Emit("{\"e\":\"End\"}");
}
