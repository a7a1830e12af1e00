// The subscription of consumers' events over the life of a provider which withdraws and offers its service again (C10):
// real impl::ProxyEventBase, lola::ProxyEvent, Proxy, Skeleton; only discovery and message passing are stand-ins.
#include "lola.h"
#include <algorithm>
#include <set>
namespace {
struct Payload { std::uint32_t v; };
// Registrations of receive handlers. A provider which went away forgot everyone.
struct Registry {
    struct Reg { std::uint32_t no; int c; std::uint32_t element; std::weak_ptr<impl::ScopedEventReceiveHandler> h; pid_t node; int epoch; };
    std::vector<Reg> regs;
    std::uint32_t next{1};
    int epoch{0};
    pid_t provider{0};
    std::vector<std::shared_ptr<impl::ScopedEventReceiveHandler>> Current() {
        std::vector<std::shared_ptr<impl::ScopedEventReceiveHandler>> v;
        for (auto& r : regs) if (r.node == provider && r.epoch == epoch) if (auto p = r.h.lock()) v.push_back(p);
        return v;
    }
};
struct Msg final : vfake::Messaging {
    Registry& r; int c;
    Msg(Registry& rr, int cc) : r{rr}, c{cc} {}
    HandlerRegistrationNoType RegisterEventNotification(const impl::QualityType, const lola::ElementFqId e, std::weak_ptr<impl::ScopedEventReceiveHandler> h, const pid_t target) noexcept override {
        Yield(); r.regs.push_back({r.next, c, e.element_id_, h, target, r.epoch}); return r.next++;
    }
    void ReregisterEventNotification(const impl::QualityType, const lola::ElementFqId e, const pid_t target) noexcept override {
        Yield(); for (auto& x : r.regs) if (x.c == c && x.element == e.element_id_) { x.node = target; x.epoch = r.epoch; }
    }
    void UnregisterEventNotification(const impl::QualityType, const lola::ElementFqId, const HandlerRegistrationNoType no, const pid_t) noexcept override {
        Yield(); r.regs.erase(std::remove_if(r.regs.begin(), r.regs.end(), [no](auto& x) { return x.no == no; }), r.regs.end());
    }
};
const char* Name(impl::SubscriptionState s) { return s == impl::SubscriptionState::kSubscribed ? "sub" : s == impl::SubscriptionState::kSubscriptionPending ? "pend" : "ns"; }
struct Consumer {
    int c{0};
    std::unique_ptr<Msg> msg;
    std::unique_ptr<vfake::Process> proc;
    std::unique_ptr<lola::Proxy> proxy;
    std::unique_ptr<impl::ProxyEventBase> ev;
    impl::ProxyEventBindingBase* b{nullptr};   // the binding below it
    bool raw{false};                           // its users call the binding
    std::deque<bool> reports;
    int nexth{1};
    std::vector<int>* called{nullptr};
};
struct Provider {
    std::unique_ptr<vfake::Process> proc;
    std::unique_ptr<lola::Skeleton> sk;
    std::unique_ptr<lola::SkeletonEvent<Payload>> ev;
};
}  // namespace
void RunSub(std::uint64_t seed) {
    vsched::SeedRand(seed ^ 0x5B5B);
    const int n = RndI(1, 3);
    const std::uint16_t slots = static_cast<std::uint16_t>(RndI(2, 5));
    const std::uint8_t subscribers = static_cast<std::uint8_t>(RndI(1, 3));
    const impl::QualityType q = Rnd(2) == 0 ? impl::QualityType::kASIL_QM : impl::QualityType::kASIL_B;
    Emit("{\"e\":\"Begin\",\"n\":%d,\"slots\":%d,\"subs\":%d}", n, slots, subscribers);
    vfake::Runtime rt;
    Discovery disc;
    rt.discovery = &disc;
    Registry reg;
    Deployment d{17, 3, {{"E", 5}}, slots, subscribers, q};
    disc.handle = d.handle;
    disc.initially = Rnd(3) != 0;
    vfake::Messaging pm;
    std::vector<Provider> gens;                  // generations of the provider, the last one is current
    std::vector<Consumer> cs(static_cast<std::size_t>(n));
    int prov_proc = 1;
    rt.current = [&]() -> vfake::Process* { const int p = ProcIndex(); return p >= 2 && p < 2 + n ? cs[static_cast<std::size_t>(p - 2)].proc.get() : gens.back().proc.get(); };
    const lola::ElementFqId fq{17, 5, 3, impl::ServiceElementType::EVENT};
    auto offer = [&](bool renew) {
        if (renew) {
            if (!gens.empty()) { gens.back().ev.reset(); gens.back().sk.reset(); }
            gens.emplace_back();
            gens.back().proc = std::make_unique<vfake::Process>(pm, 1000 + static_cast<pid_t>(gens.size()), 100);
            auto sk = MakeSkeleton(d);
            if (sk == nullptr) { Emit("{\"e\":\"Bad\",\"x\":\"create\"}"); return; }
            gens.back().sk = std::move(sk);
            gens.back().ev = std::make_unique<lola::SkeletonEvent<Payload>>(*gens.back().sk, fq, "E", lola::SkeletonEventProperties{slots, 0, 0, false, subscribers, true}, impl::tracing::SkeletonEventTracingData{});
        }
        impl::SkeletonBinding::SkeletonEventBindings evs;
        impl::SkeletonBinding::SkeletonFieldBindings fds;
        evs.emplace("E", *gens.back().ev);
        if (!gens.back().sk->PrepareOffer(evs, fds, {}).has_value()) { Emit("{\"e\":\"Bad\",\"x\":\"offer\"}"); return; }
        (void)gens.back().ev->PrepareOffer();
        ++reg.epoch;
        reg.provider = gens.back().proc->GetPid();
    };
    g_setup_proc = prov_proc;
    offer(true);
    for (int c = 0; c < n; ++c) {
        Consumer& k = cs[static_cast<std::size_t>(c)];
        k.c = c;
        g_setup_proc = 2 + c;
        k.msg = std::make_unique<Msg>(reg, c);
        k.proc = std::make_unique<vfake::Process>(*k.msg, 2000 + c, 200 + static_cast<std::uint32_t>(c));
        k.proxy = lola::Proxy::Create(*d.handle);
        if (k.proxy == nullptr) { Emit("{\"e\":\"Bad\",\"x\":\"proxy\"}"); return; }
        if (!disc.initially) k.reports.push_back(true);
        auto b = std::make_unique<lola::ProxyEvent<Payload>>(*k.proxy, fq, "E");
        k.b = b.get();
        k.raw = Rnd(3) == 0;
        k.ev = std::make_unique<impl::ProxyEventBase>("E", std::move(b));
        Emit("{\"e\":\"N\",\"c\":%d,\"av\":%s}", c, disc.initially ? "true" : "false");
    }
    g_setup_proc = 0;
    vsched::Scheduler s;
    auto C = [](int t, int c, const char* op, int nn, int h) { Emit("{\"e\":\"C\",\"t\":%d,\"c\":%d,\"op\":\"%s\",\"n\":%d,\"h\":%d}", t, c, op, nn, h); };
    auto R = [](int t, int c, const char* v) { Emit("{\"e\":\"R\",\"t\":%d,\"c\":%d,\"v\":\"%s\"}", t, c, v); };
    int busy = 0;                                // app fibers at work
    auto app = [&](Consumer& k, int t) {
        const int ops = RndI(3, 12);
        for (int i = 0; i < ops; ++i) {
            const bool ok = Survives([&] {
                switch (Rnd(k.raw ? 10 : 14)) {
                    case 0: case 1: case 2: case 3: {
                        const int m = RndI(1, 3);
                        C(t, k.c, "sub", m, 0);
                        const auto r = k.raw ? k.b->Subscribe(static_cast<std::size_t>(m)) : k.ev->Subscribe(static_cast<std::size_t>(m));
                        R(t, k.c, r.has_value() ? "ok" : "err");
                        break;
                    }
                    case 4: case 5: C(t, k.c, "unsub", 0, 0); if (k.raw) k.b->Unsubscribe(); else k.ev->Unsubscribe(); R(t, k.c, "ok"); break;
                    case 6: case 7: { C(t, k.c, "get", 0, 0); const auto st = k.ev->GetSubscriptionState(); R(t, k.c, Name(st)); break; }
                    case 8: {
                        const int h = k.nexth++;
                        C(t, k.c, "set", 0, h);
                        const int c = k.c;
                        (void)k.ev->SetSubscriptionStateChangeHandler([c, h](impl::SubscriptionState st) -> bool {
                            const bool keep = Rnd(4) != 0;
                            Yield();
                            if (Rnd(3) == 0) vsched::SleepNs(static_cast<std::int64_t>(Rnd(1500)));
                            Emit("{\"e\":\"H\",\"c\":%d,\"h\":%d,\"s\":\"%s\",\"keep\":%s}", c, h, Name(st), keep ? "true" : "false");
                            Yield();
                            if (Rnd(3) == 0) vsched::SleepNs(static_cast<std::int64_t>(Rnd(1500)));
                            return keep;
                        });
                        R(t, k.c, "ok");
                        break;
                    }
                    case 9: C(t, k.c, "unset", 0, 0); (void)k.ev->UnsetSubscriptionStateChangeHandler(); R(t, k.c, "ok"); break;
                    case 10: case 12: case 13: {
                        const int h = k.nexth++;
                        C(t, k.c, "rh", 0, h);
                        Consumer* kp = &k;
                        (void)k.ev->SetReceiveHandler([kp, h] { if (kp->called != nullptr) kp->called->push_back(h); else Emit("{\"e\":\"V\",\"c\":%d,\"h\":%d}", kp->c, h); });
                        R(t, k.c, "ok");
                        break;
                    }
                    default: if (Rnd(2) == 0) { C(t, k.c, "unrh", 0, 0); (void)k.ev->UnsetReceiveHandler(); R(t, k.c, "ok"); }
                             else { C(t, k.c, "free", 0, 0); Emit("{\"e\":\"F\",\"c\":%d,\"n\":%d}", k.c, static_cast<int>(k.ev->GetFreeSampleCount())); R(t, k.c, "ok"); }
                }
            });
            if (!ok) { Emit("{\"e\":\"Bad\",\"x\":\"call\"}"); break; }
            if (Rnd(3) == 0) vsched::SleepNs(static_cast<std::int64_t>(Rnd(3000)));
            Yield();
        }
        --busy;
    };
    for (int c = 0; c < n; ++c) {
        Consumer* k = &cs[static_cast<std::size_t>(c)];
        for (int t = 0; t <= (n == 1 && k->raw ? 2 : 0); t += 2) { ++busy; const int f = s.Spawn([&app, k, t] { app(*k, t); }); g_proc_of_fiber[f % 64] = 2 + c; }
    }
    // the provider withdraws and offers again; each consumer hears of it some time later
    const int cycles = RndI(0, 4);
    bool providing = true;
    const int fp = s.Spawn([&] {
        for (int i = 0; i < cycles; ++i) {
            vsched::SleepNs(static_cast<std::int64_t>(Rnd(4000)));
            gens.back().ev->PrepareStopOffer();
            gens.back().sk->PrepareStopOffer({});
            reg.provider = 0;
            const bool brief = Rnd(5) == 0;
            std::vector<bool> told(static_cast<std::size_t>(n), !brief);
            for (int c = 0; c < n; ++c) { if (brief && Rnd(2) == 0) told[static_cast<std::size_t>(c)] = true; if (told[static_cast<std::size_t>(c)]) cs[static_cast<std::size_t>(c)].reports.push_back(false); }
            vsched::SleepNs(static_cast<std::int64_t>(Rnd(3000)));
            const bool renew = !brief && Rnd(2) == 0;
            offer(renew);
            if (brief) for (auto& r : reg.regs) { r.epoch = reg.epoch; }    // the same provider, which went away unnoticed, still knows everyone
            for (int c = 0; c < n; ++c) if (told[static_cast<std::size_t>(c)]) cs[static_cast<std::size_t>(c)].reports.push_back(true);
        }
        providing = false;
    });
    g_proc_of_fiber[fp % 64] = prov_proc;
    for (int c = 0; c < n; ++c) {
        Consumer* k = &cs[static_cast<std::size_t>(c)];
        const int f = s.Spawn([&, k] {
            while (true) {
                if (!vsched::BlockUntil([&] { return !k->reports.empty() || !providing; }, -1)) break;
                if (k->reports.empty()) break;
                if (Rnd(2) == 0) vsched::SleepNs(static_cast<std::int64_t>(Rnd(3000)));
                const bool up = k->reports.front();
                k->reports.pop_front();
                C(1, k->c, up ? "up" : "down", 0, 0);
                if (!Survives([&] { disc.Report(2 + k->c, up); })) { Emit("{\"e\":\"Bad\",\"x\":\"report\"}"); break; }
                R(1, k->c, "ok");
            }
        });
        g_proc_of_fiber[f % 64] = 2 + c;
    }
    // event updates now and then
    s.Spawn([&] {
        for (int i = RndI(0, 12); i > 0 && (busy > 0 || providing); --i) {
            vsched::SleepNs(static_cast<std::int64_t>(Rnd(1500)));
            for (auto& h : reg.Current()) { Yield(); (*h)(); }
        }
    });
    const auto out = s.Run(SchedCfg(seed));
    if (!out.completed) { Emit("{\"e\":\"Bad\",\"x\":\"%s\"}", out.deadlock ? "deadlock" : "steps"); std::fflush(nullptr); std::_Exit(0); }
    vsched::Quiet quiet;
    for (int c = 0; c < n; ++c) {
        Consumer& k = cs[static_cast<std::size_t>(c)];
        g_setup_proc = 2 + c;
        C(0, c, "get", 0, 0); const auto st = k.ev->GetSubscriptionState(); R(0, c, Name(st));
    }
    std::vector<std::vector<int>> called(static_cast<std::size_t>(n));
    for (int c = 0; c < n; ++c) cs[static_cast<std::size_t>(c)].called = &called[static_cast<std::size_t>(c)];
    for (auto& h : reg.Current()) (*h)();
    for (int c = 0; c < n; ++c) {
        std::string l;
        for (int h : called[static_cast<std::size_t>(c)]) l += (l.empty() ? "" : ",") + std::to_string(h);
        Emit("{\"e\":\"Q\",\"c\":%d,\"called\":[%s]}", c, l.c_str());
    }
    for (int c = 0; c < n; ++c) {
        Consumer& k = cs[static_cast<std::size_t>(c)];
        g_setup_proc = 2 + c;
        C(0, c, "unsub", 0, 0); if (k.raw) k.b->Unsubscribe(); else k.ev->Unsubscribe(); R(0, c, "ok");
        C(0, c, "get", 0, 0); R(0, c, Name(k.ev->GetSubscriptionState()));
        k.proxy->PrepareDeinitialize();
        k.ev.reset();
        k.proxy->FinalizeDeinitialize();
        k.proxy.reset();
    }
    g_setup_proc = prov_proc;
    gens.back().ev->PrepareStopOffer();
    gens.back().sk->PrepareStopOffer({});
    gens.back().ev.reset(); gens.back().sk.reset();
    g_setup_proc = 0;
    Emit("{\"e\":\"End\"}");
}
