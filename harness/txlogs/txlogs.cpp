// Consumer processes of one provider (real control structures): creation of proxies (recovery of what a dead predecessor
// left), registration and deregistration of their elements, and crashes of whole processes at any point.
// Mode "pid": the table that maps application identities to processes.
#include "trace.h"
#include "fake_runtime.h"
#include "score/memory/shared/new_delete_delegate_resource.h"
#include "score/mw/com/impl/bindings/lola/application_id_pid_mapping.h"
#include "score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/element_fq_id.h"
#include "score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/service_data_control.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_registration_guard.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.h"

using namespace score::mw::com::impl;
using namespace score::mw::com::impl::lola;
using vtrace::Emit;

namespace {
std::uint64_t Rnd(std::uint64_t n) { return vsched::Rand() % n; }
void Yield() { vsched::Point(vsched::Op::kUser, nullptr); }
std::uint64_t NextId() { static std::uint64_t n{0}; return ++n; }

struct RunCfg {
    int events{1};
    int logs{2};
    int apps{2};
    std::vector<int> threads;      // per application
    int ops{5};
    int crashes{0};                // how many process crashes
    bool restart{true};
    std::size_t crash_point{0};
    int crash_op{0};
    int second_service{0};
    vsched::Config sched{};
};
ElementFqId El(int e) { return ElementFqId{1, static_cast<std::uint16_t>(e + 1), 3, ServiceElementType::EVENT}; }

struct Element {
    std::unique_ptr<ConsumerEventDataControlLocalView<>> view;
    std::optional<TransactionLogRegistrationGuard> guard;
    int sub{0};
    std::vector<SlotIndexType> held;
};

class World {
  public:
    explicit World(const RunCfg& c) : cfg{c}, ctl{static_cast<std::size_t>(c.events), res} {
        for (int e = 0; e < c.events; ++e) {
            ctl.event_controls_.emplace(std::piecewise_construct, std::forward_as_tuple(El(e)),
                                        std::forward_as_tuple(static_cast<SlotIndexType>(3), static_cast<EventControl::SubscriberCountType>(c.logs), false, res));
        }
        for (int e = 0; e < c.events; ++e) Probe(e);
        for (int e = 0; e < c.events; ++e) {
            ProviderEventDataControlLocalView<> p{Ec(e).data_control};
            for (int s = 0; s < 3; ++s) { const auto r = p.AllocateNextSlot(); if (r.has_value()) p.EventReady(*r, static_cast<EventSlotStatus::EventTimeStamp>(s + 1)); }
        }
        rt.current = [this]() -> vfake::Process* { auto it = proc_of.find(vsched::CurrentFiber()); return it == proc_of.end() ? nullptr : it->second; };
    }
    EventControl& Ec(int e) { return ctl.event_controls_.at(El(e)); }

    // Finds out where the owner word and the recovery mark of every log live, without relying on the layout
    void Probe(int e) {
        vsched::Scheduler s;
        std::vector<std::pair<const void*, std::uint64_t>> w4;
        int phase = 0;
        std::map<int, std::vector<std::pair<const void*, std::uint64_t>>> w;
        s.observer = [&](const void* a, std::size_t size, std::uint64_t, std::uint64_t n) { if (phase > 0) w[phase * 10 + static_cast<int>(size)].emplace_back(a, n); };
        s.Spawn([&] {
            auto& set = Ec(e).transaction_log_set_;
            std::vector<std::unique_ptr<ConsumerEventDataControlLocalView<>>> v;
            std::vector<TransactionLogRegistrationGuard> g;
            for (int i = 0; i < cfg.logs; ++i) {
                v.push_back(std::make_unique<ConsumerEventDataControlLocalView<>>(Ec(e).data_control));
                phase = 1;
                auto r = set.RegisterProxyElement(static_cast<TransactionLogId>(9000 + i), *v.back());
                phase = 0;
                const int idx = static_cast<int>(r.value().GetTransactionLogIndex());
                for (const auto& x : w[10 + static_cast<int>(sizeof(TransactionLogId))]) if (x.second == static_cast<std::uint64_t>(9000 + i)) id_addr[x.first] = {e, idx};
                w.clear();
                g.push_back(std::move(r.value()));
                phase = 1;
                set.MarkTransactionLogsNeedRollback(static_cast<TransactionLogId>(9000 + i));
                phase = 0;
                for (const auto& x : w[10 + static_cast<int>(sizeof(bool))]) if (x.second == 1U) flag_addr[x.first] = {e, idx};
                w.clear();
            }
            phase = 1;
            g.clear();
            phase = 0;
            for (auto& [k, l] : w) for (const auto& x : l) if (id_addr.count(x.first) != 0U) free_value = x.second;
        });
        s.Run({});
    }
    void OnWrite(const void* a, std::uint64_t n) {
        auto it = id_addr.find(a);
        if (it != id_addr.end()) { Emit("{\"e\":\"W\",\"a\":\"%s\",\"ev\":%d,\"i\":%d,\"id\":%d}", Actor().c_str(), it->second.first, it->second.second, n == free_value ? 0 : static_cast<int>(n)); return; }
        it = flag_addr.find(a);
        if (it != flag_addr.end()) Emit("{\"e\":\"F\",\"a\":\"%s\",\"ev\":%d,\"i\":%d,\"f\":%s}", Actor().c_str(), it->second.first, it->second.second, n != 0 ? "true" : "false");
    }
    std::string Actor() const { auto it = actor.find(vsched::CurrentFiber()); return it == actor.end() ? "?" : it->second; }

    void Thread(const std::string& a, int app, int ops) {
        auto* els = new std::map<int, Element>;
        bool created = false;
        for (int i = 0; i < ops; ++i) {
            if (app == 1 && i == cfg.crash_op && crash_armed == 1) { crash_armed = 2; vsched::ArmCrash(cfg.crash_point); }
            if (!created || Rnd(8) == 0) {
                Emit("{\"e\":\"CreC\",\"a\":\"%s\"}", a.c_str());
                TransactionLogRollbackExecutor x{ctl, SkeletonInstanceIdentifier{1, 3}, QualityType::kASIL_QM, 4711, static_cast<TransactionLogId>(app)};
                const auto r = x.RollbackTransactionLogs();
                Emit("{\"e\":\"CreR\",\"a\":\"%s\",\"ok\":%s}", a.c_str(), r.has_value() ? "true" : "false");
                if (!r.has_value()) break;
                created = true;
                continue;
            }
            const int e = static_cast<int>(Rnd(static_cast<std::uint64_t>(cfg.events)));
            auto it = els->find(e);
            if (it == els->end()) {
                Element el;
                el.view = std::make_unique<ConsumerEventDataControlLocalView<>>(Ec(e).data_control);
                Emit("{\"e\":\"RegC\",\"a\":\"%s\",\"ev\":%d}", a.c_str(), e);
                auto r = Ec(e).transaction_log_set_.RegisterProxyElement(static_cast<TransactionLogId>(app), *el.view);
                Emit("{\"e\":\"RegR\",\"a\":\"%s\",\"i\":%d}", a.c_str(), r.has_value() ? static_cast<int>(r.value().GetTransactionLogIndex()) : -1);
                if (r.has_value()) { el.guard.emplace(std::move(r.value())); (*els)[e] = std::move(el); }
                else Yield();
                continue;
            }
            Element& el = it->second;
            TransactionLogLocalView log{Ec(e).transaction_log_set_.GetTransactionLog(el.guard->GetTransactionLogIndex())};
            if (el.sub == 0) {
                if (Rnd(2) == 0) {
                    const std::size_t n = 1 + Rnd(2);
                    log.SubscribeTransactionBegin(n);
                    if (Ec(e).subscription_control.Subscribe(static_cast<TransactionLog::MaxSampleCountType>(n)) == SubscribeResult::kSuccess) { log.SubscribeTransactionCommit(); el.sub = static_cast<int>(n); }
                    else log.SubscribeTransactionAbort();
                    Emit("{\"e\":\"Sub\",\"a\":\"%s\",\"ev\":%d,\"n\":%d}", a.c_str(), e, el.sub);
                } else {
                    Emit("{\"e\":\"UnregC\",\"a\":\"%s\",\"ev\":%d}", a.c_str(), e);
                    el.guard.reset();
                    Emit("{\"e\":\"UnregR\",\"a\":\"%s\"}", a.c_str());
                    els->erase(it);
                }
            } else if (el.held.size() < 2 && Rnd(2) == 0) {
                // the three published samples never change: newest first, each at most once
                const auto r = el.view->ReferenceNextEvent(0, el.held.empty() ? EventSlotStatus::TIMESTAMP_MAX : static_cast<EventSlotStatus::EventTimeStamp>(3));
                if (r.has_value()) el.held.push_back(*r);
            } else if (!el.held.empty()) {
                el.view->DereferenceEvent(el.held.back());
                el.held.pop_back();
            } else {
                log.UnsubscribeTransactionBegin();
                Ec(e).subscription_control.Unsubscribe(static_cast<TransactionLog::MaxSampleCountType>(el.sub));
                log.UnsubscribeTransactionCommit();
                el.sub = 0;
            }
        }
        for (auto& [e, el] : *els) {
            for (auto s : el.held) el.view->DereferenceEvent(s);
            if (el.sub != 0) {
                TransactionLogLocalView log{Ec(e).transaction_log_set_.GetTransactionLog(el.guard->GetTransactionLogIndex())};
                log.UnsubscribeTransactionBegin();
                Ec(e).subscription_control.Unsubscribe(static_cast<TransactionLog::MaxSampleCountType>(el.sub));
                log.UnsubscribeTransactionCommit();
            }
            Emit("{\"e\":\"UnregC\",\"a\":\"%s\",\"ev\":%d}", a.c_str(), e);
            el.guard.reset();
            Emit("{\"e\":\"UnregR\",\"a\":\"%s\"}", a.c_str());
        }
    }

    RunCfg cfg;
    score::memory::shared::NewDeleteDelegateMemoryResource res{NextId()};
    ServiceDataControl ctl;
    vfake::Messaging msg;
    vfake::Runtime rt;
    std::map<int, vfake::Process*> proc_of;      // fiber -> process
    std::map<int, int> app_of;
    std::map<int, std::string> actor;
    std::map<const void*, std::pair<int, int>> id_addr, flag_addr;
    std::uint64_t free_value{0};
    int crash_armed{1};
};

void RunOnce(const RunCfg& c, std::uint64_t seed) {
    vsched::SeedRand(seed);
    auto* wp = new World(c);
    World& w = *wp;
    std::string apps;
    int t = 0, pid = 100;
    Emit("{\"e\":\"Begin\",\"events\":%d,\"logs\":%d}", c.events, c.logs);
    {
        vsched::Scheduler s;
        s.observer = [&w](const void* a, std::size_t, std::uint64_t, std::uint64_t n) { w.OnWrite(a, n); };
        auto start = [&](int app, int threads) {
            auto* p = new vfake::Process{w.msg, static_cast<pid_t>(++pid), static_cast<std::uint32_t>(app)};
            for (int k = 0; k < threads; ++k) {
                const std::string a = "t" + std::to_string(t++);
                Emit("{\"e\":\"Start\",\"a\":\"%s\",\"app\":%d}", a.c_str(), app);
                const int f = s.Spawn([&w, a, app, &c] { w.Thread(a, app, c.ops); });
                w.actor[f] = a; w.proc_of[f] = p; w.app_of[f] = app;
            }
        };
        for (int a = 1; a <= c.apps; ++a) start(a, c.threads[static_cast<std::size_t>(a - 1)]);
        int crashes = c.crashes;
        if (crashes == 0) w.crash_armed = 0;
        s.SetCrashCallback([&](int f) {
            const int app = w.app_of[f];
            for (auto& [g, p] : w.proc_of) if (p == w.proc_of[f] && !s.Finished(g)) s.Kill(g);
            Emit("{\"e\":\"Crash\",\"app\":%d}", app);
            if (--crashes > 0) w.crash_armed = 1;
            if (c.restart) start(app, 1 + static_cast<int>(Rnd(2)));
        });
        const auto out = s.Run(c.sched);
        if (!out.completed) Emit("{\"e\":\"Hang\",\"deadlock\":%s}", out.deadlock ? "true" : "false");
        else Emit("{\"e\":\"End\"}");
    }
}

RunCfg RandomCfg(std::uint64_t seed) {
    vsched::SeedRand(seed ^ 0xABCDEF);
    RunCfg c;
    c.events = 1 + static_cast<int>(Rnd(2));
    c.logs = 1 + static_cast<int>(Rnd(4));
    c.apps = 1 + static_cast<int>(Rnd(3));
    for (int i = 0; i < c.apps; ++i) c.threads.push_back(1 + static_cast<int>(Rnd(2)));
    c.ops = 3 + static_cast<int>(Rnd(7));
    c.crashes = static_cast<int>(Rnd(3));
    c.crash_op = static_cast<int>(Rnd(static_cast<std::uint64_t>(c.ops)));
    c.crash_point = 1 + (Rnd(2) == 0 ? Rnd(60) : Rnd(1 + Rnd(1500)));
    c.sched.strategy = Rnd(2) == 0 ? vsched::Strategy::kRandom : vsched::Strategy::kPct;
    c.sched.switch_permille = 50 + static_cast<int>(Rnd(900));
    c.sched.pct_depth = 2 + static_cast<int>(Rnd(4));
    c.sched.pct_length = 60 + static_cast<int>(Rnd(300));
    c.sched.seed = seed;
    c.sched.max_steps = 200000;
    return c;
}

// ---------------------------------------------------------------- application identity -> process
using Mapping = ApplicationIdPidMapping<score::memory::shared::PolymorphicOffsetPtrAllocator<ApplicationIdPidMappingEntry>>;
void RunPid(std::uint64_t seed) {
    vsched::SeedRand(seed ^ 0x5150);
    auto* res = new score::memory::shared::NewDeleteDelegateMemoryResource{NextId()};
    const int size = 1 + static_cast<int>(Rnd(4));
    const int apps = 1 + static_cast<int>(Rnd(5));
    auto* map = new Mapping{static_cast<std::uint16_t>(size), *res};
    const bool big = Rnd(3) == 0;     // identities that differ in a single high or low bit only
    const int crash_app = Rnd(2) == 0 ? static_cast<int>(Rnd(static_cast<std::uint64_t>(apps))) : -1;
    const std::size_t spread[] = {60, 200, 500, 1200};
    vsched::Config sc;
    sc.strategy = Rnd(2) == 0 ? vsched::Strategy::kRandom : vsched::Strategy::kPct;
    sc.switch_permille = 50 + static_cast<int>(Rnd(900));
    sc.pct_depth = 2 + static_cast<int>(Rnd(4));
    sc.pct_length = 20 + static_cast<int>(Rnd(100));
    sc.seed = seed;
    Emit("{\"e\":\"Begin\",\"size\":%d}", size);
    auto ids = [&](int a) -> std::uint32_t { return big ? (a == 0 ? 0U : 1U << static_cast<unsigned>((a * 8 - 1) % 32)) : static_cast<std::uint32_t>(a + 1); };
    int pid = 1000;
    const int stride = Rnd(2) == 0 ? 1 : -1;      // process numbers wrap around: a newer process may have a smaller one
    vsched::Scheduler s;
    std::map<int, int> app_of, writes;
    auto body = [&, map](int a, int n) {
        for (int i = 0; i < n; ++i) {
            const int p = pid += stride;
            if (a == crash_app && Rnd(3) != 0) {
                if (Rnd(2) == 0) vsched::ArmCrash(1 + Rnd(spread[Rnd(4)]));
                else writes[a] = 1 + static_cast<int>(Rnd(3));
            }
            Emit("{\"e\":\"RegC\",\"a\":%d,\"p\":%d}", a, p);
            const auto r = map->RegisterPid(ids(a), static_cast<pid_t>(p));
            Emit("{\"e\":\"RegR\",\"a\":%d,\"r\":%d}", a, r.has_value() ? static_cast<int>(*r) : -1);
            Yield();
        }
    };
    // dies shortly after one of its writes
    s.observer = [&](const void*, std::size_t, std::uint64_t, std::uint64_t) {
        const auto i = app_of.find(vsched::CurrentFiber());
        if (i == app_of.end()) return;
        const auto w = writes.find(i->second);
        if (w != writes.end() && w->second > 0 && --w->second == 0) vsched::ArmCrash(1 + Rnd(12));
    };
    int started = 0;
    auto start = [&](int a) { const int f = s.Spawn([&body, a] { body(a, 1 + static_cast<int>(Rnd(3))); }); app_of[f] = a; ++started; };
    for (int a = 0; a < apps; ++a) start(a);
    s.SetCrashCallback([&](int f) { Emit("{\"e\":\"Crash\",\"a\":%d}", app_of[f]); if (started < 20) start(app_of[f]); });
    const auto out = s.Run(sc);
    for (int a = 0; a < apps && out.completed; ++a) {       // what everybody resolves to in the end
        const int p = pid += stride;
        Emit("{\"e\":\"RegC\",\"a\":%d,\"p\":%d}", a, p);
        const auto r = map->RegisterPid(ids(a), static_cast<pid_t>(p));
        Emit("{\"e\":\"RegR\",\"a\":%d,\"r\":%d}", a, r.has_value() ? static_cast<int>(*r) : -1);
    }
    if (!out.completed) Emit("{\"e\":\"Hang\"}");
    else Emit("{\"e\":\"End\"}");
}
}  // namespace

int main(int argc, char** argv) {
    const auto o = vtrace::Parse(argc, argv);
    return vtrace::Drive(o, [&o](std::uint64_t i) {
        const std::uint64_t seed = o.seed * 1000003ULL + i;
        if (o.mode == "pid") RunPid(seed);
        else RunOnce(RandomCfg(seed), seed);
    });
}
