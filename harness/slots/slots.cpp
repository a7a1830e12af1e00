// Drives the provider- and consumer-side control structures of one event (real code) under the deterministic scheduler
// and records every change of a shared status word and every call/return as one trace event.
#include "trace.h"
#include "score/memory/shared/new_delete_delegate_resource.h"
#include "score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/element_fq_id.h"
#include "score/mw/com/impl/bindings/lola/event_control.h"
#include "score/mw/com/impl/bindings/lola/event_data_control_composite.h"
#include "score/mw/com/impl/bindings/lola/event_slot_status.h"
#include "score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/sample_allocatee_ptr.h"
#include "score/mw/com/impl/bindings/lola/sample_ptr.h"
#include "score/mw/com/impl/bindings/lola/slot_collector.h"
#include "score/mw/com/impl/bindings/lola/subscription_state_machine.h"
#include "score/mw/com/impl/com_error.h"

using namespace score::mw::com::impl;
using namespace score::mw::com::impl::lola;
using vtrace::Emit;

namespace {
struct Payload { int lo; int hi; };
std::uint64_t Rnd(std::uint64_t n) { return vsched::Rand() % n; }
const char* LvlName(bool b) { return b ? "B" : "QM"; }
void Yield() { vsched::Point(vsched::Op::kUser, nullptr); }

struct RunCfg {
    int slots{2};
    bool dual{false};
    int maxsubs{4};
    bool enforce{true};
    std::vector<bool> cons_b;      // level of each consumer
    int prov_ops{8};
    int cons_ops{6};
    bool hog_qm{false};            // lower-level consumers never release
    bool scribble{false};
    bool subs{false};              // subscription churn
    int crash_fiber{-1};           // 0: provider, 1+i: consumer i
    int crash_op{0};               // crash inside (or shortly after) its n-th operation ...
    std::size_t crash_point{0};    // ... at this crash point
    int restarts{1};
    vsched::Config sched{};
};

class World;
World* g_w{nullptr};

struct Consumer {
    int idx;
    bool b;
    std::string name;
    TransactionLogId uid;
    std::unique_ptr<ConsumerEventDataControlLocalView<>> view;
    std::shared_ptr<SubscriptionStateMachine> sm;
    std::vector<std::pair<int, SamplePtr<Payload>>> held;
    bool subscribed{false};
    int max{0};
};

class World {
  public:
    explicit World(const RunCfg& c) : cfg{c} {
        qm = std::make_unique<EventControl>(static_cast<SlotIndexType>(c.slots), static_cast<EventControl::SubscriberCountType>(c.maxsubs), c.enforce, res);
        if (c.dual) asil = std::make_unique<EventControl>(static_cast<SlotIndexType>(c.slots), static_cast<EventControl::SubscriberCountType>(c.maxsubs), c.enforce, res);
        for (int b = 0; b <= (asil ? 1 : 0); ++b) { auto& st = Ctl(b != 0).data_control.state_slots_; slots_of[b] = {&st[0], &st[0] + c.slots}; }
        data.resize(static_cast<std::size_t>(c.slots));
        wr.resize(static_cast<std::size_t>(c.slots));
        rd.resize(static_cast<std::size_t>(c.slots));
        for (std::size_t i = 0; i < c.cons_b.size(); ++i) {
            auto k = std::make_unique<Consumer>();
            k->idx = static_cast<int>(i); k->b = c.cons_b[i]; k->name = "c" + std::to_string(i); k->uid = static_cast<TransactionLogId>(100 + i);
            cons.push_back(std::move(k));
        }
    }
    std::pair<const void*, const void*> slots_of[2]{};
    EventControl& Ctl(bool b) { return b ? *asil : *qm; }

    void OnWrite(const void* addr, std::uint64_t nv) {
        for (int b = 0; b <= (asil ? 1 : 0); ++b) {
            auto& ec = Ctl(b != 0);
            for (int s = 0; s < cfg.slots; ++s) {
                if (addr == static_cast<const void*>(&ec.data_control.state_slots_[static_cast<std::size_t>(s)])) {
                    int ts = 0, rc = 0; Decode(nv, ts, rc);
                    Emit("{\"e\":\"W\",\"a\":\"%s\",\"l\":\"%s\",\"s\":%d,\"ts\":%d,\"rc\":%d}", Actor().c_str(), LvlName(b != 0), s, ts, rc);
                    return;
                }
            }
            const auto* base = reinterpret_cast<const char*>(&ec.subscription_control);
            if (addr >= base && addr < base + sizeof(ec.subscription_control)) {
                Emit("{\"e\":\"SW\",\"a\":\"%s\",\"l\":\"%s\",\"subs\":%d,\"slots\":%d}", Actor().c_str(), LvlName(b != 0), static_cast<int>((nv >> 16) & 0xFFFF), static_cast<int>(nv & 0xFFFF));
                return;
            }
        }
    }
    bool Shared(const void* a) {
        for (int b = 0; b <= (asil ? 1 : 0); ++b) {
            auto& ec = Ctl(b != 0);
            if (a >= static_cast<const void*>(&ec) && a < static_cast<const void*>(&ec + 1)) return true;
            if (a >= slots_of[b].first && a < slots_of[b].second) return true;
        }
        return false;
    }
    static void Decode(std::uint64_t v, int& ts, int& rc) {
        const EventSlotStatus st{v};
        if (st.IsInWriting()) { ts = 0; rc = -1; return; }
        ts = st.GetTimeStamp() > 1000000U ? 1000000 : static_cast<int>(st.GetTimeStamp());
        rc = st.GetReferenceCount() > 1000000U ? 1000000 : static_cast<int>(st.GetReferenceCount());
    }
    std::string Actor() const {
        const int f = vsched::CurrentFiber();
        auto it = actor.find(f);
        return it == actor.end() ? "?" : it->second;
    }

    void MaybeArm(int who, int op) {
        if (who == cfg.crash_fiber && op == cfg.crash_op && !armed) { armed = true; vsched::ArmCrash(cfg.crash_point); }
    }

    // ---- provider -------------------------------------------------------------------------------------------
    void Provider(int ops, bool after_restart) {
        ProviderEventDataControlLocalView<> pq{qm->data_control};
        ConsumerEventDataControlLocalView<> cv{Ctl(asil != nullptr).data_control};
        std::unique_ptr<ProviderEventDataControlLocalView<>> pb;
        if (asil) pb = std::make_unique<ProviderEventDataControlLocalView<>>(asil->data_control);
        if (after_restart) {
            Emit("{\"e\":\"RestartC\"}");
            pq.RemoveAllocationsForWriting();
            if (pb) pb->RemoveAllocationsForWriting();
        }
        std::unique_ptr<EventDataControlComposite<>> comp = asil ? std::make_unique<EventDataControlComposite<>>(pq, pb.get()) : std::make_unique<EventDataControlComposite<>>(pq);
        EventSlotStatus::EventTimeStamp ts = comp->GetLatestTimestamp();
        if (after_restart) Emit("{\"e\":\"RestartR\",\"ts\":%d}", static_cast<int>(ts));
        std::vector<SampleAllocateePtr<Payload>> mine;
        for (int i = 0; i < ops; ++i) {
            MaybeArm(0, i);
            const bool can = mine.size() < 2;
            if (mine.empty() || (can && Rnd(4) == 0)) {
                Emit("{\"e\":\"AllocC\"}");
                const auto r = comp->AllocateNextSlot();
                const int s = r.allocated_slot_index.has_value() ? static_cast<int>(*r.allocated_slot_index) : -1;
                Emit("{\"e\":\"AllocR\",\"s\":%d,\"cut\":%s}", s, asil && r.qm_misbehaved ? "true" : "false");
                if (s >= 0 && s < cfg.slots) {
                    Payload* p = &data[static_cast<std::size_t>(s)];
                    mine.emplace_back(p, *comp, cv, static_cast<SlotIndexType>(s));
                    const int v = ++value;
                    Fill(s, 0, v); Yield(); Fill(s, 1, v); Yield();
                }
                continue;
            }
            const std::size_t k = Rnd(mine.size());
            const int s = static_cast<int>(mine[k].GetReferencedSlot());
            if (Rnd(6) == 0) {
                Emit("{\"e\":\"DiscC\",\"s\":%d}", s);
                mine[k].reset();
                Emit("{\"e\":\"DiscR\"}");
            } else {
                ++ts;
                Emit("{\"e\":\"PubC\",\"s\":%d,\"ts\":%d}", s, static_cast<int>(ts));
                comp->EventReady(static_cast<SlotIndexType>(s), ts);
                mine[k].reset();              // as the owning pointer does after a send
                Emit("{\"e\":\"PubR\"}");
            }
            mine.erase(mine.begin() + static_cast<std::ptrdiff_t>(k));
            Yield();
        }
        while (!mine.empty()) {
            Emit("{\"e\":\"DiscC\",\"s\":%d}", static_cast<int>(mine.back().GetReferencedSlot()));
            mine.back().reset();
            Emit("{\"e\":\"DiscR\"}");
            mine.pop_back();
        }
    }
    void Fill(int s, int half, int v) {
        bool hb = true;
        for (const auto& e : rd[static_cast<std::size_t>(s)]) hb = hb && vsched::HappensBefore(e);
        if (half == 0) { rd[static_cast<std::size_t>(s)].clear(); wr[static_cast<std::size_t>(s)].clear(); data[static_cast<std::size_t>(s)].lo = v; }
        else data[static_cast<std::size_t>(s)].hi = v;
        wr[static_cast<std::size_t>(s)].push_back(vsched::Now());
        Emit("{\"e\":\"Fill\",\"s\":%d,\"h\":%d,\"v\":%d,\"hb\":%s}", s, half, v, hb ? "true" : "false");
    }

    // ---- consumer -------------------------------------------------------------------------------------------
    bool Subscribe(Consumer& c, int n) {
        auto& ec = Ctl(c.b);
        if (!c.sm) {
            c.view = std::make_unique<ConsumerEventDataControlLocalView<>>(ec.data_control);
            c.sm = std::make_shared<SubscriptionStateMachine>(c.b ? QualityType::kASIL_B : QualityType::kASIL_QM, ElementFqId{1, 2, 3, ServiceElementType::EVENT}, 55, *c.view, ec.subscription_control, ec.transaction_log_set_, c.uid);
        }
        Emit("{\"e\":\"SubC\",\"c\":\"%s\",\"n\":%d}", c.name.c_str(), n);
        const auto r = c.sm->SubscribeEvent(static_cast<std::size_t>(n));
        const char* res = "ok";
        if (!r.has_value()) res = r.error() == ComErrc::kMaxSubscribersExceeded ? "subs" : "slots";
        Emit("{\"e\":\"SubR\",\"c\":\"%s\",\"res\":\"%s\"}", c.name.c_str(), res);
        c.subscribed = r.has_value();
        c.max = n;
        return c.subscribed;
    }
    void Unsubscribe(Consumer& c) {
        while (!c.held.empty()) Release(c, c.held.size() - 1);
        Emit("{\"e\":\"UnsubC\",\"c\":\"%s\"}", c.name.c_str());
        c.sm->UnsubscribeEvent();
        Emit("{\"e\":\"UnsubR\",\"c\":\"%s\"}", c.name.c_str());
        c.subscribed = false;
    }
    void Get(Consumer& c, int max) {
        Emit("{\"e\":\"GetC\",\"c\":\"%s\",\"max\":%d}", c.name.c_str(), max);
        auto& col = c.sm->GetSlotCollectorLockFree();
        const auto r = col->GetNewSamplesSlotIndices(static_cast<std::size_t>(max));
        std::string l;
        std::vector<int> got;
        for (auto it = r.begin; it != r.end; ++it) { got.push_back(static_cast<int>(*it)); l += (l.empty() ? "" : ",") + std::to_string(*it); }
        Emit("{\"e\":\"GetR\",\"c\":\"%s\",\"r\":[%s]}", c.name.c_str(), l.c_str());
        for (int s : got) if (s >= 0 && s < cfg.slots) c.held.emplace_back(s, SamplePtr<Payload>{&data[static_cast<std::size_t>(s)], *c.view, static_cast<SlotIndexType>(s)});
    }
    void Read(Consumer& c, std::size_t k) {
        const int s = c.held[k].first;
        const auto& p = c.held[k].second;
        const int lo = p->lo; Yield();
        const int hi = p->hi;
        bool hb = true;
        for (const auto& e : wr[static_cast<std::size_t>(s)]) hb = hb && vsched::HappensBefore(e);
        rd[static_cast<std::size_t>(s)].push_back(vsched::Now());
        Emit("{\"e\":\"Read\",\"c\":\"%s\",\"s\":%d,\"lo\":%d,\"hi\":%d,\"hb\":%s}", c.name.c_str(), s, lo, hi, hb ? "true" : "false");
    }
    void Release(Consumer& c, std::size_t k) {
        Emit("{\"e\":\"RelC\",\"c\":\"%s\",\"s\":%d}", c.name.c_str(), c.held[k].first);
        { SamplePtr<Payload> gone{std::move(c.held[k].second)}; c.held.erase(c.held.begin() + static_cast<std::ptrdiff_t>(k)); }
        Emit("{\"e\":\"RelR\",\"c\":\"%s\"}", c.name.c_str());
    }
    void ConsumerMain(Consumer& c, int ops) {
        const bool hog = cfg.hog_qm && !c.b;
        for (int i = 0; i < ops; ++i) {
            MaybeArm(1 + c.idx, i);
            if (!c.subscribed) {
                if (!Subscribe(c, 1 + static_cast<int>(Rnd(static_cast<std::uint64_t>(cfg.slots + (cfg.subs ? 1 : 0)))))) Yield();
                continue;
            }
            const std::uint64_t pick = Rnd(12);
            if (pick < 5 && static_cast<int>(c.held.size()) < c.max) {
                Get(c, 1 + static_cast<int>(Rnd(static_cast<std::uint64_t>(c.max - static_cast<int>(c.held.size())))));
                for (std::size_t k = 0; k < c.held.size(); ++k) Read(c, k);
            } else if (pick < 7 && !c.held.empty()) {
                Read(c, Rnd(c.held.size()));
            } else if (pick < 10 && !c.held.empty() && !hog) {
                const std::size_t k = Rnd(c.held.size());
                Read(c, k);
                Release(c, k);
            } else if (pick == 10) {
                Emit("{\"e\":\"NumC\",\"c\":\"%s\"}", c.name.c_str());
                const auto n = c.sm->GetSlotCollectorLockFree()->GetNumNewSamplesAvailable();
                Emit("{\"e\":\"NumR\",\"c\":\"%s\",\"n\":%d}", c.name.c_str(), static_cast<int>(n));
            } else if (!hog && (cfg.subs ? Rnd(2) == 0 : Rnd(6) == 0)) {
                Unsubscribe(c);
            } else Yield();
        }
        if (!hog) while (!c.held.empty()) Release(c, Rnd(c.held.size()));
        if (c.subscribed && !hog && Rnd(2) == 0) Unsubscribe(c);
    }
    // A crashed consumer's objects vanish without running destructors
    void Forget(Consumer& c) {
        new std::vector<std::pair<int, SamplePtr<Payload>>>(std::move(c.held));
        c.held.clear();
        new std::shared_ptr<SubscriptionStateMachine>(std::move(c.sm));
        c.sm.reset();
        (void)c.view.release();
        c.subscribed = false;
    }
    void Recover(Consumer& c) {
        auto& ec = Ctl(c.b);
        Emit("{\"e\":\"RecC\",\"c\":\"%s\"}", c.name.c_str());
        ConsumerEventDataControlLocalView<> v{ec.data_control};
        ec.transaction_log_set_.MarkTransactionLogsNeedRollback(c.uid);
        const auto r = ec.transaction_log_set_.RollbackProxyTransactions(
            c.uid, [&v](TransactionLog::SlotIndexType s) noexcept { v.DereferenceEventWithoutTransactionLogging(s); },
            [&ec](TransactionLog::MaxSampleCountType n) noexcept { ec.subscription_control.Unsubscribe(n); });
        Emit("{\"e\":\"RecR\",\"c\":\"%s\",\"ok\":%s}", c.name.c_str(), r.has_value() ? "true" : "false");
        recovered_ok = r.has_value();
    }
    void Scribbler() {
        for (int i = 0; i < 3; ++i) {
            Yield(); Yield();
            const auto s = Rnd(static_cast<std::uint64_t>(cfg.slots));
            EventSlotStatus v{};
            switch (Rnd(4)) { case 0: v = EventSlotStatus{static_cast<EventSlotStatus::EventTimeStamp>(Rnd(9)), 0}; break; case 1: v.MarkInWriting(); break; case 2: v = EventSlotStatus{5, 2}; break; default: break; }
            qm->data_control.state_slots_[s].store(static_cast<EventSlotStatus::value_type&>(v));
        }
    }

    RunCfg cfg;
    static std::uint64_t NextId() { static std::uint64_t n{0}; return ++n; }
    score::memory::shared::NewDeleteDelegateMemoryResource res{NextId()};
    std::unique_ptr<EventControl> qm, asil;
    std::vector<Payload> data;
    std::vector<std::vector<vsched::Epoch>> wr, rd;
    std::vector<std::unique_ptr<Consumer>> cons;
    std::map<int, std::string> actor;
    int value{0};
    bool recovered_ok{false};
    bool armed{false};
};

void RunOnce(const RunCfg& c, std::uint64_t seed) {
    vsched::SeedRand(seed);
    auto* wp = new World(c);
    World& w = *wp;
    g_w = wp;
    std::string cl;
    for (auto& k : w.cons) cl += (cl.empty() ? "" : ",") + ("\"" + k->name + "\":\"" + LvlName(k->b) + "\"");
    Emit("{\"e\":\"Begin\",\"slots\":%d,\"dual\":%s,\"maxsubs\":%d,\"enforce\":%s,\"cons\":{%s}}", c.slots, c.dual ? "true" : "false", c.maxsubs, c.enforce ? "true" : "false", cl.c_str());
    {
        vsched::SetSyncFilter([&w](const void* a) { return w.Shared(a); });
        vsched::Scheduler s;
        s.observer = [&w](const void* a, std::size_t, std::uint64_t, std::uint64_t n) { w.OnWrite(a, n); };
        int restarts = c.restarts;
        auto spawn_provider = [&w, &s](int ops, bool again) { const int f = s.Spawn([&w, ops, again] { w.Provider(ops, again); }); w.actor[f] = "P"; return f; };
        spawn_provider(c.prov_ops, false);
        for (auto& k : w.cons) { Consumer* kp = k.get(); const int f = s.Spawn([&w, kp, &c] { w.ConsumerMain(*kp, c.cons_ops); }); w.actor[f] = k->name; }
        if (c.scribble) { const int f = s.Spawn([&w] { w.Scribbler(); }); w.actor[f] = "X"; }
        s.SetCrashCallback([&](int f) {
            const std::string who = w.actor[f];
            if (who == "P") {
                Emit("{\"e\":\"PCrash\"}");
                if (restarts-- <= 0) return;
                const int nf = s.Spawn([&w, f] { vsched::JoinFrom(f); w.Provider(5, true); });
                w.actor[nf] = "P";
                if (restarts > 0) s.CrashAt(nf, 1 + (c.crash_point * 7) % 301);
            } else {
                Consumer* kp = w.cons[static_cast<std::size_t>(std::stoi(who.substr(1)))].get();
                Emit("{\"e\":\"CCrash\",\"c\":\"%s\"}", who.c_str());
                w.Forget(*kp);
                const int nf = s.Spawn([&w, kp, f] { vsched::JoinFrom(f); w.Recover(*kp); if (w.recovered_ok) w.ConsumerMain(*kp, 5); });
                w.actor[nf] = who;
            }
        });
        const auto out = s.Run(c.sched);
        if (!out.completed) Emit("{\"e\":\"Hang\",\"deadlock\":%s}", out.deadlock ? "true" : "false");
        else Emit("{\"e\":\"End\"}");
        if (out.completed) for (auto& k : w.cons) { if (!k->held.empty() || k->subscribed) { w.Forget(*k); } }
    }
    if (c.crash_fiber < 0) delete wp;     // after a crash the abandoned stacks still refer to it
}

RunCfg RandomCfg(const std::string& mode, std::uint64_t seed) {
    vsched::SeedRand(seed ^ 0xABCDEF);
    RunCfg c;
    c.slots = 1 + static_cast<int>(Rnd(4));
    c.dual = Rnd(2) == 0;
    const int n = 1 + static_cast<int>(Rnd(3));
    for (int i = 0; i < n; ++i) c.cons_b.push_back(c.dual && Rnd(2) == 0);
    c.maxsubs = 3 + static_cast<int>(Rnd(3));
    c.enforce = false;
    c.prov_ops = 6 + static_cast<int>(Rnd(10));
    c.cons_ops = 6 + static_cast<int>(Rnd(8));
    if (mode == "b") {          // two integrity levels, lower one misbehaving
        c.dual = true; c.cons_b.clear(); c.cons_b.push_back(true); c.cons_b.push_back(false); if (Rnd(2)) c.cons_b.push_back(Rnd(2) == 0);
        c.hog_qm = Rnd(3) != 0;
        c.scribble = Rnd(3) == 0;
        if (c.scribble) c.cons_b.assign(c.cons_b.size(), true);   // a consumer whose own control block is corrupted may die of it
        c.slots = 2 + static_cast<int>(Rnd(3));
    } else if (mode == "subs") {
        c.subs = true; c.slots = 2 + static_cast<int>(Rnd(6)); c.cons_b.clear(); const int m = 3; for (int i = 0; i < m; ++i) c.cons_b.push_back(false);
        c.maxsubs = 1 + static_cast<int>(Rnd(4)); c.enforce = Rnd(4) != 0; c.prov_ops = 0; c.dual = false; c.cons_ops = c.maxsubs < 3 ? 5 : 9;
    } else if (mode == "cons") { // consumer crash
        c.crash_fiber = 1 + static_cast<int>(Rnd(static_cast<std::uint64_t>(n)));
        c.crash_op = static_cast<int>(Rnd(static_cast<std::uint64_t>(c.cons_ops)));
        c.crash_point = 1 + (Rnd(3) == 0 ? Rnd(60) : Rnd(1 + Rnd(2000)));
        c.subs = Rnd(2) == 0;
        c.maxsubs = 4;
    } else if (mode == "prov") {
        c.crash_fiber = 0;
        c.crash_op = static_cast<int>(Rnd(static_cast<std::uint64_t>(c.prov_ops)));
        c.crash_point = 1 + (Rnd(3) == 0 ? Rnd(60) : Rnd(1 + Rnd(2000)));
        c.restarts = 1 + static_cast<int>(Rnd(2));
    }
    c.sched.strategy = Rnd(2) == 0 ? vsched::Strategy::kRandom : vsched::Strategy::kPct;
    c.sched.switch_permille = 50 + static_cast<int>(Rnd(900));
    c.sched.pct_depth = 2 + static_cast<int>(Rnd(4));
    c.sched.pct_length = 60 + static_cast<int>(Rnd(300));
    c.sched.seed = seed;
    c.sched.max_steps = 200000;
    return c;
}
}  // namespace

int main(int argc, char** argv) {
    const auto o = vtrace::Parse(argc, argv);
    return vtrace::Drive(o, [&o](std::uint64_t i) {
        const std::uint64_t seed = o.seed * 1000003ULL + i;
        RunOnce(RandomCfg(o.mode, seed), seed);
    });
}
