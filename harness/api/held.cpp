// How many samples a consumer holds (C11): real ProxyEvent, SamplePtr, SampleReferenceTracker over a binding whose buffers
// record when they are taken and given back.
#include "api.h"
#include "score/mw/com/impl/proxy_event.h"
#include "score/mw/com/impl/proxy_event_binding.h"
#include <deque>
#include <memory>
#include <optional>
#include <vector>
namespace impl = score::mw::com::impl;
namespace {
struct Payload { std::uint32_t id; };
struct Binding final : impl::ProxyEventBinding<Payload> {
    bool subscribed{false};
    std::uint16_t max{0};
    bool refuse{false};
    std::uint32_t next{0};
    int avail{0};              // what a retrieval finds at most
    int per_call{0};
    score::Result<void> Subscribe(const std::size_t n) noexcept override { Yield(); if (refuse) return score::MakeUnexpected(impl::ComErrc::kBindingFailure); subscribed = true; max = static_cast<std::uint16_t>(n); return {}; }
    impl::SubscriptionState GetSubscriptionState() const noexcept override { return subscribed ? impl::SubscriptionState::kSubscribed : impl::SubscriptionState::kNotSubscribed; }
    void Unsubscribe() noexcept override { subscribed = false; }
    score::Result<void> SetReceiveHandler(std::weak_ptr<impl::ScopedEventReceiveHandler>) noexcept override { return {}; }
    score::Result<void> UnsetReceiveHandler() noexcept override { return {}; }
    score::Result<void> SetSubscriptionStateChangeHandler(impl::SubscriptionStateChangeHandler) noexcept override { return {}; }
    score::Result<void> UnsetSubscriptionStateChangeHandler() noexcept override { return {}; }
    score::Result<std::size_t> GetNumNewSamplesAvailable() const override { return static_cast<std::size_t>(0); }
    std::optional<std::uint16_t> GetMaxSampleCount() const noexcept override { return max; }
    impl::BindingType GetBindingType() const noexcept override { return impl::BindingType::kFake; }
    void NotifyServiceInstanceChangedAvailability(bool, pid_t) noexcept override {}
    score::Result<std::size_t> GetNewSamples(Callback&& receiver, impl::TrackerGuardFactory& f) noexcept override {
        if (Rnd(12) == 0) return score::MakeUnexpected(Rnd(2) == 0 ? impl::ComErrc::kNotSubscribed : impl::ComErrc::kBindingFailure);
        std::size_t n = 0;
        const int here = static_cast<int>(Rnd(5));             // new samples there are
        for (int k = 0; k < here; ++k) {
            Yield();
            auto g = f.TakeGuard();
            if (!g.has_value()) { Emit("{\"e\":\"Short\",\"t\":%d}", vsched::CurrentFiber() + 1); break; }
            const std::uint32_t id = ++next;
            Emit("{\"e\":\"Taken\",\"b\":%u}", id);
            impl::mock_binding::SamplePtr<Payload> p{new Payload{id}, [](Payload* q) { Yield(); Emit("{\"e\":\"Back\",\"b\":%u}", q->id); Yield(); delete q; }};
            auto s = this->MakeSamplePtr(std::move(p), std::move(g.value()));
            Emit("{\"e\":\"Given\",\"t\":%d,\"b\":%u}", vsched::CurrentFiber() + 1, id);
            receiver(std::move(s), 0U);
            ++n;
            if (Rnd(10) == 0) return score::MakeUnexpected(impl::ComErrc::kBindingFailure);
        }
        return n;
    }
};
using SP = impl::SamplePtr<Payload>;
}  // namespace
void RunHeld(std::uint64_t seed) {
    vsched::SeedRand(seed ^ 0xE1D);
    Emit("{\"e\":\"Begin\"}");
    auto b = std::make_unique<Binding>();
    Binding* bp = b.get();
    auto ev = std::make_unique<impl::ProxyEvent<Payload>>("e", std::move(b));
    const int rounds = RndI(1, 2);
    bool alive = true;
    for (int rd = 0; rd < rounds && alive; ++rd) {
        const int max = RndI(1, 5);
        vsched::Outcome out;
        std::deque<SP> shelf;                 // samples lying around for anybody to pick up
        bp->refuse = Rnd(6) == 0;
        if (bp->refuse) { Emit("{\"e\":\"Sub\",\"n\":%d,\"refused\":true,\"ok\":%s}", max, ev->Subscribe(static_cast<std::size_t>(max)).has_value() ? "true" : "false"); bp->refuse = false; }
        Emit("{\"e\":\"Sub\",\"n\":%d,\"refused\":false,\"ok\":%s}", max, ev->Subscribe(static_cast<std::size_t>(max)).has_value() ? "true" : "false");
        if (Rnd(4) == 0) { const int m2 = RndI(1, 5); Emit("{\"e\":\"Sub\",\"n\":%d,\"refused\":false,\"ok\":%s}", m2, ev->Subscribe(static_cast<std::size_t>(m2)).has_value() ? "true" : "false"); }
        const int n = RndI(1, 4);
        {
            vsched::Scheduler s;
            for (int t = 1; t <= n; ++t) s.Spawn([&, t] {
                std::vector<SP> mine;
                auto drop = [&](SP p) { const unsigned id = p->id; Emit("{\"e\":\"Rel\",\"b\":%u}", id); { SP q{std::move(p)}; (void)q; } Emit("{\"e\":\"Gone\",\"b\":%u}", id); };
                auto get = [&] {
                    const int k = RndI(0, max + 1);
                    const bool nested = Rnd(3) == 0;
                    Emit("{\"e\":\"Get\",\"t\":%d,\"k\":%d}", t, k);
                    const auto r = ev->GetNewSamples([&](SP p) noexcept {
                        if (nested && Rnd(2) == 0) drop(std::move(p)); else if (Rnd(4) == 0) shelf.push_back(std::move(p)); else mine.push_back(std::move(p));
                    }, static_cast<std::size_t>(k));
                    if (r.has_value()) Emit("{\"e\":\"Got\",\"t\":%d,\"n\":%zu,\"full\":false,\"err\":false}", t, r.value());
                    else Emit("{\"e\":\"Got\",\"t\":%d,\"n\":0,\"full\":%s,\"err\":true}", t, r.error() == impl::ComErrc::kMaxSamplesReached ? "true" : "false");
                };
                auto query = [&] {
                    Emit("{\"e\":\"Ask\",\"t\":%d}", t);
                    const std::size_t v = ev->GetFreeSampleCount();
                    Emit("{\"e\":\"Free\",\"t\":%d,\"n\":%zu}", t, v);
                };
                for (int i = RndI(2, 10); i > 0; --i) {
                    switch (Rnd(8)) {
                        case 0: case 1: case 2: get(); break;
                        case 3: case 4:
                            if (!mine.empty()) { const std::size_t k = Rnd(mine.size()); SP p{std::move(mine[k])}; mine.erase(mine.begin() + static_cast<long>(k)); drop(std::move(p)); }
                            break;
                        case 5:
                            if (!shelf.empty()) { SP p{std::move(shelf.front())}; shelf.pop_front(); drop(std::move(p)); }
                            break;
                        case 6:
                            if (mine.size() >= 2) {     // one sample replaces another
                                const std::size_t k = Rnd(mine.size() - 1);
                                const unsigned id = mine[k]->id;
                                if (Rnd(3) == 0) { mine[k].Swap(mine.back()); break; }
                                Emit("{\"e\":\"Rel\",\"b\":%u}", id);
                                if (Rnd(2) == 0) mine[k] = std::move(mine.back()); else mine[k].Reset(std::move(mine.back()));
                                mine.pop_back();
                                Emit("{\"e\":\"Gone\",\"b\":%u}", id);
                            } else if (mine.size() == 1 && Rnd(2) == 0) {
                                const unsigned id = mine[0]->id;
                                Emit("{\"e\":\"Rel\",\"b\":%u}", id);
                                if (Rnd(2) == 0) mine[0] = nullptr; else mine[0].Reset();
                                mine.clear();
                                Emit("{\"e\":\"Gone\",\"b\":%u}", id);
                            }
                            break;
                        default: query(); break;
                    }
                    Yield();
                }
                for (auto& p : mine) { if (Rnd(3) == 0) shelf.push_back(std::move(p)); else drop(std::move(p)); }
                mine.clear();
            });
            out = s.Run(SchedCfg(seed + static_cast<std::uint64_t>(rd), 150));
            if (!out.completed) { Emit("{\"e\":\"Hang\"}"); std::abort(); }
        }
        Emit("{\"e\":\"Ask\",\"t\":0}");
        Emit("{\"e\":\"Free\",\"t\":0,\"n\":%zu}", ev->GetFreeSampleCount());
        const bool keep = !shelf.empty() && Rnd(8) == 0;
        while (shelf.size() > (keep ? 1U : 0U)) { const unsigned id = shelf.front()->id; Emit("{\"e\":\"Rel\",\"b\":%u}", id); shelf.pop_front(); Emit("{\"e\":\"Gone\",\"b\":%u}", id); }
        Emit("{\"e\":\"Ask\",\"t\":0}");
        Emit("{\"e\":\"Free\",\"t\":0,\"n\":%zu}", ev->GetFreeSampleCount());
        alive = Survives([&] { if (keep && Rnd(2) == 0) ev.reset(); else ev->Unsubscribe(); });
        Emit("{\"e\":\"Unsub\",\"lives\":%s}", alive ? "true" : "false");
        if (!alive) { for (auto& p : shelf) (void)new SP{std::move(p)}; }
    }
    if (alive) ev.reset(); else (void)ev.release();
    Emit("{\"e\":\"End\"}");
}
