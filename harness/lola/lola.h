// Real lola Skeleton/Proxy objects of several simulated processes over one shared memory directory
#ifndef VERIF_LOLA_H
#define VERIF_LOLA_H
#include "score/os/vshim_os.h"
#include "trace.h"
#include "fake_runtime.h"
#include "score/mw/com/impl/bindings/lola/partial_restart_path_builder.h"
#include "score/mw/com/impl/bindings/lola/proxy.h"
#include "score/mw/com/impl/bindings/lola/proxy_event.h"
#include "score/mw/com/impl/bindings/lola/shm_path_builder.h"
#include "score/mw/com/impl/bindings/lola/skeleton.h"
#include "score/mw/com/impl/bindings/lola/skeleton_event.h"
#include "score/mw/com/impl/configuration/lola_event_instance_deployment.h"
#include "score/mw/com/impl/configuration/lola_service_instance_deployment.h"
#include "score/mw/com/impl/configuration/lola_service_type_deployment.h"
#include "score/mw/com/impl/configuration/service_instance_deployment.h"
#include "score/mw/com/impl/configuration/service_type_deployment.h"
#include "score/mw/com/impl/i_service_discovery.h"
#include "score/mw/com/impl/proxy_event_base.h"
#include "score/filesystem/factory/filesystem_factory.h"
#include <deque>
#include <memory>
#include <optional>
#include <vector>
namespace impl = score::mw::com::impl;
namespace lola = score::mw::com::impl::lola;
using vtrace::Emit;
inline std::uint64_t Rnd(std::uint64_t n) { return n == 0 ? 0 : vsched::Rand() % n; }
inline int RndI(int lo, int hi) { return lo + static_cast<int>(Rnd(static_cast<std::uint64_t>(hi - lo + 1))); }
inline void Yield() { vsched::Point(vsched::Op::kUser, nullptr); }
inline vsched::Config SchedCfg(std::uint64_t seed, int len = 400) {
    vsched::Config sc;
    sc.strategy = Rnd(2) == 0 ? vsched::Strategy::kRandom : vsched::Strategy::kPct;
    sc.switch_permille = 20 + static_cast<int>(Rnd(800));
    sc.pct_depth = 2 + static_cast<int>(Rnd(4));
    sc.pct_length = 20 + static_cast<int>(Rnd(static_cast<std::uint64_t>(len)));
    sc.seed = seed;
    sc.max_steps = 200000;
    return sc;
}
extern int g_proc_base;
extern int g_proc_of_fiber[64];
extern int g_setup_proc;            // on whose behalf the harness itself acts outside fibers
int ProcIndex();                    // process (relative to g_proc_base) which is acting
bool Survives(const std::function<void()>& f);

// Availability reports: what the service discovery tells the proxy of a process
struct Discovery final : impl::IServiceDiscovery {
    using Handler = impl::FindServiceHandler<impl::HandleType>;
    struct Search { int proc; std::size_t uid; std::shared_ptr<Handler> h; bool last{false}; };
    std::vector<Search> searches;
    std::size_t next{0};
    std::optional<impl::HandleType> handle;
    bool initially{true};           // a new search reports the presence of the service at once
    score::Result<void> OfferService(impl::InstanceIdentifier) override { return {}; }
    score::Result<void> StopOfferService(impl::InstanceIdentifier) override { return {}; }
    score::Result<void> StopOfferService(impl::InstanceIdentifier, QualityTypeSelector) override { return {}; }
    score::Result<impl::FindServiceHandle> StartFindService(Handler, const impl::InstanceSpecifier) override { std::abort(); }
    score::Result<impl::FindServiceHandle> StartFindService(Handler, impl::InstanceIdentifier) override { std::abort(); }
    score::Result<impl::FindServiceHandle> StartFindService(Handler h, const impl::EnrichedInstanceIdentifier) override {
        const auto uid = next++;
        auto p = std::make_shared<Handler>(std::move(h));
        searches.push_back({ProcIndex(), uid, p});
        if (initially) { searches.back().last = true; (*p)({*handle}, impl::make_FindServiceHandle(uid)); }
        return impl::make_FindServiceHandle(uid);
    }
    score::Result<void> StopFindService(const impl::FindServiceHandle h) override {
        for (auto i = searches.begin(); i != searches.end(); ++i) if (impl::make_FindServiceHandle(i->uid) == h) { searches.erase(i); break; }
        return {};
    }
    score::Result<impl::ServiceHandleContainer<impl::HandleType>> FindService(impl::InstanceIdentifier) override { std::abort(); }
    score::Result<impl::ServiceHandleContainer<impl::HandleType>> FindService(impl::InstanceSpecifier) override { std::abort(); }
    void Report(int proc, bool up) {
        for (auto& s : searches) if (s.proc == proc) {
            auto p = s.h; const auto uid = s.uid;
            s.last = up;
            if (up) (*p)({*handle}, impl::make_FindServiceHandle(uid)); else (*p)({}, impl::make_FindServiceHandle(uid));
            return;
        }
    }
};
// One configured service instance with events
struct Deployment {
    impl::ServiceTypeDeployment type;
    impl::ServiceInstanceDeployment inst;
    std::optional<impl::InstanceIdentifier> id;
    std::optional<impl::HandleType> handle;
    std::uint16_t service;
    Deployment(std::uint16_t service_id, std::uint16_t instance, const std::vector<std::pair<std::string, std::uint8_t>>& events, std::uint16_t slots, std::uint8_t subscribers, impl::QualityType q);
};
std::unique_ptr<lola::Skeleton> MakeSkeleton(const Deployment& d);
void RunSub(std::uint64_t seed);
void RunOffer(std::uint64_t seed, const char* strict);
#endif
