#include "lola.h"
#include "score/assert.hpp"
#include <csetjmp>
#include <csignal>
#include <cstdlib>
#include <exception>
int g_proc_base{0};
int g_proc_of_fiber[64]{};
int g_setup_proc{0};
namespace {
struct Jump { sigjmp_buf buf; bool armed{false}; };
Jump g_jumps[64];
Jump& Mine() { return g_jumps[(vsched::CurrentFiber() + 1) % 64]; }
void OnSig(int s) { Jump& j = Mine(); if (j.armed) { j.armed = false; siglongjmp(j.buf, 1); } ::signal(s, SIG_DFL); ::raise(s); }
}
int ProcIndex() { const int f = vsched::CurrentFiber(); return f < 0 ? g_setup_proc : g_proc_of_fiber[f % 64]; }
bool Survives(const std::function<void()>& f) {
    static const bool once = [] {
        struct sigaction sa{};
        sa.sa_handler = OnSig;
        for (int s : {SIGABRT, SIGSEGV, SIGBUS}) ::sigaction(s, &sa, nullptr);
        return true;
    }();
    (void)once;
    std::set_terminate([] { std::abort(); });
    score::cpp::set_assertion_handler([](const score::cpp::handler_parameters&) {});
    Jump& j = Mine();
    bool ok = false;
    if (sigsetjmp(j.buf, 1) == 0) { j.armed = true; f(); ok = true; }
    j.armed = false;
    return ok;
}
namespace {
impl::LolaServiceTypeDeployment TypeDep(std::uint16_t service, const std::vector<std::pair<std::string, std::uint8_t>>& events) {
    impl::LolaServiceTypeDeployment t{service};
    for (auto& e : events) t.events_.emplace(e.first, e.second);
    return t;
}
impl::LolaServiceInstanceDeployment InstDep(std::uint16_t instance, const std::vector<std::pair<std::string, std::uint8_t>>& events, std::uint16_t slots, std::uint8_t subscribers) {
    impl::LolaServiceInstanceDeployment i{impl::LolaServiceInstanceId{instance}};
    for (auto& e : events) i.events_.emplace(e.first, impl::LolaEventInstanceDeployment{slots, subscribers, static_cast<std::uint8_t>(1), true, 0});
    return i;
}
}
Deployment::Deployment(std::uint16_t service_id, std::uint16_t instance, const std::vector<std::pair<std::string, std::uint8_t>>& events, std::uint16_t slots, std::uint8_t subscribers, impl::QualityType q)
    : type{TypeDep(service_id, events)},
      inst{impl::make_ServiceIdentifierType("svc"), InstDep(instance, events, slots, subscribers), q, impl::InstanceSpecifier::Create(std::string{"/svc/inst"}).value()},
      service{service_id} {
    id.emplace(impl::make_InstanceIdentifier(inst, type));
    handle.emplace(impl::make_HandleType(*id));
}
std::unique_ptr<lola::Skeleton> MakeSkeleton(const Deployment& d) {
    return lola::Skeleton::Create(*d.id, score::filesystem::FilesystemFactory{}.CreateInstance(), std::make_unique<lola::ShmPathBuilder>(d.service), std::make_unique<lola::PartialRestartPathBuilder>(d.service));
}
int main(int argc, char** argv) {
    const auto o = vtrace::Parse(argc, argv);
    vshim::proc_hook() = [] { return g_proc_base + ProcIndex(); };
    return vtrace::Drive(o, [&o](std::uint64_t i) {
        const std::uint64_t seed = o.seed * 1000003ULL + i;
        g_proc_base += 64;
        g_setup_proc = 0;
        for (int& p : g_proc_of_fiber) p = 0;
        if (o.mode == "sub") RunSub(seed);
        else if (o.mode == "offer") RunOffer(seed, "");
        else if (o.mode == "offerlock") RunOffer(seed, "lock");
        else if (o.mode == "offertake") RunOffer(seed, "take");
        else if (o.mode == "offerhalf") RunOffer(seed, "half");
    });
}
