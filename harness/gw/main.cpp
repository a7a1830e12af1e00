// The gateway's sample transport: framing of messages on a byte stream, requests and their acknowledgements.
#include "gw.h"
#include "score/assert.hpp"
#include "score/mw/com/impl/instance_specifier.h"
#include <cstdlib>
extern "C" int shutdown(int fd, int) noexcept { return vshim::net::mine(fd) || vshim::net::on() ? vshim::net::shutdown(fd) : -1; }
namespace impl = score::mw::com::impl;
namespace {
std::string Name(int m, std::size_t len) {
    std::string s = "i" + std::to_string(m) + "_";
    while (s.size() < len) s.push_back(static_cast<char>('a' + Rnd(26)));
    return s;
}
impl::InstanceSpecifier Spec(const std::string& s) { return impl::InstanceSpecifier::Create(std::string{s}).value(); }
}
Content MakeContent(int m, What w, bool odd) {
    using T = gw::MessageType;
    Content c; c.m = m;
    static constexpr T req[] = {T::kProvideServiceRequest, T::kOfferServiceRequest, T::kStopOfferServiceRequest, T::kRegisterNotificationRequest, T::kUnregisterNotificationRequest};
    const auto k = w == kRequest ? Rnd(5) : w == kNotification ? 5 : Rnd(7);
    c.type = k < 5 ? req[k] : k == 5 ? T::kUpdateNotification : T::kAckResponse;
    c.spec = Name(m, Rnd(4) == 0 ? 4 + Rnd(200) : 4 + Rnd(12));
    c.element = "e" + Name(m, Rnd(20));
    c.kind = static_cast<impl::ServiceElementType>(Rnd(4));
    c.a = static_cast<std::uint32_t>(Rnd(1ULL << 32)); c.b = static_cast<std::uint32_t>(Rnd(300));
    if (c.type == T::kAckResponse) { c.a = static_cast<std::uint32_t>(m) + (Rnd(2) == 0 ? 0 : 70000); c.spec.clear(); }
    for (int i = static_cast<int>(Rnd(5)); i > 0; --i) { c.names.push_back(Name(m, 4 + Rnd(20))); c.metas.push_back({Rnd(5000), 1ULL << Rnd(7)}); }
    const bool el = c.type == T::kRegisterNotificationRequest || c.type == T::kUnregisterNotificationRequest || c.type == T::kUpdateNotification;
    if (odd && c.type != T::kAckResponse) {
        switch (Rnd(el ? 3 : 1)) {
            case 0: c.spec = Name(m, 1030 + Rnd(1000)); break;                  // does not fit a frame
            case 1: c.element = "x" + std::string(1, '\0') + "y"; break;        // cannot be written as it is
            default: c.spec = Name(m, 400); c.element = "e" + Name(m, 700); break;
        }
        c.fits = false;
    }
    return c;
}
std::unique_ptr<gw::TransportMessage> Content::Build() const {
    using T = gw::MessageType;
    switch (type) {
        case T::kProvideServiceRequest: { std::vector<score::mw::com::EventInfo> v; for (std::size_t i = 0; i < names.size(); ++i) v.push_back({names[i], metas[i]}); return std::make_unique<gw::ProvideServiceRequest>(Spec(spec), std::move(v), a, b); }
        case T::kOfferServiceRequest: return std::make_unique<gw::OfferServiceRequest>(Spec(spec));
        case T::kStopOfferServiceRequest: return std::make_unique<gw::StopOfferServiceRequest>(Spec(spec));
        case T::kRegisterNotificationRequest: return std::make_unique<gw::RegisterNotificationRequest>(Spec(spec), kind, element);
        case T::kUnregisterNotificationRequest: return std::make_unique<gw::UnregisterNotificationRequest>(Spec(spec), kind, element);
        case T::kUpdateNotification: return std::make_unique<gw::UpdateNotification>(Spec(spec), kind, element);
        default: return std::make_unique<gw::AckResponse>(a);
    }
}
bool Content::Same(const gw::TransportMessage& t) const {
    using T = gw::MessageType;
    if (t.GetType() != type) return false;
    switch (type) {
        case T::kProvideServiceRequest: {
            const auto* p = dynamic_cast<const gw::ProvideServiceRequest*>(&t);
            if (p == nullptr || p->GetInstanceSpecifier() != spec || p->GetShmControlSize() != a || p->GetShmDataSize() != b || p->GetServiceElements().size() != names.size()) return false;
            for (std::size_t i = 0; i < names.size(); ++i) { const auto& e = p->GetServiceElements()[i]; if (e.name != names[i] || e.data_type_meta_info.size != metas[i].size || e.data_type_meta_info.alignment != metas[i].alignment) return false; }
            return true;
        }
        case T::kOfferServiceRequest: { const auto* p = dynamic_cast<const gw::OfferServiceRequest*>(&t); return p != nullptr && p->GetInstanceSpecifier() == spec; }
        case T::kStopOfferServiceRequest: { const auto* p = dynamic_cast<const gw::StopOfferServiceRequest*>(&t); return p != nullptr && p->GetInstanceSpecifier() == spec; }
        case T::kAckResponse: { const auto* p = dynamic_cast<const gw::AckResponse*>(&t); return p != nullptr && p->GetAckedSequence() == a; }
        default: { const auto* p = dynamic_cast<const gw::ServiceElementMessage*>(&t); return p != nullptr && p->GetInstanceSpecifier() == spec && p->GetElementType() == kind && p->GetElementName() == element; }
    }
}
int IdOfMessage(const gw::TransportMessage& t) {
    std::string s;
    if (const auto* p = dynamic_cast<const gw::ProvideServiceRequest*>(&t)) s = p->GetInstanceSpecifier();
    if (const auto* p = dynamic_cast<const gw::OfferServiceRequest*>(&t)) s = p->GetInstanceSpecifier();
    if (const auto* p = dynamic_cast<const gw::StopOfferServiceRequest*>(&t)) s = p->GetInstanceSpecifier();
    if (const auto* p = dynamic_cast<const gw::ServiceElementMessage*>(&t)) s = p->GetInstanceSpecifier();
    return s.size() > 1 && s[0] == 'i' ? std::atoi(s.c_str() + 1) : 0;
}
void Explore(vsched::Scheduler& s, std::uint64_t seed, std::size_t steps) {
    vsched::Config sc;
    sc.strategy = Rnd(2) == 0 ? vsched::Strategy::kRandom : vsched::Strategy::kPct;
    sc.switch_permille = 50 + static_cast<int>(Rnd(900));
    sc.pct_depth = 2 + static_cast<int>(Rnd(5));
    sc.pct_length = 50 + static_cast<int>(Rnd(1500));
    sc.seed = seed;
    sc.max_steps = steps;
    const auto out = s.Run(sc);
    if (!out.completed) { Emit("{\"e\":\"Hang\"}"); std::abort(); }
}
int main(int argc, char** argv) {
    std::set_terminate([] { std::abort(); });
    score::cpp::set_assertion_handler([](const score::cpp::handler_parameters&) { std::abort(); });
    const auto o = vtrace::Parse(argc, argv);
    const bool fr = o.mode == "framer" || o.mode == "default";
    return vtrace::Drive(o, [&o, fr](std::uint64_t i) { const auto seed = o.seed * 1000003ULL + i; vsched::SeedRand(seed ^ 0x3355); if (fr) RunFramer(seed); else RunTransport(seed); });
}
