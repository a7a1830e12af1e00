// Stand-in for the process-wide runtime: every simulated process has its own binding runtime; which one a call reaches is
// decided by the running fiber.
#ifndef VERIF_FAKE_RUNTIME_H
#define VERIF_FAKE_RUNTIME_H
#include "score/mw/com/impl/bindings/lola/i_runtime.h"
#include "score/mw/com/impl/bindings/lola/messaging/i_message_passing_service.h"
#include "score/mw/com/impl/bindings/lola/messaging/method_call_registration_guard.h"
#include "score/mw/com/impl/bindings/lola/messaging/method_subscription_registration_guard.h"
#include "score/mw/com/impl/bindings/lola/messaging/method_unsubscription_registration_guard.h"
#include "score/mw/com/impl/i_runtime.h"
#include "score/mw/com/impl/runtime.h"

namespace vfake {
namespace impl = score::mw::com::impl;
namespace lola = score::mw::com::impl::lola;

class Messaging : public lola::IMessagePassingService {
  public:
    void NotifyEvent(const impl::QualityType, const lola::ElementFqId) noexcept override {}
    HandlerRegistrationNoType RegisterEventNotification(const impl::QualityType, const lola::ElementFqId, std::weak_ptr<impl::ScopedEventReceiveHandler>, const pid_t) noexcept override { return 0; }
    void ReregisterEventNotification(const impl::QualityType, const lola::ElementFqId, const pid_t) noexcept override {}
    void UnregisterEventNotification(const impl::QualityType, const lola::ElementFqId, const HandlerRegistrationNoType, const pid_t) noexcept override {}
    score::Result<lola::MethodSubscriptionRegistrationGuard> RegisterOnServiceMethodSubscribedHandler(const impl::QualityType, const lola::SkeletonInstanceIdentifier, ServiceMethodSubscribedHandler, AllowedConsumerUids) override { std::abort(); }
    score::Result<lola::MethodUnsubscriptionRegistrationGuard> RegisterOnServiceMethodUnsubscribedHandler(const impl::QualityType, const lola::SkeletonInstanceIdentifier, ServiceMethodUnsubscribedHandler) override { std::abort(); }
    score::Result<lola::MethodCallRegistrationGuard> RegisterMethodCallHandler(const impl::QualityType, const lola::ProxyMethodInstanceIdentifier, MethodCallHandler, const uid_t) override { std::abort(); }
    void NotifyOutdatedNodeId(const impl::QualityType, const pid_t, const pid_t) noexcept override {}
    void RegisterEventNotificationExistenceChangedCallback(const impl::QualityType, const lola::ElementFqId, HandlerStatusChangeCallback) noexcept override {}
    void UnregisterEventNotificationExistenceChangedCallback(const impl::QualityType, const lola::ElementFqId) noexcept override {}
    score::Result<void> SubscribeServiceMethod(const impl::QualityType, const lola::SkeletonInstanceIdentifier&, const lola::ProxyInstanceIdentifier&, const pid_t) override { return {}; }
    score::Result<void> UnsubscribeServiceMethod(const impl::QualityType, const lola::SkeletonInstanceIdentifier&, const lola::ProxyInstanceIdentifier&, const pid_t) override { return {}; }
    score::Result<void> CallMethod(const impl::QualityType, const lola::ProxyMethodInstanceIdentifier&, const std::size_t, const pid_t) override { return {}; }

  private:
    void UnregisterOnServiceMethodSubscribedHandler(const impl::QualityType, lola::SkeletonInstanceIdentifier) override {}
    void UnregisterMethodCallHandler(const impl::QualityType, lola::ProxyMethodInstanceIdentifier) override {}
    void UnregisterOnServiceMethodUnsubscribedHandler(const impl::QualityType, lola::SkeletonInstanceIdentifier) override {}
};

// One simulated process
class Process : public lola::IRuntime {
  public:
    Process(lola::IMessagePassingService& m, pid_t pid, std::uint32_t app) : messaging{m}, pid_{pid}, app_{app} {}
    impl::BindingType GetBindingType() const noexcept override { return impl::BindingType::kLoLa; }
    impl::IServiceDiscoveryClient& GetServiceDiscoveryClient() & noexcept override { if (client == nullptr) std::abort(); return *client; }
    impl::tracing::IBindingTracingRuntime* GetTracingRuntime() noexcept override { return tracing; }
    lola::IMessagePassingService& GetLolaMessaging() & noexcept override { return messaging; }
    bool HasAsilBSupport() const noexcept override { return true; }
    impl::ShmSizeCalculationMode GetShmSizeCalculationMode() const noexcept override { return size_mode; }
    lola::RollbackSynchronization& GetRollbackSynchronization() & noexcept override { return sync; }
    pid_t GetPid() const noexcept override { return pid_; }
    impl::GlobalConfiguration::ApplicationId GetApplicationId() const noexcept override { return app_; }

    lola::IMessagePassingService& messaging;
    impl::IServiceDiscoveryClient* client{nullptr};
    impl::tracing::IBindingTracingRuntime* tracing{nullptr};
    impl::ShmSizeCalculationMode size_mode{impl::ShmSizeCalculationMode::kSimulation};
    lola::RollbackSynchronization sync;

  private:
    pid_t pid_;
    std::uint32_t app_;
};

class Runtime : public impl::IRuntime {
  public:
    Runtime() { impl::Runtime::InjectMock(this); }
    ~Runtime() override { impl::Runtime::InjectMock(nullptr); }
    std::vector<impl::InstanceIdentifier> resolve(const impl::InstanceSpecifier&) const override { return {}; }
    impl::IBindingRuntime* GetBindingRuntime(const impl::BindingType) const noexcept override { return current ? current() : nullptr; }
    impl::IServiceDiscovery& GetServiceDiscovery() & noexcept override { if (discovery == nullptr) std::abort(); return *discovery; }
    impl::tracing::ITracingRuntime* GetTracingRuntime() const noexcept override { return tracing; }
    const impl::tracing::ITracingFilterConfig* GetTracingFilterConfig() const override { return nullptr; }

    std::function<Process*()> current;
    impl::IServiceDiscovery* discovery{nullptr};
    impl::tracing::ITracingRuntime* tracing{nullptr};
};
}  // namespace vfake
#endif
