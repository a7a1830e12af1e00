#ifndef VSHIM_OS_SIGNAL_H
#define VSHIM_OS_SIGNAL_H
#include "score/os/vshim_os.h"
#include <signal.h>
#include <pthread.h>
namespace score { namespace os {
class Signal
{
  public:
    virtual ~Signal() = default;
    virtual score::cpp::expected<std::int32_t, Error> SigEmptySet(sigset_t& s) const noexcept { return ::sigemptyset(&s); }
    virtual score::cpp::expected<std::int32_t, Error> AddTerminationSignal(sigset_t& s) const noexcept { return ::sigaddset(&s, SIGTERM); }
    virtual score::cpp::expected<std::int32_t, Error> PthreadSigMask(const std::int32_t h, const sigset_t& s, sigset_t& o) const noexcept { return ::pthread_sigmask(h, &s, &o); }
    virtual score::cpp::expected<std::int32_t, Error> PthreadSigMask(const std::int32_t h, const sigset_t& s) const noexcept { return ::pthread_sigmask(h, &s, nullptr); }
};
class SignalImpl : public Signal {};
}}
#endif
