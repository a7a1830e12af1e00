#ifndef VSHIM_OS_SYS_POLL_H
#define VSHIM_OS_SYS_POLL_H
#include "score/memory.hpp"
#include "score/os/vshim_os.h"
#include "score/os/simnet.h"
#include <poll.h>
namespace score { namespace os {
class SysPoll
{
  public:
    static score::cpp::pmr::unique_ptr<SysPoll> Default(score::cpp::pmr::memory_resource* r) noexcept { return score::cpp::pmr::make_unique<SysPoll>(r); }
    virtual ~SysPoll() = default;
    virtual score::cpp::expected<std::int32_t, Error> poll(struct pollfd* f, const nfds_t n, const std::int32_t t) const noexcept { if (::vshim::net::on()) { (void)::vshim::pre("poll", ""); } const int r = ::vshim::net::on() ? ::vshim::net::poll(f, n, t) : ::poll(f, n, t); if (r < 0) { return vshim_detail::fail<std::int32_t>(errno); } return r; }
};
}}
#endif
