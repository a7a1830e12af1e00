#ifndef VSHIM_INOTIFY_INSTANCE_IMPL_H
#define VSHIM_INOTIFY_INSTANCE_IMPL_H
#include "score/os/unistd.h"
#include "score/os/utils/inotify/inotify_instance.h"
#include <atomic>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <vector>
namespace score { namespace os {
class InotifyInstanceImpl final : public InotifyInstance
{
  public:
    InotifyInstanceImpl() : fd_(::inotify_init1(IN_NONBLOCK | IN_CLOEXEC)) { if (::pipe2(p_, O_CLOEXEC) != 0) { p_[0] = p_[1] = -1; } }
    ~InotifyInstanceImpl() override { ::close(fd_); ::close(p_[0]); ::close(p_[1]); }
    score::cpp::expected_blank<Error> IsValid() const noexcept override { return fd_ >= 0 ? score::cpp::expected_blank<Error>{score::cpp::blank{}} : vshim_detail::failb(EBADF); }
    void Close() noexcept override { closed_ = true; char c = 0; (void)!::write(p_[1], &c, 1); }
    score::cpp::expected<InotifyWatchDescriptor, Error> AddWatch(std::string_view p, Inotify::EventMask m) noexcept override { const int r = ::inotify_add_watch(fd_, ::vshim::map_path(p).c_str(), static_cast<std::uint32_t>(m)); if (r < 0) { return vshim_detail::fail<InotifyWatchDescriptor>(errno); } return InotifyWatchDescriptor{r}; }
    score::cpp::expected_blank<Error> RemoveWatch(InotifyWatchDescriptor w) noexcept override { if (::inotify_rm_watch(fd_, w.GetUnderlying()) != 0) { return vshim_detail::failb(errno); } return score::cpp::blank{}; }
    score::cpp::expected<score::cpp::static_vector<InotifyEvent, max_events>, Error> Read() noexcept override
    {
        score::cpp::static_vector<InotifyEvent, max_events> out{};
        if (pend_.empty())
        {
            struct pollfd f[2] = {{fd_, POLLIN, 0}, {p_[0], POLLIN, 0}};
            if (closed_) { return vshim_detail::fail<score::cpp::static_vector<InotifyEvent, max_events>>(EBADF); }
            if (::poll(f, 2, -1) < 0) { return vshim_detail::fail<score::cpp::static_vector<InotifyEvent, max_events>>(errno); }
            if (closed_) { return vshim_detail::fail<score::cpp::static_vector<InotifyEvent, max_events>>(EBADF); }
            alignas(struct inotify_event) char b[16384]; const ssize_t n = ::read(fd_, b, sizeof(b));
            for (ssize_t o = 0; o < n;) { auto* e = reinterpret_cast<struct inotify_event*>(b + o); pend_.emplace_back(InotifyWatchDescriptor{e->wd}, static_cast<InotifyEvent::ReadMask>(e->mask), e->cookie, e->len > 0U ? std::string(e->name) : std::string()); o += static_cast<ssize_t>(sizeof(struct inotify_event) + e->len); }
        }
        while (!pend_.empty() && out.size() < max_events) { out.push_back(pend_.front()); pend_.erase(pend_.begin()); }
        return out;
    }
  private:
    int fd_; int p_[2]{}; std::atomic<bool> closed_{false}; std::vector<InotifyEvent> pend_{};
};
}}
#endif
