#ifndef VSHIM_INOTIFY_EVENT_H
#define VSHIM_INOTIFY_EVENT_H
#include "score/os/inotify.h"
#include "score/os/utils/inotify/inotify_watch_descriptor.h"
#include <string>
#include <string_view>
namespace score { namespace os {
class InotifyEvent
{
  public:
    enum class ReadMask : std::uint32_t { kUnknown = 0, kInAccess = IN_ACCESS, kInMovedTo = IN_MOVED_TO, kInCreate = IN_CREATE, kInDelete = IN_DELETE, kInIgnored = IN_IGNORED, kInIsDir = IN_ISDIR, kInQOverflow = IN_Q_OVERFLOW };
    InotifyEvent(InotifyWatchDescriptor w, ReadMask m, std::uint32_t c, std::string n) : w_(w), m_(m), c_(c), n_(std::move(n)) {}
    InotifyWatchDescriptor GetWatchDescriptor() const noexcept { return w_; } ReadMask GetMask() const noexcept { return m_; } std::uint32_t GetCookie() const noexcept { return c_; } std::string_view GetName() const noexcept { return n_; }
    friend bool operator==(const InotifyEvent& a, const InotifyEvent& b) noexcept { return a.w_ == b.w_ && a.m_ == b.m_ && a.c_ == b.c_ && a.n_ == b.n_; }
  private:
    InotifyWatchDescriptor w_; ReadMask m_; std::uint32_t c_; std::string n_;
};
VSHIM_BITENUM(InotifyEvent::ReadMask)
}}
#endif
