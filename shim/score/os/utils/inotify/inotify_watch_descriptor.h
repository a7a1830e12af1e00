#ifndef VSHIM_INOTIFY_WD_H
#define VSHIM_INOTIFY_WD_H
#include <cstdint>
#include <functional>
namespace score { namespace os {
class InotifyWatchDescriptor
{
  public:
    explicit InotifyWatchDescriptor(std::int32_t w) : w_(w) {}
    std::int32_t GetUnderlying() const noexcept { return w_; }
    friend bool operator==(const InotifyWatchDescriptor& a, const InotifyWatchDescriptor& b) noexcept { return a.w_ == b.w_; } friend bool operator!=(const InotifyWatchDescriptor& a, const InotifyWatchDescriptor& b) noexcept { return a.w_ != b.w_; }
  private:
    std::int32_t w_;
};
}}
namespace std { template <> struct hash<score::os::InotifyWatchDescriptor> { size_t operator()(const score::os::InotifyWatchDescriptor& w) const noexcept { return static_cast<size_t>(w.GetUnderlying()); } }; }
#endif
