#ifndef VSHIM_INOTIFY_INSTANCE_H
#define VSHIM_INOTIFY_INSTANCE_H
#include "score/blank.hpp"
#include "score/os/utils/inotify/inotify_event.h"
#include "score/static_vector.hpp"
#include <string_view>
namespace score { namespace os {
class InotifyInstance
{
  public:
    static constexpr std::size_t max_events = 10U;
    virtual ~InotifyInstance() = default;
    virtual score::cpp::expected_blank<Error> IsValid() const noexcept = 0;
    virtual void Close() noexcept = 0;
    virtual score::cpp::expected<InotifyWatchDescriptor, Error> AddWatch(std::string_view, Inotify::EventMask) noexcept = 0;
    virtual score::cpp::expected_blank<Error> RemoveWatch(InotifyWatchDescriptor) noexcept = 0;
    virtual score::cpp::expected<score::cpp::static_vector<InotifyEvent, max_events>, Error> Read() noexcept = 0;
};
}}
#endif
