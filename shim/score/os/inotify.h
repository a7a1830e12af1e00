#ifndef VSHIM_INOTIFY_H
#define VSHIM_INOTIFY_H
#include "score/os/vshim_os.h"
#include <sys/inotify.h>
namespace score { namespace os { class Inotify { public: enum class EventMask : std::uint32_t { kUnknown = 0, kInAccess = IN_ACCESS, kInCreate = IN_CREATE, kInDelete = IN_DELETE, kInMovedTo = IN_MOVED_TO }; }; VSHIM_BITENUM(Inotify::EventMask) }}
#endif
