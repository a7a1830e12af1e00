#ifndef VSHIM_OS_ACL_H
#define VSHIM_OS_ACL_H
#include "score/os/errno.h"
#include <cstdint>
#include <functional>
namespace score { namespace os { class Acl { public: using FileDescriptor = std::int32_t; enum class Permission : std::uint32_t { kRead = 4, kWrite = 2, kExecute = 1 }; virtual ~Acl() = default; }; }}
#endif
