#ifndef VSHIM_OS_FCNTL_H
#define VSHIM_OS_FCNTL_H
#include "score/os/stat.h"
#include "score/memory_resource.hpp"
#include <fcntl.h>
#include <sys/file.h>
namespace score { namespace os {
class Fcntl : public ObjectSeam<Fcntl>
{
  public:
    enum class Open : std::uint32_t { kReadOnly = 1, kWriteOnly = 2, kReadWrite = 4, kCreate = 8, kExclusive = 16, kTruncate = 32, kNonBlocking = 64, kCloseOnExec = 128, kAppend = 256, kDirectory = 512, kSynchronized = 1024 };
    enum class Operation : std::uint32_t { kLockShared = 1, kLockExclusive = 2, kUnLock = 4, kLockNB = 8 };
    enum class Command : std::uint32_t { kFileGetStatusFlags = 1, kFileSetStatusFlags = 2 };
    static Fcntl& vshim_real() { static Fcntl s; return s; }
    static std::unique_ptr<Fcntl> Default() { return std::make_unique<Fcntl>(); }
    virtual ~Fcntl() = default;
    static int native(Open o) { auto h = [o](Open x) { return (static_cast<std::uint32_t>(o) & static_cast<std::uint32_t>(x)) != 0U; }; int f = h(Open::kReadWrite) ? O_RDWR : (h(Open::kWriteOnly) ? O_WRONLY : O_RDONLY); if (h(Open::kCreate)) { f |= O_CREAT; } if (h(Open::kExclusive)) { f |= O_EXCL; } if (h(Open::kTruncate)) { f |= O_TRUNC; } if (h(Open::kNonBlocking)) { f |= O_NONBLOCK; } if (h(Open::kAppend)) { f |= O_APPEND; } return f | O_CLOEXEC; }
    virtual score::cpp::expected<std::int32_t, Error> open(const char* p, const Open f) const noexcept { return open(p, f, Stat::Mode::kNone); }
    virtual score::cpp::expected<std::int32_t, Error> open(const char* p, const Open f, const Stat::Mode m) const noexcept { const std::string q = ::vshim::map_path(p); if (int e = ::vshim::pre("open", q)) { return vshim_detail::fail<std::int32_t>(e); } const int fd = ::vshim::open_counted(q.c_str(), native(f), static_cast<mode_t>(m)); if (fd < 0) { return vshim_detail::fail<std::int32_t>(errno); } ::vshim::fd_opened(fd); return fd; }
    virtual score::cpp::expected_blank<Error> flock(const std::int32_t fd, const Operation o) const noexcept { if (int e = ::vshim::pre("flock", std::to_string(static_cast<int>(o)))) { return vshim_detail::failb(e); } const auto b = static_cast<std::uint32_t>(o); int n = 0; if (b & 1U) { n |= LOCK_SH; } if (b & 2U) { n |= LOCK_EX; } if (b & 4U) { n |= LOCK_UN; } if (b & 8U) { n |= LOCK_NB; } if (::vshim::do_flock(fd, n) != 0) { return vshim_detail::failb(errno); } return score::cpp::blank{}; }
    virtual score::cpp::expected_blank<Error> posix_fallocate(const std::int32_t fd, const off_t o, const off_t l) const noexcept { const int r = ::posix_fallocate(fd, o, l); if (r != 0) { return vshim_detail::failb(r); } return score::cpp::blank{}; }
};
VSHIM_BITENUM(Fcntl::Open) VSHIM_BITENUM(Fcntl::Operation)
}}
#endif
