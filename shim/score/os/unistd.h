#ifndef VSHIM_OS_UNISTD_H
#define VSHIM_OS_UNISTD_H
#include "score/blank.hpp"
#include "score/memory.hpp"
#include "score/os/ObjectSeam.h"
#include "score/os/vshim_os.h"
#include "score/os/simnet.h"
#include <memory>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/syscall.h>
#include <pwd.h>
#include <unistd.h>
namespace vshim { inline pid_t& fake_pid() { static pid_t p = 0; return p; } inline uid_t& fake_uid() { static uid_t u = static_cast<uid_t>(-1); return u; } }
namespace score { namespace os {
class Unistd : public ObjectSeam<Unistd>
{
  public:
    static Unistd& vshim_real() { static Unistd s; return s; }
    static score::cpp::pmr::unique_ptr<Unistd> Default(score::cpp::pmr::memory_resource* r) noexcept { return score::cpp::pmr::make_unique<Unistd>(r); }
    static std::unique_ptr<Unistd> Default() { return std::make_unique<Unistd>(); }
    virtual ~Unistd() = default;
    virtual score::cpp::expected_blank<Error> close(const std::int32_t fd) const noexcept { if (int e = ::vshim::pre("close", std::to_string(fd))) { return vshim_detail::failb(e); } if ((::vshim::net::on() && (fd < 0 || ::vshim::net::mine(fd)) ? ::vshim::net::close(fd) : ::close(fd)) != 0) { return vshim_detail::failb(errno); } ::vshim::fd_closed(fd); return score::cpp::blank{}; }
    virtual score::cpp::expected_blank<Error> unlink(const char* f) const noexcept { const std::string p = ::vshim::map_path(f); if (int e = ::vshim::pre("unlink", p)) { return vshim_detail::failb(e); } if (::unlink(p.c_str()) != 0) { return vshim_detail::failb(errno); } return score::cpp::blank{}; }
    virtual score::cpp::expected_blank<Error> access(const char* f, int m) const noexcept { if (::access(::vshim::map_path(f).c_str(), m) != 0) { return vshim_detail::failb(errno); } return score::cpp::blank{}; }
    virtual score::cpp::expected<ssize_t, Error> read(const std::int32_t fd, void* b, std::size_t n) const noexcept { if (int e = ::vshim::pre("read", std::to_string(fd))) { return vshim_detail::fail<ssize_t>(e); } const ssize_t r = ::vshim::net::mine(fd) ? ::vshim::net::read(fd, b, n, false) : ::read(fd, b, n); if (r < 0) { return vshim_detail::fail<ssize_t>(errno); } return r; }
    virtual score::cpp::expected<ssize_t, Error> write(const std::int32_t fd, const void* b, std::size_t n) const noexcept { if (int e = ::vshim::pre("write", std::to_string(fd))) { return vshim_detail::fail<ssize_t>(e); } const ssize_t r = ::vshim::net::mine(fd) ? ::vshim::net::put(fd, std::string(static_cast<const char*>(b), n)) : ::write(fd, b, n); if (r < 0) { return vshim_detail::fail<ssize_t>(errno); } return r; }
    virtual score::cpp::expected_blank<Error> ftruncate(const std::int32_t fd, const off_t n) const noexcept { if (int e = ::vshim::pre("ftruncate", std::to_string(n))) { return vshim_detail::failb(e); } if (::ftruncate(fd, n) != 0) { return vshim_detail::failb(errno); } return score::cpp::blank{}; }
    virtual score::cpp::expected_blank<Error> pipe(std::int32_t* fds) const noexcept { if ((::vshim::net::on() ? ::vshim::net::pipe(fds) : ::pipe2(fds, O_CLOEXEC)) != 0) { return vshim_detail::failb(errno); } return score::cpp::blank{}; }
    virtual pid_t getpid() const noexcept { return ::vshim::fake_pid() != 0 ? ::vshim::fake_pid() : ::getpid(); }
    virtual pid_t getppid() const noexcept { return ::getppid(); }
    virtual std::int64_t gettid() const noexcept { return ::syscall(SYS_gettid); }
    virtual uid_t getuid() const noexcept { return ::vshim::fake_uid() != static_cast<uid_t>(-1) ? ::vshim::fake_uid() : ::getuid(); }
    virtual gid_t getgid() const noexcept { return ::getgid(); }
    virtual score::cpp::expected<std::int32_t, Error> getpwnam_r(const char*, struct passwd*, char*, std::size_t, struct passwd** r) const noexcept { *r = nullptr; return 0; }
    virtual score::cpp::expected<std::int64_t, Error> sysconf(int n) const noexcept { return static_cast<std::int64_t>(::sysconf(n)); }
};
namespace internal { class UnistdImpl final : public Unistd {}; }
}}
#include <fcntl.h>
#endif
