// Shared helpers of the OS stand-ins: (1) path confinement - every path the code under test names is mapped below
// $VSHIM_ROOT, so no call can reach a real system path; (2) an optional interception hook, used for crash points/faults.
#ifndef VSHIM_OS_H
#define VSHIM_OS_H
#include "score/os/errno.h"
#include <cstdlib>
#include <functional>
#include <string>
#include <string_view>
#include <map>
#include "vsched.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <unistd.h>
namespace vshim {
// Called before each OS operation with its name and (already mapped) path or "". A non-zero return value is the errno
// to fail the call with. May also throw/abandon to simulate a crash at this point.
using OsHook = std::function<int(const char* op, const std::string& arg)>;
inline OsHook& os_hook() { static OsHook h; return h; }
inline std::string& root_ref() { static std::string r = [] { const char* e = std::getenv("VSHIM_ROOT"); return std::string(e != nullptr ? e : "/nonexistent-vshim-root"); }(); return r; }
inline const std::string& root() { return root_ref(); }
// Simulated processes: which one executes now, and the descriptors and mappings each holds
inline std::function<int()>& proc_hook() { static std::function<int()> h; return h; }
inline int cur_proc() { return proc_hook() ? proc_hook()() : 0; }
inline std::map<int, int>& fd_owner() { static std::map<int, int> m; return m; }
inline std::map<void*, std::pair<std::size_t, int>>& map_owner() { static std::map<void*, std::pair<std::size_t, int>> m; return m; }
inline int fd_opened(int fd) { if (fd >= 0) { fd_owner()[fd] = cur_proc(); } return fd; }
inline void fd_closed(int fd) { fd_owner().erase(fd); }
inline int fds_of(int p) { int n = 0; for (auto& [f, o] : fd_owner()) { n += o == p ? 1 : 0; } return n; }
inline int maps_of(int p) { int n = 0; for (auto& [f, o] : map_owner()) { n += o.second == p ? 1 : 0; } return n; }
// the operating system closes what a dead process had open (its locks go with it)
inline void kill_proc(int p) { for (auto i = fd_owner().begin(); i != fd_owner().end();) { if (i->second == p) { ::close(i->first); i = fd_owner().erase(i); } else { ++i; } } }
inline int do_flock(int fd, int n) { if (!vsched::InFiber() || (n & LOCK_NB) != 0 || (n & LOCK_UN) != 0) { return ::flock(fd, n); } int r = ::flock(fd, n | LOCK_NB); if (r == 0 || errno != EWOULDBLOCK) { return r; } (void)vsched::BlockUntil([&r, fd, n] { r = ::flock(fd, n | LOCK_NB); return r == 0 || errno != EWOULDBLOCK; }, -1); return r; }
// Every file made through the shim gets a number, in the order of making (inode numbers depend on the file system).
inline std::map<unsigned long, long>& births() { static std::map<unsigned long, long> m; return m; }
inline std::map<unsigned long, int>& makers() { static std::map<unsigned long, int> m; return m; }   // by which process
inline long& birth_count() { static long n = 0; return n; }
inline int open_counted(const char* q, int flags, unsigned mode) {
    struct ::stat st {};
    const bool was = (flags & O_CREAT) != 0 && ::stat(q, &st) == 0;
    const int fd = ::open(q, flags, mode);
    if (fd >= 0 && (flags & O_CREAT) != 0 && !was && ::fstat(fd, &st) == 0) { births()[static_cast<unsigned long>(st.st_ino)] = ++birth_count(); makers()[static_cast<unsigned long>(st.st_ino)] = cur_proc(); }
    return fd;
}
inline long birth_of(unsigned long ino) { const auto i = births().find(ino); return i == births().end() ? -1 : i->second; }
inline std::string map_path(std::string_view p) { const std::string s(p); if (s.rfind(root(), 0) == 0 && s.find("/..") == std::string::npos) { return s; } std::string o = root(); if (s.empty() || s[0] != '/') { o += '/'; } o += s; std::size_t q; while ((q = o.find("/..")) != std::string::npos) { o.replace(q, 3, "/__"); } return o; }
inline std::string shm_path(std::string_view p) { std::string s(p); while (!s.empty() && s.front() == '/') { s.erase(0, 1); } for (auto& c : s) { if (c == '/') { c = '#'; } } return map_path("/dev/shm/" + s); }
inline int pre(const char* op, const std::string& a) { if (vsched::InFiber()) { vsched::Point(vsched::Op::kUser, nullptr); } return os_hook() ? os_hook()(op, a) : 0; }
}
namespace score { namespace os { namespace vshim_detail {
template <typename T> score::cpp::expected<T, Error> fail(int e) { return score::cpp::make_unexpected(Error::createFromErrno(e)); }
inline score::cpp::expected_blank<Error> failb(int e) { return score::cpp::make_unexpected(Error::createFromErrno(e)); }
template <typename E> constexpr E enum_or(E a, E b) { return static_cast<E>(static_cast<std::underlying_type_t<E>>(a) | static_cast<std::underlying_type_t<E>>(b)); }
template <typename E> constexpr E enum_and(E a, E b) { return static_cast<E>(static_cast<std::underlying_type_t<E>>(a) & static_cast<std::underlying_type_t<E>>(b)); }
}}}
#define VSHIM_BITENUM(E) constexpr E operator|(E a, E b) { return ::score::os::vshim_detail::enum_or(a, b); } constexpr E operator&(E a, E b) { return ::score::os::vshim_detail::enum_and(a, b); } constexpr E operator~(E a) { return static_cast<E>(~static_cast<std::underlying_type_t<E>>(a)); } constexpr E& operator|=(E& a, E b) { a = a | b; return a; } constexpr E& operator&=(E& a, E b) { a = a & b; return a; }
#endif
