#ifndef VSHIM_OS_MMAN_H
#define VSHIM_OS_MMAN_H
#include "score/os/fcntl.h"
#include <sys/mman.h>
#include <unistd.h>
namespace score { namespace os {
class Mman : public ObjectSeam<Mman>
{
  public:
    enum class Protection : std::uint32_t { kNone = 0, kRead = 1, kWrite = 2, kExec = 4 };
    enum class Map : std::uint32_t { kShared = 1, kPrivate = 2, kFixed = 4, kAnonymous = 8 };
    static Mman& vshim_real() { static Mman s; return s; }
    virtual ~Mman() = default;
    virtual score::cpp::expected<void*, Error> mmap(void* a, std::size_t n, Protection p, Map f, std::int32_t fd, std::int64_t o) const noexcept { if (int e = ::vshim::pre("mmap", "")) { return vshim_detail::fail<void*>(e); } const auto pb = static_cast<std::uint32_t>(p); const auto fb = static_cast<std::uint32_t>(f); int pr = 0; if (pb & 1U) { pr |= PROT_READ; } if (pb & 2U) { pr |= PROT_WRITE; } int fl = 0; if (fb & 1U) { fl |= MAP_SHARED; } if (fb & 2U) { fl |= MAP_PRIVATE; } if (fb & 4U) { fl |= MAP_FIXED; } if (fb & 8U) { fl |= MAP_ANONYMOUS; } void* r = ::mmap(a, n, pr, fl, fd, o); if (r == MAP_FAILED) { return vshim_detail::fail<void*>(errno); } ::vshim::map_owner()[r] = {n, ::vshim::cur_proc()}; return r; }
    virtual score::cpp::expected_blank<Error> munmap(void* a, std::size_t n) const noexcept { if (int e = ::vshim::pre("munmap", "")) { return vshim_detail::failb(e); } if (::munmap(a, n) != 0) { return vshim_detail::failb(errno); } ::vshim::map_owner().erase(a); return score::cpp::blank{}; }
    // shared memory objects live as files below $VSHIM_ROOT/dev/shm
    virtual score::cpp::expected<std::int32_t, Error> shm_open(const char* p, Fcntl::Open o, Stat::Mode m) const noexcept { const std::string q = ::vshim::shm_path(p); if (int e = ::vshim::pre("shm_open", q)) { return vshim_detail::fail<std::int32_t>(e); } const int fd = ::vshim::open_counted(q.c_str(), Fcntl::native(o), static_cast<mode_t>(m)); if (fd < 0) { return vshim_detail::fail<std::int32_t>(errno); } ::vshim::fd_opened(fd); return fd; }
    virtual score::cpp::expected_blank<Error> shm_unlink(const char* p) const noexcept { const std::string q = ::vshim::shm_path(p); if (int e = ::vshim::pre("shm_unlink", q)) { return vshim_detail::failb(e); } if (::unlink(q.c_str()) != 0) { return vshim_detail::failb(errno); } return score::cpp::blank{}; }
};
VSHIM_BITENUM(Mman::Protection) VSHIM_BITENUM(Mman::Map)
}}
#endif
