#ifndef VSHIM_OS_STAT_H
#define VSHIM_OS_STAT_H
#include "score/blank.hpp"
#include "score/os/ObjectSeam.h"
#include "score/os/vshim_os.h"
#include <memory>
#include <sys/stat.h>
#include <type_traits>
namespace score { namespace os {
struct StatBuffer { std::uint64_t st_dev; std::uint64_t st_ino; std::uint32_t st_mode; std::uint64_t st_nlink; uid_t st_uid; gid_t st_gid; std::int64_t st_size; std::int64_t st_atime_sec; std::int64_t st_mtime_sec; std::int64_t st_blksize; std::int64_t st_blocks; };
class Stat : public ObjectSeam<Stat>
{
  public:
    enum class Mode : std::uint32_t { kNone = 0, kReadUser = S_IRUSR, kWriteUser = S_IWUSR, kExecUser = S_IXUSR, kReadWriteExecUser = S_IRWXU, kReadGroup = S_IRGRP, kWriteGroup = S_IWGRP, kExecGroup = S_IXGRP, kReadWriteExecGroup = S_IRWXG, kReadOthers = S_IROTH, kWriteOthers = S_IWOTH, kExecOthers = S_IXOTH, kReadWriteExecOthers = S_IRWXO };
    static Stat& vshim_real() { static Stat s; return s; }
    static std::unique_ptr<Stat> Default() { return std::make_unique<Stat>(); }
    virtual ~Stat() = default;
    virtual score::cpp::expected_blank<Error> stat(const char* f, StatBuffer& b, bool = true) const noexcept { const std::string p = ::vshim::map_path(f); if (int e = ::vshim::pre("stat", p)) { return vshim_detail::failb(e); } struct ::stat s {}; if (::stat(p.c_str(), &s) != 0) { return vshim_detail::failb(errno); } fill(s, b); return score::cpp::blank{}; }
    virtual score::cpp::expected_blank<Error> fstat(std::int32_t fd, StatBuffer& b) const noexcept { if (int e = ::vshim::pre("fstat", "")) { return vshim_detail::failb(e); } struct ::stat s {}; if (::fstat(fd, &s) != 0) { return vshim_detail::failb(errno); } fill(s, b); return score::cpp::blank{}; }
    virtual score::cpp::expected_blank<Error> chmod(const char* f, Mode m) const noexcept { const std::string p = ::vshim::map_path(f); if (int e = ::vshim::pre("chmod", p)) { return vshim_detail::failb(e); } if (::chmod(p.c_str(), static_cast<mode_t>(m)) != 0) { return vshim_detail::failb(errno); } return score::cpp::blank{}; }
    virtual score::cpp::expected_blank<Error> fchmod(std::int32_t fd, Mode m) const noexcept { if (int e = ::vshim::pre("fchmod", "")) { return vshim_detail::failb(e); } if (::fchmod(fd, static_cast<mode_t>(m)) != 0) { return vshim_detail::failb(errno); } return score::cpp::blank{}; }
    virtual score::cpp::expected_blank<Error> mkdir(const char* f, Mode m) const noexcept { const std::string p = ::vshim::map_path(f); if (int e = ::vshim::pre("mkdir", p)) { return vshim_detail::failb(e); } if (::mkdir(p.c_str(), static_cast<mode_t>(m)) != 0) { return vshim_detail::failb(errno); } return score::cpp::blank{}; }
    virtual Mode umask(Mode m) const noexcept { return static_cast<Mode>(::umask(static_cast<mode_t>(m))); }
  private:
    static void fill(const struct ::stat& s, StatBuffer& b) { b = StatBuffer{}; b.st_dev = s.st_dev; b.st_ino = s.st_ino; b.st_mode = s.st_mode; b.st_nlink = s.st_nlink; b.st_uid = s.st_uid; b.st_gid = s.st_gid; b.st_size = s.st_size; }
};
VSHIM_BITENUM(Stat::Mode)
constexpr mode_t ModeToInteger(Stat::Mode m) { return static_cast<mode_t>(m); }
constexpr Stat::Mode IntegerToMode(mode_t m) { return static_cast<Stat::Mode>(m); }
}}
#endif
