#ifndef VSHIM_FILESYSTEM_H
#define VSHIM_FILESYSTEM_H
#include "score/filesystem/path.h"
#include "score/os/stat.h"
#include "score/result/result.h"
#include <fstream>
#include <ios>
#include <iostream>
#include <memory>
#include <vector>
namespace score { namespace filesystem {
enum class ErrorCode : score::result::ErrorCode { kNotImplemented = 1, kFileExists, kDoesNotExist, kCouldNotOpenFileStream, kCouldNotRetrieveStatus, kCouldNotCreateDirectory, kCouldNotRemoveFileOrDirectory, kCouldNotSetPermissions };
class FsDomain final : public score::result::ErrorDomain { public: std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "filesystem error"; } };
inline constexpr FsDomain vshim_fs_dom{};
constexpr score::result::Error MakeError(ErrorCode c, std::string_view m = {}) noexcept { return {static_cast<score::result::ErrorCode>(c), vshim_fs_dom, m}; }
enum class FileType : std::int32_t { kNone = 0, kNotFound = -1, kRegular = 1, kDirectory = 2, kSymlink = 3, kBlock, kCharacter, kFifo, kSocket, kUnknown };
using Perms = score::os::Stat::Mode;
enum class PermOptions { kReplace, kAdd, kRemove };
class FileStatus
{
  public:
    FileStatus(FileType t, Perms p) : t_(t), p_(p) {}
    FileType Type() const noexcept { return t_; } Perms Permissions() const noexcept { return p_; }
  private:
    FileType t_; Perms p_;
};
inline Result<FileStatus> vshim_status(const Path& p)
{
    const std::string q = ::vshim::map_path(p.Native());
    if (::vshim::pre("fs_status", q) != 0) { return MakeUnexpected(ErrorCode::kCouldNotRetrieveStatus); }
    struct ::stat s {};
    if (::stat(q.c_str(), &s) != 0) { if (errno == ENOENT || errno == ENOTDIR) { return FileStatus{FileType::kNotFound, Perms::kNone}; } return MakeUnexpected(ErrorCode::kCouldNotRetrieveStatus); }
    const FileType t = S_ISREG(s.st_mode) ? FileType::kRegular : S_ISDIR(s.st_mode) ? FileType::kDirectory : S_ISSOCK(s.st_mode) ? FileType::kSocket : FileType::kUnknown;
    return FileStatus{t, static_cast<Perms>(s.st_mode & 0777U)};
}
class IStandardFilesystem
{
  public:
    virtual ~IStandardFilesystem() = default;
    virtual Result<bool> Exists(const Path& p) const noexcept { if (::vshim::pre("fs_exists", ::vshim::map_path(p.Native())) != 0) { return MakeUnexpected(ErrorCode::kCouldNotRetrieveStatus); } return ::access(::vshim::map_path(p.Native()).c_str(), F_OK) == 0; }
    virtual Result<FileStatus> Status(const Path& p) const noexcept { return vshim_status(p); }
    virtual ResultBlank Remove(const Path& p) const noexcept { const std::string q = ::vshim::map_path(p.Native()); if (::vshim::pre("fs_remove", q) != 0) { return MakeUnexpected(ErrorCode::kCouldNotRemoveFileOrDirectory); } if (::remove(q.c_str()) != 0) { return MakeUnexpected(ErrorCode::kCouldNotRemoveFileOrDirectory); } return Blank{}; }
    virtual ResultBlank Permissions(const Path& p, Perms m, PermOptions = PermOptions::kReplace) const noexcept { const std::string q = ::vshim::map_path(p.Native()); if (::vshim::pre("fs_chmod", q) != 0) { return MakeUnexpected(ErrorCode::kCouldNotSetPermissions); } if (::chmod(q.c_str(), static_cast<mode_t>(m)) != 0) { return MakeUnexpected(ErrorCode::kCouldNotSetPermissions); } return Blank{}; }
    virtual ResultBlank CreateDirectory(const Path& p) const noexcept { if (::mkdir(::vshim::map_path(p.Native()).c_str(), 0777) != 0) { return MakeUnexpected(ErrorCode::kCouldNotCreateDirectory); } return Blank{}; }
    virtual Result<Path> CurrentPath() const noexcept { return Path{"/"}; }
};
class IFileUtils
{
  public:
    virtual ~IFileUtils() = default;
    virtual ResultBlank CreateDirectories(const Path& p, Perms m) const noexcept
    {
        const std::string q = ::vshim::map_path(p.Native());
        if (::vshim::pre("fs_mkdirs", q) != 0) { return MakeUnexpected(ErrorCode::kCouldNotCreateDirectory); }
        std::string cur;
        std::size_t i = ::vshim::root().size();
        cur = q.substr(0, i);
        (void)::mkdir(cur.c_str(), 0777);
        while (i < q.size()) { std::size_t j = q.find('/', i + 1U); if (j == std::string::npos) { j = q.size(); } cur = q.substr(0, j); if (::mkdir(cur.c_str(), static_cast<mode_t>(m)) == 0) { (void)::chmod(cur.c_str(), static_cast<mode_t>(m)); } else if (errno != EEXIST) { return MakeUnexpected(ErrorCode::kCouldNotCreateDirectory); } i = j; }
        return Blank{};
    }
};
class IFileFactory
{
  public:
    virtual ~IFileFactory() = default;
    virtual Result<std::unique_ptr<std::iostream>> Open(const Path& p, std::ios_base::openmode m) noexcept { const std::string q = ::vshim::map_path(p.Native()); if (::vshim::pre("fs_open", q) != 0) { return MakeUnexpected(ErrorCode::kCouldNotOpenFileStream); } auto f = std::make_unique<std::fstream>(q, m); if (!f->is_open()) { return MakeUnexpected(ErrorCode::kCouldNotOpenFileStream); } return Result<std::unique_ptr<std::iostream>>{std::unique_ptr<std::iostream>(std::move(f))}; }
};
class DirectoryEntry
{
  public:
    explicit DirectoryEntry(Path p = Path{}) : p_(std::move(p)) {}
    const Path& GetPath() const noexcept { return p_; }
    Result<FileStatus> Status() const noexcept { auto s = vshim_status(p_); if (s.has_value() && s.value().Type() == FileType::kNotFound) { return MakeUnexpected(ErrorCode::kCouldNotRetrieveStatus); } return s; }
    operator const Path&() const noexcept { return p_; }
  private:
    Path p_;
};
class DirectoryIterator
{
  public:
    using iterator_category = std::input_iterator_tag; using value_type = DirectoryEntry; using difference_type = std::ptrdiff_t; using pointer = const DirectoryEntry*; using reference = const DirectoryEntry&;
    DirectoryIterator() = default;
    explicit DirectoryIterator(const Path& p) : v_(std::make_shared<std::vector<DirectoryEntry>>()) { const std::string q = ::vshim::map_path(p.Native()); (void)::vshim::pre("fs_dir", q); std::error_code ec; for (std::filesystem::directory_iterator i(q, ec), e; !ec && i != e; i.increment(ec)) { v_->push_back(DirectoryEntry{p / Path{i->path().filename().string()}}); } if (v_->empty()) { v_.reset(); } }
    const DirectoryEntry& operator*() const { return (*v_)[i_]; } const DirectoryEntry* operator->() const { return &(*v_)[i_]; }
    DirectoryIterator& operator++() { if (++i_ >= v_->size()) { v_.reset(); i_ = 0U; } return *this; }
    friend bool operator==(const DirectoryIterator& a, const DirectoryIterator& b) { return a.v_ == b.v_ && a.i_ == b.i_; } friend bool operator!=(const DirectoryIterator& a, const DirectoryIterator& b) { return !(a == b); }
  private:
    std::shared_ptr<std::vector<DirectoryEntry>> v_{}; std::size_t i_{0U};
};
inline DirectoryIterator begin(DirectoryIterator i) noexcept { return i; }
inline DirectoryIterator end(const DirectoryIterator&) noexcept { return DirectoryIterator{}; }
struct Filesystem { std::shared_ptr<IStandardFilesystem> standard; std::shared_ptr<IFileUtils> utils; std::shared_ptr<IFileFactory> streams; };
class FilesystemFactory { public: Filesystem CreateInstance() const { return Filesystem{std::make_shared<IStandardFilesystem>(), std::make_shared<IFileUtils>(), std::make_shared<IFileFactory>()}; } };
}}
#endif
