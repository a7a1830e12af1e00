#ifndef VSHIM_FS_PATH_H
#define VSHIM_FS_PATH_H
#include <filesystem>
#include <ostream>
#include <string>
#include <string_view>
namespace score { namespace filesystem {
class Path
{
  public:
    static constexpr char preferred_separator = '/';
    Path() = default; Path(const char* s) : s_(s) {} Path(std::string s) : s_(std::move(s)) {} Path(std::string_view s) : s_(s) {}
    const std::string& Native() const noexcept { return s_; }
    operator std::string() const { return s_; }
    const char* CStr() const noexcept { return s_.c_str(); }
    bool Empty() const noexcept { return s_.empty(); }
    Path Filename() const { return Path{std::filesystem::path(s_).filename().string()}; }
    Path Extension() const { return Path{std::filesystem::path(s_).extension().string()}; }
    Path ParentPath() const { return Path{std::filesystem::path(s_).parent_path().string()}; }
    Path RelativePath() const { return Path{std::filesystem::path(s_).relative_path().string()}; }
    Path LexicallyNormal() const { return Path{std::filesystem::path(s_).lexically_normal().string()}; }
    bool IsAbsolute() const noexcept { return !s_.empty() && s_[0] == '/'; } bool IsRelative() const noexcept { return !IsAbsolute(); }
    Path& operator/=(const Path& o) { s_ = (std::filesystem::path(s_) / o.s_).string(); return *this; }
    Path& operator+=(const Path& o) { s_ += o.s_; return *this; }
    friend Path operator/(const Path& a, const Path& b) { Path r = a; r /= b; return r; }
    friend bool operator==(const Path& a, const Path& b) { return a.s_ == b.s_; } friend bool operator!=(const Path& a, const Path& b) { return a.s_ != b.s_; } friend bool operator<(const Path& a, const Path& b) { return a.s_ < b.s_; }
    friend std::ostream& operator<<(std::ostream& o, const Path& p) { return o << p.s_; }
  private:
    std::string s_{};
};
}}
namespace std { template <> struct hash<score::filesystem::Path> { size_t operator()(const score::filesystem::Path& p) const noexcept { return hash<string>{}(p.Native()); } }; }
#endif
