#ifndef VSHIM_ZSTRING_VIEW_H
#define VSHIM_ZSTRING_VIEW_H
#include <string>
#include <string_view>
namespace score { namespace safecpp {
class zstring_view : public std::string_view
{
  public:
    constexpr zstring_view() noexcept : std::string_view("") {}
    constexpr zstring_view(const char* s) noexcept : std::string_view(s) {}
    constexpr zstring_view(const char* s, std::size_t n) noexcept : std::string_view(s, n) {}
    zstring_view(const std::string& s) noexcept : std::string_view(s) {}
    constexpr const char* c_str() const noexcept { return data(); }
};
namespace literals { inline constexpr zstring_view operator""_zsv(const char* s, std::size_t n) noexcept { return zstring_view{s, n}; } inline namespace zstring_view_literals {} }
inline namespace zstring_views {}
namespace zstring_view_literals = literals;
}}
#endif
