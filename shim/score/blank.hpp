#ifndef VSHIM_BLANK_HPP
#define VSHIM_BLANK_HPP
#include <functional>
#include <cstddef>
namespace score { namespace cpp {
struct blank {};
constexpr bool operator==(const blank&, const blank&) noexcept { return true; }
constexpr bool operator!=(const blank&, const blank&) noexcept { return false; }
constexpr bool operator<(const blank&, const blank&) noexcept { return false; }
constexpr bool operator>(const blank&, const blank&) noexcept { return false; }
constexpr bool operator<=(const blank&, const blank&) noexcept { return true; }
constexpr bool operator>=(const blank&, const blank&) noexcept { return true; }
}}
namespace std { template <> struct hash<score::cpp::blank> { size_t operator()(const score::cpp::blank&) const noexcept { return 0U; } }; }
#endif
