#ifndef VSHIM_UTILITY_HPP
#define VSHIM_UTILITY_HPP
#include <type_traits>
#include <utility>
namespace score { namespace cpp {
struct vshim_ignore_t { template <typename... T> constexpr const vshim_ignore_t& operator=(T&&...) const noexcept { return *this; } };
inline constexpr vshim_ignore_t ignore{};
template <typename E> constexpr std::underlying_type_t<E> to_underlying(E e) noexcept { return static_cast<std::underlying_type_t<E>>(e); }
using std::in_place_t; using std::in_place;
}}
#endif
