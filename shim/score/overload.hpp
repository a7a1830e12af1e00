#ifndef VSHIM_OVERLOAD_HPP
#define VSHIM_OVERLOAD_HPP
#include <utility>
#include <variant>
#include <type_traits>
namespace score { namespace cpp {
template <class... Ts> struct vshim_overload_t : Ts... { using Ts::operator()...; };
template <class... Ts> vshim_overload_t(Ts...) -> vshim_overload_t<Ts...>;
template <class... Ts> constexpr auto overload(Ts&&... ts) { return vshim_overload_t<std::decay_t<Ts>...>{std::forward<Ts>(ts)...}; }
template <class V, class... Vs> constexpr decltype(auto) visit(V&& v, Vs&&... vs) { return std::visit(std::forward<V>(v), std::forward<Vs>(vs)...); }
}}
#endif
