#ifndef VSHIM_RESULT_H
#define VSHIM_RESULT_H
#include "score/blank.hpp"
#include <optional>
#include "score/expected.hpp"
#include "score/result/error.h"
namespace score {
using Blank = score::cpp::blank;
template <typename T> struct vshim_result { using type = score::cpp::expected<T, result::Error>; };
template <> struct vshim_result<void> { using type = score::cpp::expected<score::cpp::blank, result::Error>; };
template <typename T> using Result = typename vshim_result<T>::type;
using ResultBlank = Result<Blank>;
using Unexpected = score::cpp::unexpected<result::Error>;
template <typename E, typename = std::enable_if_t<std::is_enum_v<E>>> constexpr Unexpected MakeUnexpected(E e, std::string_view m = {}) { return Unexpected{result::Error{MakeError(e, m)}}; }
template <typename T, typename E, typename = std::enable_if_t<std::is_enum_v<E>>, typename = void> constexpr Result<T> MakeUnexpected(E e, std::string_view m = {}) { return Result<T>{Unexpected{result::Error{MakeError(e, m)}}}; }
template <typename T> constexpr Result<T> MakeUnexpected(result::Error e) { return Result<T>{Unexpected{e}}; }
inline constexpr Unexpected MakeUnexpected(result::Error e) { return Unexpected{e}; }
template <typename T, typename F> std::optional<T> vshim_opt(score::cpp::expected<T, result::Error>&& r, F f) { if (r.has_value()) { return std::optional<T>{std::move(r).value()}; } f(r.error()); return std::nullopt; }
template <typename T, typename F> std::optional<T> ResultToOptionalOrElse(score::cpp::expected<T, result::Error> r, F f) { return vshim_opt<T>(std::move(r), std::move(f)); }
template <typename T> std::optional<T> ResultToOptional(score::cpp::expected<T, result::Error> r) { return vshim_opt<T>(std::move(r), [](const auto&) {}); }
}
#endif
