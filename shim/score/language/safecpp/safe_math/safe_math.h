#ifndef VSHIM_SAFE_MATH_H
#define VSHIM_SAFE_MATH_H
#include "score/result/result.h"
#include <limits>
#include <type_traits>
namespace score { namespace safe_math {
enum class ReturnMode { kReturnErrorCode, kAbortOnError };
enum class ErrorCode : score::result::ErrorCode { kExceedsNumericLimits = 1, kDivideByZero, kImplicitTypeConversionNotAllowed, kUnexpectedError };
class ErrDomain final : public score::result::ErrorDomain { public: std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "safe_math error"; } };
inline constexpr ErrDomain vshim_dom{};
constexpr score::result::Error MakeError(ErrorCode c, std::string_view m = {}) noexcept { return {static_cast<score::result::ErrorCode>(c), vshim_dom, m}; }
using I128 = __int128;
template <typename R> constexpr bool vshim_fits(I128 v) { return v >= static_cast<I128>(std::numeric_limits<R>::min()) && v <= static_cast<I128>(std::numeric_limits<R>::max()); }
template <typename R> constexpr score::Result<R> vshim_ret(I128 v, bool ovf = false) { if (ovf || !vshim_fits<R>(v)) { return score::MakeUnexpected(ErrorCode::kExceedsNumericLimits); } return static_cast<R>(v); }
template <typename To, ReturnMode M = ReturnMode::kReturnErrorCode, typename F> constexpr auto Cast(F f) { if constexpr (std::is_floating_point_v<F>) { if constexpr (M == ReturnMode::kAbortOnError) { return static_cast<To>(f); } else { return score::Result<To>{static_cast<To>(f)}; } } else { auto r = vshim_ret<To>(static_cast<I128>(f)); if constexpr (M == ReturnMode::kAbortOnError) { return r.value(); } else { return r; } } }
template <ReturnMode M, typename R> constexpr auto vshim_mode(score::Result<R> r) { if constexpr (M == ReturnMode::kAbortOnError) { return r.value(); } else { return r; } }
template <typename R = void, ReturnMode M = ReturnMode::kReturnErrorCode, typename A, typename B> constexpr auto Add(A a, B b) { using T = std::conditional_t<std::is_void_v<R>, std::common_type_t<A, B>, R>; return vshim_mode<M, T>(vshim_ret<T>(static_cast<I128>(a) + static_cast<I128>(b))); }
template <typename R = void, ReturnMode M = ReturnMode::kReturnErrorCode, typename A, typename B> constexpr auto Subtract(A a, B b) { using T = std::conditional_t<std::is_void_v<R>, std::common_type_t<A, B>, R>; return vshim_mode<M, T>(vshim_ret<T>(static_cast<I128>(a) - static_cast<I128>(b))); }
template <typename R = void, ReturnMode M = ReturnMode::kReturnErrorCode, typename A, typename B> constexpr auto Multiply(A a, B b) { using T = std::conditional_t<std::is_void_v<R>, std::common_type_t<A, B>, R>; I128 v{0}; bool o = __builtin_mul_overflow(static_cast<I128>(a), static_cast<I128>(b), &v); return vshim_mode<M, T>(vshim_ret<T>(v, o)); }
template <typename R = void, ReturnMode M = ReturnMode::kReturnErrorCode, typename A, typename B> constexpr auto Divide(A a, B b) { using T = std::conditional_t<std::is_void_v<R>, std::common_type_t<A, B>, R>; return vshim_mode<M, T>(b == 0 ? score::Result<T>{score::MakeUnexpected(ErrorCode::kDivideByZero)} : vshim_ret<T>(static_cast<I128>(a) / static_cast<I128>(b == 0 ? 1 : b))); }
template <ReturnMode M, typename A, typename B> constexpr auto Add(A a, B b) { return Add<void, M, A, B>(a, b); }
template <ReturnMode M, typename A, typename B> constexpr auto Subtract(A a, B b) { return Subtract<void, M, A, B>(a, b); }
template <ReturnMode M, typename A, typename B> constexpr auto Multiply(A a, B b) { return Multiply<void, M, A, B>(a, b); }
template <ReturnMode M, typename A, typename B> constexpr auto Divide(A a, B b) { return Divide<void, M, A, B>(a, b); }
template <typename A> constexpr auto Abs(A a) { return static_cast<std::make_unsigned_t<A>>(a < 0 ? -static_cast<I128>(a) : static_cast<I128>(a)); }
template <ReturnMode M, typename A> constexpr auto Abs(A a) { return static_cast<std::make_unsigned_t<A>>(a < 0 ? -static_cast<I128>(a) : static_cast<I128>(a)); }
template <typename A, typename B> constexpr bool CmpLess(A a, B b) { return static_cast<I128>(a) < static_cast<I128>(b); }
}}
#endif
