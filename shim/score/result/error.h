#ifndef VSHIM_ERROR_H
#define VSHIM_ERROR_H
#include "score/result/error_domain.h"
#include <ostream>
#include <string_view>
#include <type_traits>
namespace score { namespace result {
class Error
{
  public:
    constexpr Error(ErrorCode c, const ErrorDomain& d, std::string_view m) noexcept : c_{c}, d_{&d}, m_{m} {}
    template <typename C, typename M, typename = std::enable_if_t<std::is_enum_v<C> && std::is_convertible_v<M, std::string_view>>> constexpr Error(C c, M m) noexcept : Error{MakeError(c, std::string_view{m})} {}
    template <typename C, typename = std::enable_if_t<std::is_enum_v<C>>> constexpr Error(C c) noexcept : Error{MakeError(c, std::string_view{})} {}
    constexpr const ErrorCode& operator*() const noexcept { return c_; }
    std::string_view Message() const noexcept { return d_->MessageFor(c_); }
    constexpr std::string_view UserMessage() const noexcept { return m_; }
    constexpr const ErrorDomain& Domain() const noexcept { return *d_; }
    friend constexpr bool operator==(const Error& a, const Error& b) noexcept { return a.c_ == b.c_ && a.d_ == b.d_; }
    friend constexpr bool operator!=(const Error& a, const Error& b) noexcept { return !(a == b); }
    template <typename C, typename = std::enable_if_t<std::is_enum_v<C>>> friend constexpr bool operator==(const Error& a, C c) noexcept { return a == Error{c}; }
    template <typename C, typename = std::enable_if_t<std::is_enum_v<C>>> friend constexpr bool operator!=(const Error& a, C c) noexcept { return !(a == Error{c}); }
    template <typename C, typename = std::enable_if_t<std::is_enum_v<C>>> friend constexpr bool operator==(C c, const Error& a) noexcept { return a == Error{c}; }
    friend std::ostream& operator<<(std::ostream& o, const Error& e) { return o << "Error " << e.Message() << " " << e.m_; }
  private:
    ErrorCode c_; const ErrorDomain* d_; std::string_view m_;
};
}}
#endif
