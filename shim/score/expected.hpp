#ifndef VSHIM_EXPECTED_HPP
#define VSHIM_EXPECTED_HPP
#include "score/assert.hpp"
#include "score/blank.hpp"
#include <type_traits>
#include <utility>
#include <optional>
#include <variant>
namespace score { namespace cpp {
template <typename E> class unexpected
{
  public:
    template <typename U = E, typename = std::enable_if_t<std::is_constructible_v<E, U&&> && !std::is_same_v<std::decay_t<U>, unexpected>>>
    explicit constexpr unexpected(U&& e) : e_(std::forward<U>(e)) {}
    template <typename... A> explicit constexpr unexpected(std::in_place_t, A&&... a) : e_(std::forward<A>(a)...) {}
    constexpr const E& error() const& noexcept { return e_; }
    constexpr E& error() & noexcept { return e_; }
    constexpr E&& error() && noexcept { return std::move(e_); }
    friend bool operator==(const unexpected& a, const unexpected& b) { return a.e_ == b.e_; }
  private:
    E e_;
};
template <typename E> unexpected(E) -> unexpected<E>;
template <typename E> constexpr unexpected<std::decay_t<E>> make_unexpected(E&& e) { return unexpected<std::decay_t<E>>{std::forward<E>(e)}; }
template <typename E, typename... A> constexpr unexpected<E> make_unexpected(A&&... a) { return unexpected<E>{std::in_place, std::forward<A>(a)...}; }
struct unexpect_t {}; inline constexpr unexpect_t unexpect{};

template <typename T, typename E> class expected;
template <typename X> struct vshim_is_expected : std::false_type {};
template <typename T, typename E> struct vshim_is_expected<expected<T, E>> : std::true_type {};
template <typename X> struct vshim_is_unexpected : std::false_type {};
template <typename E> struct vshim_is_unexpected<unexpected<E>> : std::true_type {};

template <typename T, typename E> class [[nodiscard]] expected
{
  public:
    using value_type = T;
    using error_type = E;
    template <typename U = T, typename = std::enable_if_t<std::is_default_constructible_v<U>>> constexpr expected() : v_(std::in_place_index<0>) {}
    expected(const expected&) = default;
    expected(expected&&) = default;
    expected& operator=(const expected&) = default;
    expected& operator=(expected&&) = default;
    template <typename U = T, typename = std::enable_if_t<std::is_constructible_v<T, U&&> && !std::is_same_v<std::decay_t<U>, expected> && !vshim_is_unexpected<std::decay_t<U>>::value && !std::is_same_v<std::decay_t<U>, std::in_place_t> && !(vshim_is_expected<std::decay_t<U>>::value)>>
    constexpr expected(U&& u) : v_(std::in_place_index<0>, std::forward<U>(u)) {}
    template <typename... A> explicit constexpr expected(std::in_place_t, A&&... a) : v_(std::in_place_index<0>, std::forward<A>(a)...) {}
    template <typename G, typename = std::enable_if_t<std::is_constructible_v<E, const G&>>> constexpr expected(const unexpected<G>& e) : v_(std::in_place_index<1>, e.error()) {}
    template <typename G, typename = std::enable_if_t<std::is_constructible_v<E, G&&>>> constexpr expected(unexpected<G>&& e) : v_(std::in_place_index<1>, std::move(e).error()) {}
    template <typename U, typename G, typename = std::enable_if_t<std::is_constructible_v<T, U&&> && std::is_constructible_v<E, G&&> && !(std::is_same_v<U, T> && std::is_same_v<G, E>)>>
    constexpr expected(expected<U, G>&& o) : v_(o.has_value() ? std::variant<T, E>(std::in_place_index<0>, std::move(o).value()) : std::variant<T, E>(std::in_place_index<1>, std::move(o).error())) {}
    template <typename U, typename G, typename = std::enable_if_t<std::is_constructible_v<T, const U&> && std::is_constructible_v<E, const G&> && !(std::is_same_v<U, T> && std::is_same_v<G, E>)>>
    constexpr expected(const expected<U, G>& o) : v_(o.has_value() ? std::variant<T, E>(std::in_place_index<0>, o.value()) : std::variant<T, E>(std::in_place_index<1>, o.error())) {}

    constexpr bool has_value() const noexcept { return v_.index() == 0U; }
    constexpr explicit operator bool() const noexcept { return has_value(); }
    constexpr T& value() & { chk(); return std::get<0>(v_); }
    constexpr const T& value() const& { chk(); return std::get<0>(v_); }
    constexpr T&& value() && { chk(); return std::move(std::get<0>(v_)); }
    constexpr const T&& value() const&& { chk(); return std::move(std::get<0>(v_)); }
    constexpr T& operator*() & { return value(); }
    constexpr const T& operator*() const& { return value(); }
    constexpr T&& operator*() && { return std::move(*this).value(); }
    constexpr T* operator->() { chk(); return &std::get<0>(v_); }
    constexpr const T* operator->() const { chk(); return &std::get<0>(v_); }
    constexpr E& error() & { chke(); return std::get<1>(v_); }
    constexpr const E& error() const& { chke(); return std::get<1>(v_); }
    constexpr E&& error() && { chke(); return std::move(std::get<1>(v_)); }
    template <typename U> constexpr T value_or(U&& u) const& { return has_value() ? std::get<0>(v_) : static_cast<T>(std::forward<U>(u)); }
    template <typename U> constexpr T value_or(U&& u) && { return has_value() ? std::move(std::get<0>(v_)) : static_cast<T>(std::forward<U>(u)); }
    template <typename U> constexpr E error_or(U&& u) const& { return has_value() ? static_cast<E>(std::forward<U>(u)) : std::get<1>(v_); }
    template <typename... A> T& emplace(A&&... a) { return v_.template emplace<0>(std::forward<A>(a)...); }
    template <typename F> auto and_then(F&& f) & { using R = std::decay_t<std::invoke_result_t<F, T&>>; return has_value() ? std::forward<F>(f)(value()) : R{unexpected<E>(error())}; }
    template <typename F> auto and_then(F&& f) const& { using R = std::decay_t<std::invoke_result_t<F, const T&>>; return has_value() ? std::forward<F>(f)(value()) : R{unexpected<E>(error())}; }
    template <typename F> auto and_then(F&& f) && { using R = std::decay_t<std::invoke_result_t<F, T&&>>; return has_value() ? std::forward<F>(f)(std::move(*this).value()) : R{unexpected<E>(error())}; }
    template <typename F> auto or_else(F&& f) && { using R = std::decay_t<std::invoke_result_t<F, E&&>>; return has_value() ? R{std::move(*this).value()} : std::forward<F>(f)(std::move(*this).error()); }
    template <typename F> auto or_else(F&& f) & { using R = std::decay_t<std::invoke_result_t<F, E&>>; return has_value() ? R{value()} : std::forward<F>(f)(error()); }
    template <typename F> auto transform(F&& f) && { using U = std::decay_t<std::invoke_result_t<F, T&&>>; using R = expected<U, E>; return has_value() ? R{std::forward<F>(f)(std::move(*this).value())} : R{unexpected<E>(error())}; }
    template <typename F> auto transform(F&& f) & { using U = std::decay_t<std::invoke_result_t<F, T&>>; using R = expected<U, E>; return has_value() ? R{std::forward<F>(f)(value())} : R{unexpected<E>(error())}; }
    template <typename F> auto transform_error(F&& f) && { using G = std::decay_t<std::invoke_result_t<F, E&&>>; using R = expected<T, G>; return has_value() ? R{std::move(*this).value()} : R{unexpected<G>(std::forward<F>(f)(std::move(*this).error()))}; }
    friend bool operator==(const expected& a, const expected& b) { return a.v_.index() == b.v_.index() && (a.has_value() ? eqv(a.value(), b.value()) : a.error() == b.error()); }
    friend bool operator!=(const expected& a, const expected& b) { return !(a == b); }
    template <typename U, typename = std::enable_if_t<!vshim_is_expected<U>::value && !vshim_is_unexpected<U>::value>> friend bool operator==(const expected& a, const U& b) { return a.has_value() && a.value() == b; }
    template <typename G> friend bool operator==(const expected& a, const unexpected<G>& b) { return !a.has_value() && a.error() == b.error(); }
    template <typename G> friend bool operator!=(const expected& a, const unexpected<G>& b) { return !(a == b); }
    void swap(expected& o) { v_.swap(o.v_); }
  private:
    template <typename U> static auto eqv(const U& a, const U& b) -> decltype(a == b) { return a == b; }
    constexpr void chk() const { if (v_.index() != 0U) { vshim_assert_fail(__FILE__, __LINE__, "expected::value", "has_value()", "bad expected access"); } }
    constexpr void chke() const { if (v_.index() != 1U) { vshim_assert_fail(__FILE__, __LINE__, "expected::error", "!has_value()", "bad expected access"); } }
    std::variant<T, E> v_;
};
// expected<void, E>: stored as blank
template <typename E> class [[nodiscard]] expected<void, E>
{
  public:
    using value_type = void; using error_type = E;
    constexpr expected() = default;
    template <typename G> constexpr expected(const unexpected<G>& e) : e_(e.error()) {}
    template <typename G> constexpr expected(unexpected<G>&& e) : e_(std::move(e).error()) {}
    constexpr bool has_value() const noexcept { return !e_.has_value(); }
    constexpr explicit operator bool() const noexcept { return has_value(); }
    constexpr void value() const { if (e_) { vshim_assert_fail(__FILE__, __LINE__, "expected::value", "has_value()", ""); } }
    constexpr E& error() & { return *e_; }
    constexpr const E& error() const& { return *e_; }
    constexpr E&& error() && { return std::move(*e_); }
  private:
    std::optional<E> e_{};
};
template <typename E> using expected_blank = expected<blank, E>;
}}
#endif
