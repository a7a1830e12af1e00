#ifndef VSHIM_CALLBACK_HPP
#define VSHIM_CALLBACK_HPP
#include "score/assert.hpp"
#include <cstddef>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace score { namespace cpp {
template <typename Sig> class move_only_function;
template <typename R, typename... A> class move_only_function<R(A...)>
{
    struct base { virtual ~base() = default; virtual R call(A...) = 0; };
    template <typename F> struct impl final : base { F f; template <typename G> explicit impl(G&& g) : f(std::forward<G>(g)) {} R call(A... a) override { return static_cast<R>(std::invoke(f, std::forward<A>(a)...)); } };
  public:
    using result_type = R;
    move_only_function() noexcept = default;
    move_only_function(std::nullptr_t) noexcept {}
    move_only_function(move_only_function&&) noexcept = default;
    move_only_function& operator=(move_only_function&& o) noexcept { auto t = std::move(p_); p_ = std::move(o.p_); return *this; }
    move_only_function& operator=(std::nullptr_t) noexcept { p_.reset(); return *this; }
    template <typename F, typename = std::enable_if_t<!std::is_base_of_v<move_only_function, std::decay_t<F>> && std::is_invocable_r_v<R, std::decay_t<F>&, A...>>>
    move_only_function(F&& f) { if constexpr (std::is_pointer_v<std::decay_t<F>> || std::is_member_pointer_v<std::decay_t<F>>) { if (f == nullptr) { return; } } p_ = std::make_unique<impl<std::decay_t<F>>>(std::forward<F>(f)); }
    R operator()(A... a) const { if (!p_) { vshim_assert_fail(__FILE__, __LINE__, "callback", "!empty()", "empty callback called"); } return p_->call(std::forward<A>(a)...); }
    explicit operator bool() const noexcept { return static_cast<bool>(p_); }
    bool empty() const noexcept { return !p_; }
    friend bool operator==(const move_only_function& f, std::nullptr_t) noexcept { return f.empty(); }
    friend bool operator!=(const move_only_function& f, std::nullptr_t) noexcept { return !f.empty(); }
  private:
    std::unique_ptr<base> p_{};
};
template <typename R, typename... A> class move_only_function<R(A...) const> : public move_only_function<R(A...)> { public: using move_only_function<R(A...)>::move_only_function; };
template <typename Sig, std::size_t Cap = 32U, std::size_t Al = alignof(std::max_align_t)> class callback : public move_only_function<Sig>
{
  public:
    using B = move_only_function<Sig>;
    using alignment_t = std::integral_constant<std::size_t, Al>; using capacity_t = std::integral_constant<std::size_t, Cap>;
    callback() noexcept = default;
    callback(std::nullptr_t) noexcept {}
    callback(callback&&) noexcept = default;
    callback& operator=(callback&&) noexcept = default;
    template <typename F, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, callback> && std::is_constructible_v<B, F&&>>> callback(F&& f) : B(std::forward<F>(f)) {}
};
}}
#endif
