#ifndef VSHIM_MOVE_ONLY_SCOPED_FUNCTION_H
#define VSHIM_MOVE_ONLY_SCOPED_FUNCTION_H
#include "score/language/safecpp/scoped_function/scope.h"
#include "score/callback.hpp"
#include "score/blank.hpp"
#include <optional>
#include <type_traits>
namespace score { namespace safecpp {
struct vshim_scope_guard { vshim_scope_state* s; ~vshim_scope_guard() { s->leave(); } };
template <typename R, typename F, typename... A> auto vshim_scoped_call(const std::shared_ptr<vshim_scope_state>& s, F& f, A&&... a)
{
    if constexpr (std::is_void_v<R>) { if (!s || !s->enter()) { return std::optional<score::cpp::blank>{}; } vshim_scope_guard g{s.get()}; f(std::forward<A>(a)...); return std::optional<score::cpp::blank>{score::cpp::blank{}}; }
    else { if (!s || !s->enter()) { return std::optional<R>{}; } vshim_scope_guard g{s.get()}; return std::optional<R>{f(std::forward<A>(a)...)}; }
}
}}
#include "score/blank.hpp"
namespace score { namespace safecpp {
template <typename Sig> class MoveOnlyScopedFunction;
template <typename R, typename... A> class MoveOnlyScopedFunction<R(A...)>
{
  public:
    MoveOnlyScopedFunction() = default;
    MoveOnlyScopedFunction(std::nullptr_t) {}
    template <typename X, typename F, typename = std::enable_if_t<std::is_invocable_v<std::decay_t<F>&, A...>>> MoveOnlyScopedFunction(const Scope<X>& s, F&& f) : s_(s.vshim_state()), f_(std::forward<F>(f)) {}
    MoveOnlyScopedFunction(MoveOnlyScopedFunction&&) noexcept = default;
    MoveOnlyScopedFunction& operator=(MoveOnlyScopedFunction&&) noexcept = default;
    auto operator()(A... a) { return vshim_scoped_call<R>(s_, f_, std::forward<A>(a)...); }
    auto operator()(A... a) const { return vshim_scoped_call<R>(s_, f_, std::forward<A>(a)...); }
    explicit operator bool() const noexcept { return static_cast<bool>(f_); }
    friend bool operator==(const MoveOnlyScopedFunction& f, std::nullptr_t) { return !f.f_; }
    friend bool operator!=(const MoveOnlyScopedFunction& f, std::nullptr_t) { return static_cast<bool>(f.f_); }
  private:
    std::shared_ptr<vshim_scope_state> s_{}; score::cpp::move_only_function<R(A...)> f_{};
};
template <typename R, typename... A> class MoveOnlyScopedFunction<R(A...) const> : public MoveOnlyScopedFunction<R(A...)> { public: using MoveOnlyScopedFunction<R(A...)>::MoveOnlyScopedFunction; };
}}
#endif
