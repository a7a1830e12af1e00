#ifndef VSHIM_COPYABLE_SCOPED_FUNCTION_H
#define VSHIM_COPYABLE_SCOPED_FUNCTION_H
#include "score/language/safecpp/scoped_function/move_only_scoped_function.h"
#include <functional>
namespace score { namespace safecpp {
template <typename Sig> class CopyableScopedFunction;
template <typename R, typename... A> class CopyableScopedFunction<R(A...)>
{
  public:
    CopyableScopedFunction() = default;
    CopyableScopedFunction(std::nullptr_t) {}
    template <typename X, typename F, typename = std::enable_if_t<std::is_invocable_v<std::decay_t<F>&, A...>>> CopyableScopedFunction(const Scope<X>& s, F&& f) : s_(s.vshim_state()), f_(std::forward<F>(f)) {}
    auto operator()(A... a) { return vshim_scoped_call<R>(s_, f_, std::forward<A>(a)...); }
    auto operator()(A... a) const { return vshim_scoped_call<R>(s_, f_, std::forward<A>(a)...); }
    explicit operator bool() const noexcept { return static_cast<bool>(f_); }
  private:
    std::shared_ptr<vshim_scope_state> s_{}; mutable std::function<R(A...)> f_{};
};
template <typename R, typename... A> class CopyableScopedFunction<R(A...) const> : public CopyableScopedFunction<R(A...)> { public: using CopyableScopedFunction<R(A...)>::CopyableScopedFunction; };
}}
#endif
