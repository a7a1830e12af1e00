#ifndef VSHIM_SCOPE_EXIT_H
#define VSHIM_SCOPE_EXIT_H
#include "score/callback.hpp"
#include <optional>
#include <utility>
namespace score { namespace utils {
template <typename H = score::cpp::move_only_function<void()>> class ScopeExit
{
  public:
    ScopeExit() noexcept = default;
    explicit ScopeExit(H h) noexcept : h_(std::move(h)), on_(true) {}
    template <typename F, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, ScopeExit> && !std::is_same_v<std::decay_t<F>, H> && std::is_constructible_v<H, F&&>>> ScopeExit(F&& f) noexcept : h_(H(std::forward<F>(f))), on_(true) {}
    ScopeExit(ScopeExit&& o) noexcept : h_(std::move(o.h_)), on_(o.on_) { o.on_ = false; o.h_.reset(); }
    ScopeExit& operator=(ScopeExit&& o) noexcept { if (this != &o) { run(); h_.reset(); if (o.h_.has_value()) { h_.emplace(std::move(*o.h_)); } on_ = o.on_; o.on_ = false; o.h_.reset(); } return *this; }
    ScopeExit(const ScopeExit&) = delete; ScopeExit& operator=(const ScopeExit&) = delete;
    ~ScopeExit() { run(); }
    void Release() noexcept { on_ = false; h_.reset(); }
  private:
    template <typename X> static auto nonempty(const X& x, int) -> decltype(static_cast<bool>(x)) { return static_cast<bool>(x); }
    template <typename X> static bool nonempty(const X&, long) { return true; }
    void run() { if (on_) { on_ = false; if (h_.has_value() && nonempty(*h_, 0)) { (*h_)(); } } }
    std::optional<H> h_{}; bool on_{false};
};
template <typename F> ScopeExit(F) -> ScopeExit<score::cpp::move_only_function<void()>>;
}}
#endif
