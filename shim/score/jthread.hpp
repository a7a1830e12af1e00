#ifndef VSHIM_JTHREAD_HPP
#define VSHIM_JTHREAD_HPP
#include "score/stop_token.hpp"
#include <thread>
namespace score { namespace cpp {
class jthread
{
  public:
    struct name_hint { explicit name_hint(const char*) {} explicit name_hint(const std::string&) {} };
    struct stack_size_hint { explicit stack_size_hint(std::size_t) {} };
    jthread() noexcept : ss_(nostopstate) {}
    template <typename F, typename... A, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, jthread>&& !std::is_same_v<std::decay_t<F>, name_hint>>> explicit jthread(F&& f, A&&... a) { start(std::forward<F>(f), std::forward<A>(a)...); }
    template <typename F, typename... A> jthread(const name_hint&, F&& f, A&&... a) { start(std::forward<F>(f), std::forward<A>(a)...); }
    jthread(jthread&&) noexcept = default;
    jthread& operator=(jthread&& o) noexcept { fin(); t_ = std::move(o.t_); ss_ = std::move(o.ss_); return *this; }
    ~jthread() { fin(); }
    bool joinable() const noexcept { return t_.joinable(); }
    void join() { t_.join(); }
    void detach() { t_.detach(); }
    bool request_stop() noexcept { return ss_.request_stop(); }
    stop_source get_stop_source() noexcept { return ss_; }
    stop_token get_stop_token() const noexcept { return ss_.get_token(); }
    std::thread::id get_id() const noexcept { return t_.get_id(); }
    auto native_handle() { return t_.native_handle(); }
  private:
    void fin() { if (t_.joinable()) { ss_.request_stop(); t_.join(); } }
    template <typename F, typename... A> void start(F&& f, A&&... a) { if constexpr (std::is_invocable_v<std::decay_t<F>, stop_token, std::decay_t<A>...>) { t_ = std::thread(std::forward<F>(f), ss_.get_token(), std::forward<A>(a)...); } else { t_ = std::thread(std::forward<F>(f), std::forward<A>(a)...); } }
    stop_source ss_{}; std::thread t_{};
};
}}
#endif
