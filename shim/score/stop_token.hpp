#ifndef VSHIM_STOP_TOKEN_HPP
#define VSHIM_STOP_TOKEN_HPP
#include <atomic>
#include <condition_variable>
#include <functional>
#include <list>
#include <memory>
#include <mutex>
#include <thread>
namespace score { namespace cpp {
struct nostopstate_t {}; inline constexpr nostopstate_t nostopstate{};
namespace vshim_stop { struct cb { virtual ~cb() = default; virtual void run() = 0; };
struct state { std::atomic<bool> req{false}; std::recursive_mutex m; std::list<cb*> cbs; }; }
class stop_token
{
  public:
    stop_token() noexcept = default;
    explicit stop_token(std::shared_ptr<vshim_stop::state> s) : s_(std::move(s)) {}
    bool stop_requested() const noexcept { return s_ && s_->req.load(); }
    bool stop_possible() const noexcept { return static_cast<bool>(s_); }
    void swap(stop_token& o) noexcept { s_.swap(o.s_); }
    friend bool operator==(const stop_token& a, const stop_token& b) { return a.s_ == b.s_; }
    std::shared_ptr<vshim_stop::state> s_{};
};
class stop_source
{
  public:
    stop_source() : s_(std::make_shared<vshim_stop::state>()) {}
    explicit stop_source(nostopstate_t) noexcept : s_() {}
    stop_token get_token() const noexcept { return stop_token{s_}; }
    bool stop_requested() const noexcept { return s_ && s_->req.load(); }
    bool stop_possible() const noexcept { return static_cast<bool>(s_); }
    bool request_stop() noexcept { if (!s_) { return false; } std::unique_lock<std::recursive_mutex> l(s_->m); if (s_->req.exchange(true)) { return false; } while (!s_->cbs.empty()) { auto* c = s_->cbs.front(); s_->cbs.pop_front(); c->run(); } return true; }
  private:
    std::shared_ptr<vshim_stop::state> s_;
};
template <typename F> class stop_callback_t : private vshim_stop::cb
{
  public:
    template <typename G> stop_callback_t(stop_token t, G&& g) : t_(std::move(t)), f_(std::forward<G>(g)) { if (t_.s_) { std::unique_lock<std::recursive_mutex> l(t_.s_->m); if (t_.s_->req.load()) { l.unlock(); f_(); } else { t_.s_->cbs.push_back(this); } } }
    ~stop_callback_t() override { if (t_.s_) { std::unique_lock<std::recursive_mutex> l(t_.s_->m); t_.s_->cbs.remove(this); } }
    stop_callback_t(const stop_callback_t&) = delete; stop_callback_t& operator=(const stop_callback_t&) = delete;
  private:
    void run() override { f_(); }
    stop_token t_; F f_;
};
class stop_callback : public stop_callback_t<std::function<void()>> { public: template <typename G> stop_callback(stop_token t, G&& g) : stop_callback_t<std::function<void()>>(std::move(t), std::function<void()>(wrap(std::forward<G>(g)))) {}
  private: template <typename G> static auto wrap(G&& g) { auto p = std::make_shared<std::decay_t<G>>(std::forward<G>(g)); return [p]() { (*p)(); }; } };
}}
#endif
