#ifndef VSHIM_SCOPE_H
#define VSHIM_SCOPE_H
#include <condition_variable>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <map>
namespace score { namespace safecpp {
// Expire() blocks until running executions of functions bound to the scope ended (recursive execution allowed).
struct vshim_scope_state { std::mutex m; std::condition_variable c; int active{0}; bool expired{false};
    bool enter() { std::lock_guard<std::mutex> l(m); if (expired) { return false; } ++active; return true; }
    void leave() { std::lock_guard<std::mutex> l(m); if (--active == 0) { c.notify_all(); } }
    void expire() { std::unique_lock<std::mutex> l(m); expired = true; c.wait(l, [this] { return active == 0; }); } };
template <typename X = void> class Scope
{
  public:
    Scope() : s_(std::make_shared<vshim_scope_state>()) {}
    Scope(Scope&& o) noexcept : s_(std::move(o.s_)) {}
    Scope& operator=(Scope&& o) noexcept { if (this != &o) { Expire(); s_ = std::move(o.s_); } return *this; }
    Scope(const Scope&) = delete;
    ~Scope() { Expire(); }
    void Expire() noexcept { if (s_) { s_->expire(); } }
    bool HasExpired() const noexcept { return !s_ || s_->expired; }
    std::shared_ptr<vshim_scope_state> vshim_state() const { return s_; }
  private:
    std::shared_ptr<vshim_scope_state> s_;
};
}}
#endif
