#ifndef VSHIM_NOTIFICATION_H
#define VSHIM_NOTIFICATION_H
#include "score/stop_token.hpp"
#include <chrono>
#include <condition_variable>
#include <mutex>
namespace score { namespace concurrency {
class Notification
{
  public:
    void notify() { std::lock_guard<std::mutex> l(m_); n_ = true; c_.notify_all(); }
    void reset() { std::lock_guard<std::mutex> l(m_); n_ = false; }
    void wait() { std::unique_lock<std::mutex> l(m_); c_.wait(l, [this] { return n_; }); }
    bool waitWithAbort(const score::cpp::stop_token& t) { std::unique_lock<std::mutex> l(m_); while (!n_ && !t.stop_requested()) { c_.wait_for(l, std::chrono::milliseconds(2)); } return n_; }
    template <class R, class P> bool waitForWithAbort(const std::chrono::duration<R, P>& d, const score::cpp::stop_token& t) { auto e = std::chrono::steady_clock::now() + d; std::unique_lock<std::mutex> l(m_); while (!n_ && !t.stop_requested() && std::chrono::steady_clock::now() < e) { c_.wait_for(l, std::chrono::milliseconds(1)); } return n_; }
    bool notified() { std::lock_guard<std::mutex> l(m_); return n_; }
  private:
    std::mutex m_{}; std::condition_variable c_{}; bool n_{false};
};
}}
#endif
