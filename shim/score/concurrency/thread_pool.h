#ifndef VSHIM_THREAD_POOL_H
#define VSHIM_THREAD_POOL_H
#include "score/concurrency/executor.h"
#include <string>
namespace score { namespace concurrency {
class ThreadPool : public Executor
{
  public:
    explicit ThreadPool(std::size_t n, std::string = "") { for (std::size_t i = 0U; i < n; ++i) { t_.emplace_back([this] { run(); }); } }
    ~ThreadPool() override { Shutdown(); }
    void Shutdown() noexcept override { { std::lock_guard<std::mutex> l(m_); stop_ = true; } StopTasks(); c_.notify_all(); for (auto& t : t_) { if (t.joinable()) { t.join(); } } }
    bool ShutdownRequested() const noexcept override { return stop_; }
    std::size_t MaxConcurrencyLevel() const noexcept override { return t_.size(); }
  protected:
    void enqueue(std::function<void()> f) override { { std::lock_guard<std::mutex> l(m_); if (stop_) { return; } q_.push_back(std::move(f)); } c_.notify_one(); }
  private:
    void run() { for (;;) { std::function<void()> f; { std::unique_lock<std::mutex> l(m_); c_.wait(l, [this] { return stop_ || !q_.empty(); }); if (stop_) { return; } f = std::move(q_.front()); q_.pop_front(); } f(); } }
    std::mutex m_{}; std::condition_variable c_{}; std::deque<std::function<void()>> q_{}; std::atomic<bool> stop_{false}; std::vector<std::thread> t_{};
};
}}
#endif
