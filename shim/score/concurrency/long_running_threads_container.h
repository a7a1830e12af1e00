#ifndef VSHIM_LRTC_H
#define VSHIM_LRTC_H
#include "score/concurrency/executor.h"
#include <list>
namespace score { namespace concurrency {
class LongRunningThreadsContainer : public Executor
{
  public:
    ~LongRunningThreadsContainer() override { Shutdown(); }
    void Shutdown() noexcept override { StopTasks(); std::list<std::thread> t; { std::lock_guard<std::mutex> l(m_); stop_ = true; t.swap(t_); } for (auto& x : t) { if (x.joinable()) { x.join(); } } }
    bool ShutdownRequested() const noexcept override { return ss_.stop_requested(); }
  protected:
    void enqueue(std::function<void()> f) override { std::lock_guard<std::mutex> l(m_); if (!stop_) { t_.emplace_back(std::move(f)); } }
  private:
    std::mutex m_{}; bool stop_{false}; std::list<std::thread> t_{};
};
}}
#endif
