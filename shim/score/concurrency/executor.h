#ifndef VSHIM_EXECUTOR_H
#define VSHIM_EXECUTOR_H
#include "score/blank.hpp"
#include "score/callback.hpp"
#include "score/memory.hpp"
#include "score/memory_resource.hpp"
#include "score/result/result.h"
#include "score/stop_token.hpp"
#include <atomic>
#include <condition_variable>
#include <deque>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <thread>
#include <tuple>
#include <vector>
namespace score { namespace concurrency {
struct vshim_task_state { std::mutex m; std::condition_variable c; bool done{false}; bool ok{true}; score::cpp::stop_source ss; };
// A task which is dropped without having been run is over, too.
struct vshim_task_end { std::shared_ptr<vshim_task_state> s; bool ran{false}; ~vshim_task_end() { if (s) { std::lock_guard<std::mutex> l(s->m); if (!ran) { s->ok = false; } s->done = true; s->c.notify_all(); } } };
template <typename R> bool vshim_went_well(const R& r) { if constexpr (std::is_same_v<R, score::ResultBlank> || std::is_same_v<R, score::Result<void>>) { return r.has_value(); } else { return true; } }
enum class vshim_task_error : score::result::ErrorCode { kFailed };
class vshim_task_domain final : public score::result::ErrorDomain { public: std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "task failed or was not run"; } };
inline score::result::Error MakeError(const vshim_task_error c, const std::string_view m = "") { static const vshim_task_domain d{}; return {static_cast<score::result::ErrorCode>(c), d, m}; }
template <typename T> class TaskResult
{
  public:
    TaskResult() = default; explicit TaskResult(std::shared_ptr<vshim_task_state> s) : s_(std::move(s)) {}
    TaskResult(TaskResult&&) noexcept = default; TaskResult& operator=(TaskResult&&) noexcept = default;
    void Abort() { if (s_) { s_->ss.request_stop(); } }
    score::ResultBlank Wait() { if (s_) { std::unique_lock<std::mutex> l(s_->m); s_->c.wait(l, [this] { return s_->done; }); } return score::cpp::blank{}; }
    score::ResultBlank Get() { (void)Wait(); if (s_ && !s_->ok) { return score::MakeUnexpected(vshim_task_error::kFailed); } return score::cpp::blank{}; }
    bool Valid() const noexcept { return static_cast<bool>(s_); }
  private:
    std::shared_ptr<vshim_task_state> s_{};
};
class Task { public: virtual ~Task() = default; virtual void operator()(const score::cpp::stop_token) = 0; };
struct SimpleTaskFactory { template <typename F, typename... A> static std::unique_ptr<Task> Make(score::cpp::pmr::memory_resource*, F&& f, A&&... a) { return make(std::forward<F>(f), std::forward<A>(a)...); } template <typename F, typename... A> static std::unique_ptr<Task> Make(F&& f, A&&... a) { return make(std::forward<F>(f), std::forward<A>(a)...); }
  private: template <typename F> struct T1 : Task { F f; explicit T1(F g) : f(std::move(g)) {} void operator()(const score::cpp::stop_token t) override { f(t); } };
  template <typename F, typename... A> static std::unique_ptr<Task> make(F&& f, A&&... a) { auto g = [fn = std::decay_t<F>(std::forward<F>(f)), tp = std::tuple<std::decay_t<A>...>(std::forward<A>(a)...)](score::cpp::stop_token t) mutable { std::apply([&](auto&... x) { std::invoke(fn, t, std::move(x)...); }, tp); }; return std::make_unique<T1<decltype(g)>>(std::move(g)); } };
class Executor
{
  public:
    virtual ~Executor() = default;
    template <typename F, typename... A> void Post(F&& f, A&&... a) { enqueue(wrap(nullptr, std::forward<F>(f), std::forward<A>(a)...)); }
    void Post(std::unique_ptr<Task> t) { std::shared_ptr<Task> s(std::move(t)); auto ss = ss_; enqueue([s, ss]() { (*s)(ss.get_token()); }); }
    template <typename F, typename... A> auto Submit(F&& f, A&&... a) { auto st = std::make_shared<vshim_task_state>(); tasks_.push_back(st); if (ss_.stop_requested()) { st->ss.request_stop(); } enqueue(wrap(st, std::forward<F>(f), std::forward<A>(a)...)); return TaskResult<void>{st}; }
    void Enqueue(std::unique_ptr<Task> t) { Post(std::move(t)); }
    virtual std::size_t MaxConcurrencyLevel() const noexcept { return 1U; }
    virtual bool ShutdownRequested() const noexcept { return false; }
    virtual void Shutdown() noexcept {}
  protected:
    virtual void enqueue(std::function<void()> f) = 0;
    void StopTasks() { ss_.request_stop(); for (auto& t : tasks_) { if (auto s = t.lock()) { s->ss.request_stop(); } } }
    score::cpp::stop_source ss_{};
  private:
    std::vector<std::weak_ptr<vshim_task_state>> tasks_{};
    template <typename F, typename... A> std::function<void()> wrap(std::shared_ptr<vshim_task_state> st, F&& f, A&&... a)
    {
        auto fn = std::make_shared<std::decay_t<F>>(std::forward<F>(f));
        auto tp = std::make_shared<std::tuple<std::decay_t<A>...>>(std::forward<A>(a)...);
        auto ss = st ? st->ss : ss_;
        auto end = std::make_shared<vshim_task_end>(); end->s = st;
        return [fn, tp, end, ss]() {
            bool ok = true;
            std::apply([&](auto&... x) {
                using R = std::invoke_result_t<std::decay_t<F>&, score::cpp::stop_token, decltype(std::move(x))...>;
                if constexpr (std::is_void_v<R>) { std::invoke(*fn, ss.get_token(), std::move(x)...); } else { ok = vshim_went_well(std::invoke(*fn, ss.get_token(), std::move(x)...)); }
            }, *tp);
            end->ran = ok;
            if (end->s) { auto s = std::move(end->s); end->s = nullptr; std::lock_guard<std::mutex> l(s->m); s->ok = ok; s->done = true; s->c.notify_all(); }
        };
    }
};
}}
#endif
