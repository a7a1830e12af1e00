// Force-included (-include) into every translation unit of the code under test: replaces std synchronisation
// primitives by schedulable ones. Standard headers come first so that only user code sees the replacements.
#ifndef VSCHED_PRELUDE_H
#define VSCHED_PRELUDE_H
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <exception>
#include <forward_list>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <ios>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <memory_resource>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <ratio>
#include <regex>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <pthread.h>
#include "vsched.h"
#ifdef VSCHED_EXTRA_PRELUDE
#include VSCHED_EXTRA_PRELUDE
#endif

namespace std {
template <class T>
class vatomic {
    std::atomic<T> a_;
    using mo = std::memory_order;
    static std::uint64_t W(T v) noexcept { std::uint64_t r = 0; std::memcpy(&r, &v, sizeof(T) < 8 ? sizeof(T) : 8); return r; }
    void Obs(T o, T n) const noexcept { vsched::Observe(this, sizeof(T), W(o), W(n)); }
    static bool Acq(mo m) noexcept { return m == mo::memory_order_seq_cst || m == mo::memory_order_acq_rel || m == mo::memory_order_acquire || m == mo::memory_order_consume; }
    static bool Rel(mo m) noexcept { return m == mo::memory_order_seq_cst || m == mo::memory_order_acq_rel || m == mo::memory_order_release; }
    void Rmw(mo m) const noexcept { if (Acq(m)) vsched::SyncAcquire(this); if (Rel(m)) vsched::SyncRelease(this, true); }
    static mo FailOrder(mo m) noexcept { return m == mo::memory_order_acq_rel ? mo::memory_order_acquire : m == mo::memory_order_release ? mo::memory_order_relaxed : m; }
  public:
    using value_type = T;
    static constexpr bool is_always_lock_free = std::atomic<T>::is_always_lock_free;
    vatomic() noexcept = default;
    constexpr vatomic(T v) noexcept : a_(v) {}
    vatomic(const vatomic&) = delete;
    vatomic& operator=(const vatomic&) = delete;
    bool is_lock_free() const noexcept { return a_.is_lock_free(); }
    T load(mo m = std::memory_order_seq_cst) const noexcept { vsched::Point(vsched::Op::kLoad, this); if (Acq(m)) vsched::SyncAcquire(this); return a_.load(); }
    void store(T v, mo m = std::memory_order_seq_cst) noexcept {
        vsched::Point(vsched::Op::kStore, this); if (Rel(m)) vsched::SyncRelease(this, false); else vsched::SyncRelaxedStore(this);
        const T o = a_.load(); a_.store(v); Obs(o, v); }
    T exchange(T v, mo m = std::memory_order_seq_cst) noexcept {
        vsched::Point(vsched::Op::kRmw, this); Rmw(m); const T o = a_.exchange(v); Obs(o, v); return o; }
    bool compare_exchange_strong(T& e, T d, mo ok, mo fail) noexcept {
        vsched::Point(vsched::Op::kRmw, this); const T o = e; const bool r = a_.compare_exchange_strong(e, d);
        if (r) { Rmw(ok); Obs(o, d); } else if (Acq(fail)) vsched::SyncAcquire(this); return r; }
    bool compare_exchange_strong(T& e, T d, mo m = std::memory_order_seq_cst) noexcept { return compare_exchange_strong(e, d, m, FailOrder(m)); }
    bool compare_exchange_weak(T& e, T d, mo ok, mo fail) noexcept { return compare_exchange_strong(e, d, ok, fail); }
    bool compare_exchange_weak(T& e, T d, mo m = std::memory_order_seq_cst) noexcept { return compare_exchange_strong(e, d, m, FailOrder(m)); }
    template <class U = T> T fetch_add(U v, mo m = std::memory_order_seq_cst) noexcept {
        vsched::Point(vsched::Op::kRmw, this); Rmw(m); const T o = a_.fetch_add(v); Obs(o, a_.load()); return o; }
    template <class U = T> T fetch_sub(U v, mo m = std::memory_order_seq_cst) noexcept {
        vsched::Point(vsched::Op::kRmw, this); Rmw(m); const T o = a_.fetch_sub(v); Obs(o, a_.load()); return o; }
    T fetch_and(T v, mo m = std::memory_order_seq_cst) noexcept {
        vsched::Point(vsched::Op::kRmw, this); Rmw(m); const T o = a_.fetch_and(v); Obs(o, a_.load()); return o; }
    T fetch_or(T v, mo m = std::memory_order_seq_cst) noexcept {
        vsched::Point(vsched::Op::kRmw, this); Rmw(m); const T o = a_.fetch_or(v); Obs(o, a_.load()); return o; }
    T operator=(T v) noexcept { store(v); return v; }
    operator T() const noexcept { return load(); }
    T operator++() noexcept { return static_cast<T>(fetch_add(1) + 1); }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--() noexcept { return static_cast<T>(fetch_sub(1) - 1); }
    T operator--(int) noexcept { return fetch_sub(1); }
    template <class U> T operator+=(U v) noexcept { return static_cast<T>(fetch_add(v) + v); }
    template <class U> T operator-=(U v) noexcept { return static_cast<T>(fetch_sub(v) - v); }
};
static_assert(sizeof(vatomic<std::uint64_t>) == 8 && sizeof(vatomic<bool>) == 1, "layout");

class vatomic_flag {
    bool v_{false};
  public:
    vatomic_flag() noexcept = default;
    constexpr vatomic_flag(bool b) noexcept : v_(b) {}
    bool test_and_set(std::memory_order = std::memory_order_seq_cst) noexcept { vsched::Point(vsched::Op::kRmw, this); const bool o = v_; v_ = true; return o; }
    void clear(std::memory_order = std::memory_order_seq_cst) noexcept { vsched::Point(vsched::Op::kStore, this); v_ = false; }
};

class vmutex {
    bool locked_{false};
    int owner_{-2};
  public:
    constexpr vmutex() noexcept = default;
    vmutex(const vmutex&) = delete;
    vmutex& operator=(const vmutex&) = delete;
    void lock() { vsched::Point(vsched::Op::kLock, this); if (locked_) vsched::BlockUntil([this] { return !locked_; }, -1); locked_ = true; owner_ = vsched::CurrentFiber(); vsched::SyncAcquire(this); }
    bool try_lock() { vsched::Point(vsched::Op::kLock, this); if (locked_) return false; locked_ = true; owner_ = vsched::CurrentFiber(); vsched::SyncAcquire(this); return true; }
    void unlock() { vsched::SyncRelease(this, true); locked_ = false; owner_ = -2; vsched::Point(vsched::Op::kUnlock, this); }
    bool vlocked() const { return locked_; }
};
class vrecursive_mutex {
    int depth_{0};
    int owner_{-2};
  public:
    constexpr vrecursive_mutex() noexcept = default;
    void lock() { vsched::Point(vsched::Op::kLock, this); const int me = vsched::CurrentFiber();
        if (depth_ > 0 && owner_ != me) vsched::BlockUntil([this] { return depth_ == 0; }, -1); owner_ = me; ++depth_; vsched::SyncAcquire(this); }
    bool try_lock() { vsched::Point(vsched::Op::kLock, this); const int me = vsched::CurrentFiber(); if (depth_ > 0 && owner_ != me) return false; owner_ = me; ++depth_; vsched::SyncAcquire(this); return true; }
    void unlock() { vsched::SyncRelease(this, true); if (--depth_ == 0) owner_ = -2; vsched::Point(vsched::Op::kUnlock, this); }
};
class vshared_mutex {
    int readers_{0};
    bool writer_{false};
  public:
    vshared_mutex() noexcept = default;
    void lock() { vsched::Point(vsched::Op::kLock, this); if (writer_ || readers_) vsched::BlockUntil([this] { return !writer_ && readers_ == 0; }, -1); writer_ = true; vsched::SyncAcquire(this); }
    bool try_lock() { vsched::Point(vsched::Op::kLock, this); if (writer_ || readers_) return false; writer_ = true; vsched::SyncAcquire(this); return true; }
    void unlock() { vsched::SyncRelease(this, true); writer_ = false; vsched::Point(vsched::Op::kUnlock, this); }
    void lock_shared() { vsched::Point(vsched::Op::kLock, this); if (writer_) vsched::BlockUntil([this] { return !writer_; }, -1); ++readers_; vsched::SyncAcquire(this); }
    bool try_lock_shared() { vsched::Point(vsched::Op::kLock, this); if (writer_) return false; ++readers_; vsched::SyncAcquire(this); return true; }
    void unlock_shared() { vsched::SyncRelease(this, true); --readers_; vsched::Point(vsched::Op::kUnlock, this); }
};
struct vsteady_clock {
    using duration = std::chrono::nanoseconds;
    using rep = duration::rep;
    using period = duration::period;
    using time_point = std::chrono::time_point<std::chrono::steady_clock>;
    static constexpr bool is_steady = true;
    static time_point now() noexcept { return time_point(std::chrono::steady_clock::duration(vsched::NowNs())); }
};
class vcondition_variable {
    std::uint64_t seq_{0};
    std::uint64_t pending_one_{0};
    std::deque<std::uint64_t> waiters_;
    std::uint64_t next_{0};
    template <class L> bool DoWait(L& l, std::int64_t deadline) {
        const std::uint64_t id = next_++;
        waiters_.push_back(id);
        l.unlock();
        const bool r = vsched::BlockUntil([this, id] { return std::find(waiters_.begin(), waiters_.end(), id) == waiters_.end(); }, deadline);
        if (!r) { auto it = std::find(waiters_.begin(), waiters_.end(), id); if (it != waiters_.end()) waiters_.erase(it); }
        l.lock();
        return r;
    }
    template <class C, class D> static std::int64_t Ns(const std::chrono::time_point<C, D>& t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }
  public:
    vcondition_variable() = default;
    vcondition_variable(const vcondition_variable&) = delete;
    void notify_one() noexcept { vsched::Point(vsched::Op::kWait, this); if (!waiters_.empty()) waiters_.pop_front(); }
    void notify_all() noexcept { vsched::Point(vsched::Op::kWait, this); waiters_.clear(); }
    template <class L> void wait(L& l) { DoWait(l, -1); }
    template <class L, class P> void wait(L& l, P p) { while (!p()) DoWait(l, -1); }
    template <class L, class C, class D> std::cv_status wait_until(L& l, const std::chrono::time_point<C, D>& t) { return DoWait(l, Ns(t)) ? std::cv_status::no_timeout : std::cv_status::timeout; }
    template <class L, class C, class D, class P> bool wait_until(L& l, const std::chrono::time_point<C, D>& t, P p) { while (!p()) { if (!DoWait(l, Ns(t))) return p(); } return true; }
    template <class L, class R, class Pd> std::cv_status wait_for(L& l, const std::chrono::duration<R, Pd>& d) { return DoWait(l, vsched::NowNs() + std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) ? std::cv_status::no_timeout : std::cv_status::timeout; }
    template <class L, class R, class Pd, class P> bool wait_for(L& l, const std::chrono::duration<R, Pd>& d, P p) { const auto dl = vsched::NowNs() + std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); while (!p()) { if (!DoWait(l, dl)) return p(); } return true; }
};
using vcondition_variable_any = vcondition_variable;
class vthread {
    int id_{-1};
  public:
    using id = int;
    vthread() noexcept = default;
    template <class F, class... A> explicit vthread(F&& f, A&&... a) {
        auto b = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
        id_ = vsched::Current()->Spawn([b]() mutable { std::apply([](auto& fn, auto&... args) { std::invoke(std::move(fn), std::move(args)...); }, *b); });
        vsched::Point(vsched::Op::kUser, this);
    }
    vthread(vthread&& o) noexcept : id_(std::exchange(o.id_, -1)) {}
    vthread& operator=(vthread&& o) noexcept { if (joinable()) std::terminate(); id_ = std::exchange(o.id_, -1); return *this; }
    vthread(const vthread&) = delete;
    ~vthread() { if (joinable()) std::terminate(); }
    bool joinable() const noexcept { return id_ >= 0; }
    void join() { const int i = id_; vsched::BlockUntil([i] { return vsched::Current()->Finished(i) || vsched::Current()->Crashed(i); }, -1); id_ = -1; }
    void detach() { id_ = -1; }
    id get_id() const noexcept { return id_; }
    pthread_t native_handle() { return pthread_self(); }
    static unsigned hardware_concurrency() noexcept { return 4; }
};
namespace vthis_thread {
inline int get_id() noexcept { return vsched::CurrentFiber(); }
inline void yield() noexcept { vsched::Point(vsched::Op::kUser, nullptr); }
template <class R, class P> void sleep_for(const std::chrono::duration<R, P>& d) { vsched::SleepNs(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()); }
template <class C, class D> void sleep_until(const std::chrono::time_point<C, D>& t) { const auto n = std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); if (n > vsched::NowNs()) vsched::SleepNs(n - vsched::NowNs()); }
}
namespace chrono { using vsteady_clock = ::std::vsteady_clock; }

template <class T> class vpromise;
template <class T> struct vshared_state { bool ready{false}; bool broken{false}; std::optional<T> v; };
template <> struct vshared_state<void> { bool ready{false}; bool broken{false}; };
template <class T> class vfuture {
    std::shared_ptr<vshared_state<T>> s_;
  public:
    vfuture() = default;
    explicit vfuture(std::shared_ptr<vshared_state<T>> s) : s_(std::move(s)) {}
    bool valid() const { return s_ != nullptr; }
    void wait() const { auto s = s_; vsched::BlockUntil([s] { return s->ready; }, -1); }
    template <class R, class P> std::future_status wait_for(const std::chrono::duration<R, P>& d) const { auto s = s_; return vsched::BlockUntil([s] { return s->ready; }, vsched::NowNs() + std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) ? std::future_status::ready : std::future_status::timeout; }
    T get() { wait(); auto s = std::move(s_); if constexpr (!std::is_void_v<T>) return std::move(*s->v); }
};
template <class T> class vpromise {
    std::shared_ptr<vshared_state<T>> s_{std::make_shared<vshared_state<T>>()};
  public:
    vpromise() = default;
    vfuture<T> get_future() { return vfuture<T>(s_); }
    template <class U = T, class = std::enable_if_t<!std::is_void_v<U>>> void set_value(U v) { vsched::Point(vsched::Op::kUser, this); s_->v = std::move(v); s_->ready = true; }
    template <class U = T, class = std::enable_if_t<std::is_void_v<U>>> void set_value() { vsched::Point(vsched::Op::kUser, this); s_->ready = true; }
};
}  // namespace std

namespace std {
template <class T> inline void vatomic_init(vatomic<T>* a, T v) noexcept { a->store(v); }
using vatomic_bool = vatomic<bool>;
}
#define atomic vatomic
#define atomic_init vatomic_init
#define atomic_bool vatomic_bool
#define atomic_flag vatomic_flag
#define atomic_uint64_t vatomic<std::uint64_t>
#define atomic_uint32_t vatomic<std::uint32_t>
#define atomic_size_t vatomic<std::size_t>
#define mutex vmutex
#define recursive_mutex vrecursive_mutex
#define shared_mutex vshared_mutex
#define shared_timed_mutex vshared_mutex
#define condition_variable vcondition_variable
#define condition_variable_any vcondition_variable_any
#define thread vthread
#define this_thread vthis_thread
#define steady_clock vsteady_clock
#define promise vpromise
#define future vfuture
#endif
