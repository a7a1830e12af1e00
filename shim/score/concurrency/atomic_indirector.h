#ifndef VSHIM_ATOMIC_INDIRECTOR_H
#define VSHIM_ATOMIC_INDIRECTOR_H
#include <atomic>
#include <cstdlib>
namespace score { namespace concurrency {
template <typename T> class AtomicIndirectorReal
{
  public:
    static T fetch_add(std::atomic<T>& a, const T d, const std::memory_order o = std::memory_order_seq_cst) noexcept { return a.fetch_add(d, o); }
    static T fetch_sub(std::atomic<T>& a, const T d, const std::memory_order o = std::memory_order_seq_cst) noexcept { return a.fetch_sub(d, o); }
    static bool compare_exchange_weak(std::atomic<T>& a, T& e, const T d, const std::memory_order o = std::memory_order_seq_cst) noexcept { return a.compare_exchange_weak(e, d, o); }
    static bool compare_exchange_weak(std::atomic<T>& a, T& e, const T d, const std::memory_order s, const std::memory_order f) noexcept { return a.compare_exchange_weak(e, d, s, f); }
    static bool compare_exchange_strong(std::atomic<T>& a, T& e, const T d, const std::memory_order o = std::memory_order_seq_cst) noexcept { return a.compare_exchange_strong(e, d, o); }
    static bool compare_exchange_strong(std::atomic<T>& a, T& e, const T d, const std::memory_order s, const std::memory_order f) noexcept { return a.compare_exchange_strong(e, d, s, f); }
    static T load(const std::atomic<T>& a, const std::memory_order o = std::memory_order_seq_cst) noexcept { return a.load(o); }
    static void store(std::atomic<T>& a, const T v, const std::memory_order o = std::memory_order_seq_cst) noexcept { a.store(v, o); }
    static T exchange(std::atomic<T>& a, const T v, const std::memory_order o = std::memory_order_seq_cst) noexcept { return a.exchange(v, o); }
};
// The mock indirector exists only so that the sources' explicit instantiations compile; the harnesses never use it.
template <typename T> class AtomicIndirectorMock : public AtomicIndirectorReal<T> {};
}}
#endif
