#ifndef VSHIM_DYNAMIC_ARRAY_H
#define VSHIM_DYNAMIC_ARRAY_H
#include "score/assert.hpp"
#include <cstddef>
#include <memory>
#include <utility>
namespace score { namespace containers {
// Fixed-size (after construction) array whose storage comes from an allocator with possibly fancy pointers.
template <typename T, typename Alloc = std::allocator<T>> class DynamicArray
{
    using tr = std::allocator_traits<Alloc>;
  public:
    using value_type = T; using size_type = std::size_t; using iterator = T*; using const_iterator = const T*; using reference = T&; using const_reference = const T&; using pointer = typename tr::pointer; using allocator_type = Alloc;
    explicit DynamicArray(const Alloc& a = Alloc()) : a_(a), n_(0U), p_(nullptr) {}
    explicit DynamicArray(std::size_t n, const Alloc& a = Alloc()) : a_(a), n_(n), p_(alloc(n)) { for (std::size_t i = 0U; i < n_; ++i) { tr::construct(a_, raw() + i); } }
    DynamicArray(std::size_t n, const T& v, const Alloc& a = Alloc()) : a_(a), n_(n), p_(alloc(n)) { for (std::size_t i = 0U; i < n_; ++i) { tr::construct(a_, raw() + i, v); } }
    DynamicArray(std::initializer_list<T> l, const Alloc& a = Alloc()) : a_(a), n_(l.size()), p_(alloc(l.size())) { std::size_t i = 0U; for (const auto& v : l) { tr::construct(a_, raw() + i++, v); } }
    DynamicArray(DynamicArray&& o) noexcept : a_(o.a_), n_(o.n_), p_(o.p_) { o.p_ = nullptr; o.n_ = 0U; }
    DynamicArray(const DynamicArray& o) : a_(o.a_), n_(o.n_), p_(alloc(o.n_)) { for (std::size_t i = 0U; i < n_; ++i) { tr::construct(a_, raw() + i, o[i]); } }
    DynamicArray& operator=(DynamicArray&& o) noexcept { if (this != &o) { destroy(); n_ = o.n_; p_ = o.p_; o.p_ = nullptr; o.n_ = 0U; } return *this; }
    DynamicArray& operator=(const DynamicArray&) = delete;
    ~DynamicArray() { destroy(); }
    T& operator[](std::size_t i) { chk(i); return raw()[i]; }
    const T& operator[](std::size_t i) const { chk(i); return raw()[i]; }
    T& at(std::size_t i) { chk(i); return raw()[i]; }
    const T& at(std::size_t i) const { chk(i); return raw()[i]; }
    T* begin() noexcept { return raw(); } T* end() noexcept { return raw() + n_; }
    const T* begin() const noexcept { return raw(); } const T* end() const noexcept { return raw() + n_; }
    const T* cbegin() const noexcept { return raw(); } const T* cend() const noexcept { return raw() + n_; }
    T* data() noexcept { return raw(); } const T* data() const noexcept { return raw(); }
    std::size_t size() const noexcept { return n_; }
    bool empty() const noexcept { return n_ == 0U; }
    T& front() { return (*this)[0]; } T& back() { return (*this)[n_ - 1U]; }
    Alloc get_allocator() const { return a_; }
  private:
    pointer alloc(std::size_t n) { return n == 0U ? pointer(nullptr) : tr::allocate(a_, n); }
    template <typename P> static T* to_raw(const P& p) { if (p == nullptr) { return nullptr; } if constexpr (std::is_pointer_v<P>) { return p; } else { return p.get(); } }
    T* raw() const noexcept { return n_ == 0U ? nullptr : to_raw(p_); }
    void chk(std::size_t i) const { VSHIM_ASSERT2(i < n_, "DynamicArray index out of range"); }
    void destroy() { if (p_ != nullptr) { for (std::size_t i = 0U; i < n_; ++i) { tr::destroy(a_, raw() + i); } tr::deallocate(a_, p_, n_); p_ = nullptr; n_ = 0U; } }
    Alloc a_; std::size_t n_; pointer p_;
};
}}
#endif
