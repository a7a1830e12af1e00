#ifndef VSHIM_NON_RELOCATABLE_VECTOR_H
#define VSHIM_NON_RELOCATABLE_VECTOR_H
#include "score/assert.hpp"
#include <cstddef>
#include <memory>
#include <utility>
namespace score { namespace containers {
template <typename T, typename Alloc = std::allocator<T>> class NonRelocatableVector
{
    using tr = std::allocator_traits<Alloc>;
  public:
    using value_type = T; using size_type = std::size_t; using iterator = T*; using const_iterator = const T*; using pointer = typename tr::pointer; using allocator_type = Alloc;
    explicit NonRelocatableVector(std::size_t cap, const Alloc& a = Alloc()) : a_(a), cap_(cap), n_(0U), p_(cap == 0U ? pointer(nullptr) : tr::allocate(a_, cap)) {}
    NonRelocatableVector(NonRelocatableVector&& o) noexcept : a_(o.a_), cap_(o.cap_), n_(o.n_), p_(o.p_) { o.p_ = nullptr; o.n_ = 0U; o.cap_ = 0U; }
    NonRelocatableVector(const NonRelocatableVector&) = delete; NonRelocatableVector& operator=(const NonRelocatableVector&) = delete;
    NonRelocatableVector& operator=(NonRelocatableVector&& o) noexcept { if (this != &o) { destroy(); cap_ = o.cap_; n_ = o.n_; p_ = o.p_; o.p_ = nullptr; o.n_ = 0U; o.cap_ = 0U; } return *this; }
    ~NonRelocatableVector() { destroy(); }
    template <typename... A> T& emplace_back(A&&... a) { VSHIM_ASSERT2(n_ < cap_, "NonRelocatableVector capacity exceeded"); tr::construct(a_, raw() + n_, std::forward<A>(a)...); ++n_; return raw()[n_ - 1U]; }
    void push_back(const T& t) { emplace_back(t); } void push_back(T&& t) { emplace_back(std::move(t)); }
    T& operator[](std::size_t i) { return at(i); } const T& operator[](std::size_t i) const { return at(i); }
    T& at(std::size_t i) { VSHIM_ASSERT2(i < n_, "index"); return raw()[i]; } const T& at(std::size_t i) const { VSHIM_ASSERT2(i < n_, "index"); return raw()[i]; }
    T* begin() noexcept { return raw(); } T* end() noexcept { return raw() + n_; } const T* begin() const noexcept { return raw(); } const T* end() const noexcept { return raw() + n_; }
    const T* cbegin() const noexcept { return raw(); } const T* cend() const noexcept { return raw() + n_; }
    T* data() noexcept { return raw(); } const T* data() const noexcept { return raw(); }
    T& front() { return at(0U); } T& back() { return at(n_ - 1U); }
    std::size_t size() const noexcept { return n_; } std::size_t capacity() const noexcept { return cap_; } bool empty() const noexcept { return n_ == 0U; }
    void clear() { for (std::size_t i = 0U; i < n_; ++i) { tr::destroy(a_, raw() + i); } n_ = 0U; }
  private:
    T* raw() const noexcept { if (cap_ == 0U) { return nullptr; } if constexpr (std::is_pointer_v<pointer>) { return p_; } else { return p_.get(); } }
    void destroy() { if (p_ != nullptr) { clear(); tr::deallocate(a_, p_, cap_); p_ = nullptr; } }
    Alloc a_; std::size_t cap_; std::size_t n_; pointer p_;
};
}}
#endif
