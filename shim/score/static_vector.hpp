#ifndef VSHIM_STATIC_VECTOR_HPP
#define VSHIM_STATIC_VECTOR_HPP
#include "score/assert.hpp"
#include <vector>
namespace score { namespace cpp {
template <typename T, std::size_t N> class static_vector : public std::vector<T>
{
  public:
    using B = std::vector<T>;
    static_vector() { B::reserve(N); }
    template <typename... A, typename = std::enable_if_t<std::is_constructible_v<B, A...>>> explicit static_vector(A&&... a) : B(std::forward<A>(a)...) { B::reserve(N); }
    static_vector(std::initializer_list<T> l) : B(l) { B::reserve(N); }
    void push_back(T v) { VSHIM_ASSERT2(B::size() < N, "static_vector full"); B::push_back(std::move(v)); }
    template <typename... A> T& emplace_back(A&&... a) { VSHIM_ASSERT2(B::size() < N, "static_vector full"); return B::emplace_back(std::forward<A>(a)...); }
    constexpr std::size_t capacity() const noexcept { return N; }
    static constexpr std::size_t max_size() noexcept { return N; }
};
}}
#endif
