#ifndef VSHIM_SPAN_HPP
#define VSHIM_SPAN_HPP
#include "score/assert.hpp"
#include <array>
#include <cstddef>
#include <iterator>
#include <type_traits>
#include <vector>
namespace score { namespace cpp {
inline constexpr std::size_t dynamic_extent = static_cast<std::size_t>(-1);
template <typename T, std::size_t Ext = dynamic_extent> class span
{
  public:
    using element_type = T; using value_type = std::remove_cv_t<T>; using size_type = std::size_t; using index_type = std::size_t; using difference_type = std::ptrdiff_t;
    using pointer = T*; using const_pointer = const T*; using reference = T&; using const_reference = const T&; using iterator = T*; using const_iterator = const T*; using reverse_iterator = std::reverse_iterator<iterator>;
    constexpr span() noexcept : p_(nullptr), n_(0U) {}
    constexpr span(T* p, std::size_t n) noexcept : p_(p), n_(n) {}
    constexpr span(T* b, T* e) noexcept : p_(b), n_(static_cast<std::size_t>(e - b)) {}
    template <std::size_t N> constexpr span(T (&a)[N]) noexcept : p_(a), n_(N) {}
    template <typename U, std::size_t N, typename = std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>>> constexpr span(std::array<U, N>& a) noexcept : p_(a.data()), n_(N) {}
    template <typename U, std::size_t N, typename = std::enable_if_t<std::is_convertible_v<const U (*)[], T (*)[]>>> constexpr span(const std::array<U, N>& a) noexcept : p_(a.data()), n_(N) {}
    template <typename U, std::size_t E2, typename = std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>>> constexpr span(const span<U, E2>& o) noexcept : p_(o.data()), n_(o.size()) {}
    template <typename C, typename = decltype(std::declval<C&>().data()), typename = std::enable_if_t<std::is_convertible_v<std::remove_pointer_t<decltype(std::declval<C&>().data())> (*)[], T (*)[]>>> constexpr span(C& c) : p_(c.data()), n_(static_cast<std::size_t>(c.size())) {}
    template <typename C, typename = decltype(std::declval<const C&>().data()), typename = std::enable_if_t<std::is_convertible_v<std::remove_pointer_t<decltype(std::declval<const C&>().data())> (*)[], T (*)[]>>, typename = void> constexpr span(const C& c) : p_(c.data()), n_(static_cast<std::size_t>(c.size())) {}
    constexpr T* data() const noexcept { return p_; }
    constexpr std::size_t size() const noexcept { return n_; }
    constexpr std::size_t size_bytes() const noexcept { return n_ * sizeof(T); }
    constexpr bool empty() const noexcept { return n_ == 0U; }
    constexpr T& operator[](std::size_t i) const { chk(i < n_); return p_[i]; }
    constexpr T& at(std::size_t i) const { chk(i < n_); return p_[i]; }
    constexpr T& front() const { chk(n_ > 0U); return p_[0]; }
    constexpr T& back() const { chk(n_ > 0U); return p_[n_ - 1U]; }
    constexpr T* begin() const noexcept { return p_; }
    constexpr T* end() const noexcept { return p_ + n_; }
    constexpr const T* cbegin() const noexcept { return p_; }
    constexpr const T* cend() const noexcept { return p_ + n_; }
    constexpr std::reverse_iterator<T*> rbegin() const noexcept { return std::reverse_iterator<T*>(end()); }
    constexpr std::reverse_iterator<T*> rend() const noexcept { return std::reverse_iterator<T*>(begin()); }
    constexpr span<T> first(std::size_t n) const { chk(n <= n_); return {p_, n}; }
    constexpr span<T> last(std::size_t n) const { chk(n <= n_); return {p_ + (n_ - n), n}; }
    constexpr span<T> subspan(std::size_t o, std::size_t n = dynamic_extent) const { chk(o <= n_ && (n == dynamic_extent || n <= n_ - o)); return {p_ + o, n == dynamic_extent ? n_ - o : n}; }
  private:
    static constexpr void chk(bool b) { if (!b) { vshim_assert_fail(__FILE__, __LINE__, "span", "index in range", "span access out of range"); } }
    T* p_; std::size_t n_;
};
template <typename T, std::size_t N> span(T (&)[N]) -> span<T>;
template <typename T, std::size_t N> span(std::array<T, N>&) -> span<T>;
template <typename T, std::size_t N> span(const std::array<T, N>&) -> span<const T>;
template <typename C> span(C&) -> span<std::remove_reference_t<decltype(*std::declval<C&>().data())>>;
template <typename C> span(const C&) -> span<std::remove_reference_t<decltype(*std::declval<const C&>().data())>>;
template <typename T> span(T*, std::size_t) -> span<T>;
template <typename C, typename I> constexpr decltype(auto) at(C&& c, I i) { return c.at(static_cast<std::size_t>(i)); }
template <typename T> constexpr T& at(span<T> s, std::size_t i) { return s.at(i); }
template <typename T> span<const std::byte> as_bytes(span<T> s) { return {reinterpret_cast<const std::byte*>(s.data()), s.size_bytes()}; }
}}
#endif
