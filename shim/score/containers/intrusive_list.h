#ifndef VSHIM_INTRUSIVE_LIST_H
#define VSHIM_INTRUSIVE_LIST_H
#include "score/assert.hpp"
#include <cstddef>
#include <iterator>
namespace score { namespace containers {
struct vshim_default_tag {};
template <typename T, typename Tag> class intrusive_list;
template <typename Tag = vshim_default_tag> class intrusive_list_element
{
  public:
    intrusive_list_element() noexcept = default;
    intrusive_list_element(const intrusive_list_element&) noexcept {} intrusive_list_element& operator=(const intrusive_list_element&) noexcept { return *this; }
  private:
    template <typename, typename> friend class intrusive_list;
    intrusive_list_element* n_{nullptr}; intrusive_list_element* p_{nullptr};
};
template <typename T, typename Tag = vshim_default_tag> class intrusive_list
{
    using E = intrusive_list_element<Tag>;
  public:
    template <bool C> class it
    {
      public:
        using iterator_category = std::bidirectional_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = std::conditional_t<C, const T*, T*>; using reference = std::conditional_t<C, const T&, T&>;
        it() = default; explicit it(E* e) : e_(e) {} template <bool D, typename = std::enable_if_t<C && !D>> it(const it<D>& o) : e_(o.e_) {}
        reference operator*() const { return *static_cast<T*>(e_); } pointer operator->() const { return static_cast<T*>(e_); }
        it& operator++() { e_ = nx(e_); return *this; } it operator++(int) { it t = *this; ++*this; return t; } it& operator--() { e_ = pv(e_); return *this; } it operator--(int) { it t = *this; --*this; return t; }
        friend bool operator==(const it& a, const it& b) { return a.e_ == b.e_; } friend bool operator!=(const it& a, const it& b) { return a.e_ != b.e_; }
        E* e_{nullptr};
    };
    using iterator = it<false>; using const_iterator = it<true>; using value_type = T; using size_type = std::size_t; using reference = T&; using const_reference = const T&;
    intrusive_list() noexcept { h_.n_ = &h_; h_.p_ = &h_; }
    intrusive_list(const intrusive_list&) = delete; intrusive_list& operator=(const intrusive_list&) = delete;
    intrusive_list(intrusive_list&& o) noexcept : intrusive_list() { splice(end(), o); }
    ~intrusive_list() { clear(); }
    bool empty() const noexcept { return h_.n_ == &h_; }
    std::size_t size() const noexcept { std::size_t k = 0U; for (auto i = begin(); i != end(); ++i) { ++k; } return k; }
    iterator begin() noexcept { return iterator{h_.n_}; } iterator end() noexcept { return iterator{&h_}; }
    const_iterator begin() const noexcept { return const_iterator{h_.n_}; } const_iterator end() const noexcept { return const_iterator{const_cast<E*>(&h_)}; }
    const_iterator cbegin() const noexcept { return begin(); } const_iterator cend() const noexcept { return end(); }
    T& front() { VSHIM_ASSERT2(!empty(), "front of empty list"); return *static_cast<T*>(h_.n_); } T& back() { VSHIM_ASSERT2(!empty(), "back of empty list"); return *static_cast<T*>(h_.p_); }
    const T& front() const { return *static_cast<const T*>(h_.n_); }
    template <typename I> void assign(I b, I e) { clear(); for (; b != e; ++b) { push_back(*b); } }
    void push_back(T& t) { link(&h_, &el(t)); } void push_front(T& t) { link(h_.n_, &el(t)); }
    void pop_front() { VSHIM_ASSERT2(!empty(), "pop of empty list"); unlink(h_.n_); } void pop_back() { VSHIM_ASSERT2(!empty(), "pop of empty list"); unlink(h_.p_); }
    iterator insert(const_iterator pos, T& t) { E* e = &el(t); link(pos.e_, e); return iterator{e}; }
    iterator erase(const_iterator pos) { E* n = pos.e_->n_; unlink(pos.e_); return iterator{n}; }
    template <typename D> iterator erase_and_dispose(const_iterator pos, D d) { E* n = pos.e_->n_; E* e = pos.e_; unlink(e); d(static_cast<T*>(e)); return iterator{n}; }
    void clear() noexcept { while (!empty()) { unlink(h_.n_); } }
    template <typename D> void clear_and_dispose(D d) { while (!empty()) { E* e = h_.n_; unlink(e); d(static_cast<T*>(e)); } }
    template <typename P> void remove_if(P p) { for (auto i = begin(); i != end();) { if (p(*i)) { i = erase(i); } else { ++i; } } }
    // as boost::intrusive::list: everything matching is unlinked before the first disposer runs
    template <typename P, typename D> void remove_and_dispose_if(P p, D d) { intrusive_list gone; for (auto i = begin(); i != end();) { E* e = i.e_; ++i; if (p(*static_cast<T*>(e))) { unlink(e); link(&gone.h_, e); } } while (!gone.empty()) { E* e = gone.h_.n_; unlink(e); d(static_cast<T*>(e)); } }
    void remove(T& t) { unlink(&el(t)); }
    void splice(const_iterator pos, intrusive_list& o) { while (!o.empty()) { E* e = o.h_.n_; unlink(e); link(pos.e_, e); } }
    static iterator iterator_to(T& t) { return iterator{&el(t)}; } static iterator s_iterator_to(T& t) { return iterator{&el(t)}; }
  private:
    static E& el(T& t) { return static_cast<E&>(t); }
    static E* nx(E* e) { return e->n_; } static E* pv(E* e) { return e->p_; }
    template <bool> friend class it;
    static void link(E* before, E* e) { VSHIM_ASSERT2(e->n_ == nullptr, "element already in a list"); e->n_ = before; e->p_ = before->p_; before->p_->n_ = e; before->p_ = e; }
    static void unlink(E* e) { e->p_->n_ = e->n_; e->n_->p_ = e->p_; e->n_ = nullptr; e->p_ = nullptr; }
    E h_{};
};
}}
#endif
