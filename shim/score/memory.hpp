#ifndef VSHIM_MEMORY_HPP
#define VSHIM_MEMORY_HPP
#include "score/memory_resource.hpp"
#include <memory>
#include <type_traits>
namespace score { namespace cpp { namespace pmr {
class vshim_deleter
{
  public:
    vshim_deleter() = default;
    using Fn = void (*)(void*, std::pmr::memory_resource*);
    vshim_deleter(std::pmr::memory_resource* r, void* obj, Fn f) : r_(r), obj_(obj), f_(f) {}
    template <typename T> void operator()(T*) const { if (f_ != nullptr) { f_(obj_, r_); } }
  private:
    std::pmr::memory_resource* r_{nullptr}; void* obj_{nullptr}; Fn f_{nullptr};
};
template <typename T> using unique_ptr = std::unique_ptr<T, vshim_deleter>;
template <typename T, typename... A> unique_ptr<T> make_unique(std::pmr::memory_resource* r, A&&... a)
{
    void* p = r->allocate(sizeof(T), alignof(T));
    T* t = ::new (p) T(std::forward<A>(a)...);
    return unique_ptr<T>(t, vshim_deleter{r, p, [](void* o, std::pmr::memory_resource* m) { static_cast<T*>(o)->~T(); m->deallocate(o, sizeof(T), alignof(T)); }});
}
template <typename T, typename... A> unique_ptr<T> make_unique(const std::pmr::polymorphic_allocator<T>& al, A&&... a) { return make_unique<T>(al.resource(), std::forward<A>(a)...); }
template <typename T, typename... A> std::shared_ptr<T> make_shared(std::pmr::memory_resource* r, A&&... a) { return std::allocate_shared<T>(std::pmr::polymorphic_allocator<T>(r), std::forward<A>(a)...); }
template <typename T, typename... A> std::shared_ptr<T> make_shared(const std::pmr::polymorphic_allocator<T>& al, A&&... a) { return std::allocate_shared<T>(al, std::forward<A>(a)...); }
}}}
#endif
