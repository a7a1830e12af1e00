#ifndef VSHIM_MEMORY_RESOURCE_HPP
#define VSHIM_MEMORY_RESOURCE_HPP
#include <cstddef>
#include <memory_resource>
namespace score { namespace cpp { namespace pmr {
using std::pmr::memory_resource; using std::pmr::new_delete_resource; using std::pmr::get_default_resource; using std::pmr::set_default_resource; using std::pmr::null_memory_resource; using std::pmr::monotonic_buffer_resource;
template <typename T = std::byte> using polymorphic_allocator = std::pmr::polymorphic_allocator<T>;
}}}
#endif
