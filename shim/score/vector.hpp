#ifndef VSHIM_VECTOR_HPP
#define VSHIM_VECTOR_HPP
#include "score/memory_resource.hpp"
#include <vector>
namespace score { namespace cpp { namespace pmr { template <typename T> using vector = std::vector<T, std::pmr::polymorphic_allocator<T>>; }}}
#endif
