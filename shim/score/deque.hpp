#ifndef VSHIM_DEQUE_HPP
#define VSHIM_DEQUE_HPP
#include "score/memory_resource.hpp"
#include <deque>
namespace score { namespace cpp { namespace pmr { template <typename T> using deque = std::deque<T, std::pmr::polymorphic_allocator<T>>; }}}
#endif
