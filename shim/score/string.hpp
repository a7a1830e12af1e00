#ifndef VSHIM_STRING_HPP
#define VSHIM_STRING_HPP
#include "score/memory_resource.hpp"
#include <string>
namespace score { namespace cpp { namespace pmr { using string = std::basic_string<char, std::char_traits<char>, std::pmr::polymorphic_allocator<char>>; }}}
#endif
