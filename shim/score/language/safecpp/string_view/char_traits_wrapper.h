#ifndef VSHIM_CHAR_TRAITS_WRAPPER_H
#define VSHIM_CHAR_TRAITS_WRAPPER_H
#include <string>
namespace score { namespace safecpp { template <typename C> struct char_traits_wrapper { using traits_type = std::char_traits<C>; }; }}
#endif
