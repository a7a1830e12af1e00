#ifndef VSHIM_STRING_VIEW_HPP
#define VSHIM_STRING_VIEW_HPP
#include <string_view>
namespace score { namespace cpp { using std::string_view; }}
#endif
