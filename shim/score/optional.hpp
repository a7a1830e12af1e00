#ifndef VSHIM_OPTIONAL_HPP
#define VSHIM_OPTIONAL_HPP
#include <optional>
namespace score { namespace cpp { using std::optional; using std::nullopt; using std::nullopt_t; using std::make_optional; }}
#endif
