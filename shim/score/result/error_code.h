#ifndef VSHIM_ERROR_CODE_H
#define VSHIM_ERROR_CODE_H
#include <cstdint>
namespace score { namespace result { using ErrorCode = std::int32_t; }}
#endif
