#ifndef VSHIM_ERROR_DOMAIN_H
#define VSHIM_ERROR_DOMAIN_H
#include "score/result/error_code.h"
#include <string_view>
namespace score { namespace result {
class ErrorDomain
{
  public:

    virtual std::string_view MessageFor(const ErrorCode& code) const noexcept = 0;
  protected:
    ~ErrorDomain() = default;
    constexpr ErrorDomain() = default; constexpr ErrorDomain(const ErrorDomain&) = default; constexpr ErrorDomain(ErrorDomain&&) = default; ErrorDomain& operator=(const ErrorDomain&) = default; ErrorDomain& operator=(ErrorDomain&&) = default;
};
}}
#endif
