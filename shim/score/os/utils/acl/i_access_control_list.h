#ifndef VSHIM_IACL_H
#define VSHIM_IACL_H
#include "score/blank.hpp"
#include "score/expected.hpp"
#include "score/os/acl.h"
#include <sys/types.h>
#include <vector>
namespace score { namespace os {
class IAccessControlList
{
  public:
    using UserIdentifier = uid_t;
    virtual ~IAccessControlList() = default;
    virtual score::cpp::expected_blank<Error> AllowUser(const UserIdentifier, const Acl::Permission) = 0;
    virtual bool VerifyMaskPermissions(const std::vector<Acl::Permission>&) const = 0;
    virtual std::vector<UserIdentifier> FindUserIdsWithPermission(const Acl::Permission) const = 0;
};
}}
#endif
