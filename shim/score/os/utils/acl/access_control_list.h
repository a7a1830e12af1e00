#ifndef VSHIM_ACL_IMPL_H
#define VSHIM_ACL_IMPL_H
#include "score/os/utils/acl/i_access_control_list.h"
#include <map>
#include <set>
#include <sys/stat.h>
#include <utility>
namespace score { namespace os {
// Keeps the ACL of an inode in process memory.
class AccessControlList : public IAccessControlList
{
  public:
    explicit AccessControlList(Acl::FileDescriptor fd) { struct ::stat s {}; if (::fstat(fd, &s) == 0) { key_ = {s.st_dev, s.st_ino}; } }
    score::cpp::expected_blank<Error> AllowUser(const UserIdentifier u, const Acl::Permission p) override { db()[key_].insert({u, static_cast<unsigned>(p)}); return score::cpp::blank{}; }
    bool VerifyMaskPermissions(const std::vector<Acl::Permission>&) const override { return true; }
    std::vector<UserIdentifier> FindUserIdsWithPermission(const Acl::Permission p) const override { std::vector<UserIdentifier> v; for (const auto& e : db()[key_]) { if (e.second == static_cast<unsigned>(p)) { v.push_back(e.first); } } return v; }
    using Key = std::pair<unsigned long, unsigned long>;
    static std::map<Key, std::set<std::pair<uid_t, unsigned>>>& db() { static std::map<Key, std::set<std::pair<uid_t, unsigned>>> d; return d; }
  private:
    Key key_{};
};
}}
#endif
