#ifndef VSHIM_STATIC_DESTRUCTION_GUARD_H
#define VSHIM_STATIC_DESTRUCTION_GUARD_H
#include "score/os/vshim_os.h"
#include <map>
#include <utility>
namespace score { namespace utils {
template <typename T> class StaticDestructionGuard
{
  public:
    StaticDestructionGuard() noexcept { (void)GetStorage(); }
    template <typename... A> static T& GetStorage(A&&... a) { static std::map<int, T*> m; T*& t = m[::vshim::cur_proc()]; if (t == nullptr) { t = new T(std::forward<A>(a)...); } return *t; }   // one per simulated process
};
}}
#endif
