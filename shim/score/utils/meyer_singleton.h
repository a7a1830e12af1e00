#ifndef VSHIM_MEYER_SINGLETON_H
#define VSHIM_MEYER_SINGLETON_H
#include <utility>
namespace score { namespace singleton { template <typename T> class MeyerSingleton { public: template <typename C> static T& GetInstanceInitializedWithCallable(C c) { static T* t = new T(c()); return *t; } template <typename... A> static T& GetInstance(A&&... a) { static T* t = new T(std::forward<A>(a)...); return *t; } }; }}
#endif
