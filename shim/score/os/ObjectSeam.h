#ifndef VSHIM_OBJECT_SEAM_H
#define VSHIM_OBJECT_SEAM_H
namespace score { namespace os {
template <typename T> class ObjectSeam
{
  public:
    static T& instance() noexcept { return p() != nullptr ? *p() : T::vshim_real(); }
    static void set_testing_instance(T& t) noexcept { p() = &t; }
    static void restore_instance() noexcept { p() = nullptr; }
  private:
    static T*& p() { static T* x = nullptr; return x; }
};
}}
#endif
