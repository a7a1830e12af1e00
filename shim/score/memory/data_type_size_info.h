#ifndef VSHIM_DATA_TYPE_SIZE_INFO_H
#define VSHIM_DATA_TYPE_SIZE_INFO_H
#include "score/assert.hpp"
#include <cstddef>
namespace score { namespace memory {
class DataTypeSizeInfo
{
  public:
    constexpr DataTypeSizeInfo() = default;
    constexpr DataTypeSizeInfo(std::size_t s, std::size_t a) : size_{s}, alignment_{a} { VSHIM_ASSERT2(a != 0U && (a & (a - 1U)) == 0U, "alignment"); VSHIM_ASSERT2(s % a == 0U, "size multiple of alignment"); }
    constexpr std::size_t Size() const noexcept { return size_; }
    constexpr std::size_t Alignment() const noexcept { return alignment_; }
    friend constexpr bool operator==(const DataTypeSizeInfo& a, const DataTypeSizeInfo& b) noexcept { return a.size_ == b.size_ && a.alignment_ == b.alignment_; }
    friend constexpr bool operator!=(const DataTypeSizeInfo& a, const DataTypeSizeInfo& b) noexcept { return !(a == b); }
  private:
    std::size_t size_{0U}; std::size_t alignment_{1U};
};
template <typename T> constexpr DataTypeSizeInfo CreateDataTypeSizeInfoFromType() { return DataTypeSizeInfo{sizeof(T), alignof(T)}; }
}}
#endif
