#ifndef VSHIM_TRY_ATOMIC_ADD_H
#define VSHIM_TRY_ATOMIC_ADD_H
#include "score/result/result.h"
#include "score/language/safecpp/safe_math/safe_math.h"
#include <atomic>
#include <limits>
namespace score { namespace safe_atomics {
template <typename T> score::Result<T> TryAtomicAdd(std::atomic<T>& a, T d, std::size_t retries = 1000000U) { T v = a.load(); for (std::size_t i = 0U; i < retries; ++i) { auto n = safe_math::Add(v, d); if (!n.has_value()) { return score::MakeUnexpected(safe_math::ErrorCode::kExceedsNumericLimits); } if (a.compare_exchange_weak(v, n.value())) { return v; } } return score::MakeUnexpected(safe_math::ErrorCode::kUnexpectedError); }
}}
#endif
