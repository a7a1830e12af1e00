#ifndef VSHIM_HASH_HPP
#define VSHIM_HASH_HPP
#include <cstddef>
#include <cstdint>
namespace score { namespace cpp {
inline std::size_t hash_bytes_fnv1a(const void* d, std::size_t n, std::size_t seed = 14695981039346656037ULL) { const auto* p = static_cast<const unsigned char*>(d); std::size_t h = seed; for (std::size_t i = 0U; i < n; ++i) { h ^= p[i]; h *= 1099511628211ULL; } return h; }
inline std::size_t hash_bytes_fnv1(const void* d, std::size_t n) { return hash_bytes_fnv1a(d, n); }
inline std::size_t hash_bytes(const void* d, std::size_t n) { return hash_bytes_fnv1a(d, n); }
inline std::size_t hash_bytes(const void* d, std::size_t n, std::size_t seed) { return hash_bytes_fnv1a(d, n, seed); }
}}
#endif
