#ifndef VSHIM_IPV4_H
#define VSHIM_IPV4_H
#include <array>
#include <cstdint>
#include <cstdio>
#include <string>
namespace score { namespace os {
class Ipv4Address {
  public:
    Ipv4Address() = default;
    explicit Ipv4Address(const std::string& s) { unsigned a = 0, b = 0, c = 0, d = 0; if (std::sscanf(s.c_str(), "%u.%u.%u.%u", &a, &b, &c, &d) == 4) { b_ = {static_cast<std::uint8_t>(a), static_cast<std::uint8_t>(b), static_cast<std::uint8_t>(c), static_cast<std::uint8_t>(d)}; } }
    explicit Ipv4Address(const char* s) : Ipv4Address(std::string(s)) {}
    std::array<std::uint8_t, 4> ToIpv4Bytes() const { return b_; }
    std::string ToString() const { return std::to_string(b_[0]) + "." + std::to_string(b_[1]) + "." + std::to_string(b_[2]) + "." + std::to_string(b_[3]); }
  private:
    std::array<std::uint8_t, 4> b_{};
};
}}
#endif
