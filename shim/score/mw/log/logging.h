#ifndef VSHIM_LOGGING_H
#define VSHIM_LOGGING_H
#include "score/mw/log/log_types.h"
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string_view>
#include <type_traits>
#include <utility>
namespace score { namespace mw { namespace log {
class LogStream
{
  public:
    LogStream() { static const bool e = std::getenv("VSHIM_LOG") != nullptr; on_ = e; }
    LogStream(LogStream&& o) noexcept : on_(o.on_), s_(std::move(o.s_)) { o.on_ = false; }
    LogStream(const LogStream&) = delete;
    ~LogStream() { if (on_) { std::cerr << s_.str() + "\n"; } }
    void Flush() {}
    template <typename T> LogStream& put(const T& t) { if (on_) { if constexpr (std::is_enum_v<T>) { s_ << static_cast<long>(t); } else { outv(t, 0); } s_ << ' '; } return *this; }
  private:
    template <typename T> auto outv(const T& t, int) -> decltype(std::declval<std::ostream&>() << t, void()) { s_ << t; }
    template <typename T> void outv(const T&, long) { s_ << "<obj>"; }
    bool on_; std::ostringstream s_{};
};
template <typename T> LogStream& operator<<(LogStream& s, const T& t) { return s.put(t); }
template <typename T> LogStream&& operator<<(LogStream&& s, const T& t) { s << t; return std::move(s); }
inline LogStream LogFatal(std::string_view = {}) noexcept { return LogStream{}; }
inline LogStream LogError(std::string_view = {}) noexcept { return LogStream{}; }
inline LogStream LogWarn(std::string_view = {}) noexcept { return LogStream{}; }
inline LogStream LogInfo(std::string_view = {}) noexcept { return LogStream{}; }
inline LogStream LogDebug(std::string_view = {}) noexcept { return LogStream{}; }
inline LogStream LogVerbose(std::string_view = {}) noexcept { return LogStream{}; }
}}}
#endif
