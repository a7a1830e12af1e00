#ifndef VSHIM_LOG_TYPES_H
#define VSHIM_LOG_TYPES_H
#include <cstdint>
#include <cstddef>
namespace score { namespace mw { namespace log {
struct LogHex8 { std::uint8_t value; }; struct LogHex16 { std::uint16_t value; }; struct LogHex32 { std::uint32_t value; }; struct LogHex64 { std::uint64_t value; };
struct LogBin8 { std::uint8_t value; };
enum class LogLevel : std::uint8_t { kOff, kFatal, kError, kWarn, kInfo, kDebug, kVerbose };
}}}
#endif
