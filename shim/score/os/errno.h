#ifndef VSHIM_OS_ERRNO_H
#define VSHIM_OS_ERRNO_H
#include "score/expected.hpp"
#include <cerrno>
#include <cstdint>
#include <cstring>
#include <ostream>
#include <string>
namespace score { namespace os {
class Error
{
  public:
    enum class Code : std::uint8_t { kUnexpected = 0, kNoSuchFileOrDirectory, kInputOutput, kBadFileDescriptor, kInvalidArgument, kDeviceOrResourceBusy, kOperationWasInterruptedBySignal, kNoDeviceError, kTooManyProcesses, kNoSuchProcess, kOperationNotPermitted, kPermissionDenied, kObjectExists, kObjectDoesNotExist, kWouldBlock, kResourceTemporarilyUnavailable, kMessageTooLong, kBrokenPipe, kUnknownError };
    static Error createFromErrno() noexcept { return Error{errno}; }
    static Error createFromErrno(std::int32_t e) noexcept { return Error{e}; }
    static Error createFromErrnoFlockSpecific(std::int32_t e) noexcept { return Error{e}; }
    static Error createUnspecifiedError() noexcept { return Error{-1}; }
    std::int32_t GetOsDependentErrorCode() const noexcept { return e_; }
    std::string ToString() const { return std::strerror(e_); }
    Code code() const noexcept { switch (e_) { case ENOENT: return Code::kNoSuchFileOrDirectory; case EIO: return Code::kInputOutput; case EBADF: return Code::kBadFileDescriptor; case EINVAL: return Code::kInvalidArgument; case EBUSY: return Code::kDeviceOrResourceBusy; case EINTR: return Code::kOperationWasInterruptedBySignal; case EPERM: return Code::kOperationNotPermitted; case EACCES: return Code::kPermissionDenied; case EEXIST: return Code::kObjectExists; case EAGAIN: return Code::kResourceTemporarilyUnavailable; case EMSGSIZE: return Code::kMessageTooLong; case EPIPE: return Code::kBrokenPipe; case ESRCH: return Code::kNoSuchProcess; default: return Code::kUnexpected; } }
    friend bool operator==(const Error& a, const Error& b) noexcept { return a.e_ == b.e_; } friend bool operator!=(const Error& a, const Error& b) noexcept { return a.e_ != b.e_; }
    friend bool operator==(const Error& a, Code c) noexcept { return a.code() == c; } friend bool operator!=(const Error& a, Code c) noexcept { return a.code() != c; }
    friend std::ostream& operator<<(std::ostream& o, const Error& e) { return o << e.ToString(); }
  private:
    explicit Error(std::int32_t e) noexcept : e_(e) {}
    std::int32_t e_;
};
}}
#endif
