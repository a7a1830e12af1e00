#ifndef VSHIM_GENERIC_TRACE_API_H
#define VSHIM_GENERIC_TRACE_API_H
#include "score/result/result.h"
#include "score/optional.hpp"
#include "score/language/safecpp/scoped_function/move_only_scoped_function.h"
#include "score/language/safecpp/scoped_function/scope.h"
#include <cstdint>
#include <functional>
#include <string>
#include <variant>
#include <vector>
namespace score { namespace analysis { namespace tracing {
using TraceClientId = std::uint8_t;
using TraceContextId = std::uint32_t;
using ShmObjectHandle = std::int32_t;
enum class BindingType : std::uint8_t { kUndefined = 0, kLoLa = 1 };
enum class ErrorCode : score::result::ErrorCode { kNoErrorRecoverable = 0, kNotEnoughMemoryRecoverable, kInvalidArgumentFatal, kRingBufferFullRecoverable, kDaemonConnectionFailedFatal, kDaemonTerminatedFatal, kTerminalFatal, kMessageSendFailedRecoverable, kUnknown };
class VshimTraceDomain final : public score::result::ErrorDomain { public: std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "trace error"; } };
inline constexpr VshimTraceDomain vshim_trace_domain{};
inline score::result::Error MakeError(ErrorCode c, std::string_view m = {}) noexcept { return {static_cast<score::result::ErrorCode>(c), vshim_trace_domain, m}; }
inline bool IsErrorRecoverable(ErrorCode c) noexcept { return c == ErrorCode::kNoErrorRecoverable || c == ErrorCode::kNotEnoughMemoryRecoverable || c == ErrorCode::kRingBufferFullRecoverable || c == ErrorCode::kMessageSendFailedRecoverable; }
using TraceResult = score::Result<void>;
using TraceJobAllocateResult = score::Result<void>;
using RegisterSharedMemoryObjectResult = score::Result<ShmObjectHandle>;
using RegisterClientResult = score::Result<TraceClientId>;
enum class TracePointType : std::uint16_t {
    kInvalid = 0, kProxyEventSub, kProxyEventUnsub, kProxyEventSubstateChange, kProxyEventSetChghdl, kProxyEventUnsetChghdl, kProxyEventChghdl, kProxyEventSetRechdl, kProxyEventUnsetRechdl, kProxyEventRechdl, kProxyEventGetSamples, kProxyEventSampleCb,
    kProxyFieldSub, kProxyFieldUnsub, kProxyFieldSubstateChange, kProxyFieldSetChghdl, kProxyFieldUnsetChghdl, kProxyFieldChghdl, kProxyFieldSetRechdl, kProxyFieldUnsetRechdl, kProxyFieldRechdl, kProxyFieldGetSamples, kProxyFieldSampleCb, kProxyFieldGet, kProxyFieldGetResult, kProxyFieldSet, kProxyFieldSetResult,
    kSkelEventSnd, kSkelEventSndA, kSkelFieldUpd, kSkelFieldUpdA, kSkelFieldGetCall, kSkelFieldGetCallResult, kSkelFieldSetCall, kSkelFieldSetCallResult };
struct VshimEventId { std::uint32_t id; VshimEventId(std::uint64_t i = 0) : id(static_cast<std::uint32_t>(i)) {} };
struct VshimFieldId { std::uint32_t id; VshimFieldId(std::uint64_t i = 0) : id(static_cast<std::uint32_t>(i)) {} };
struct VshimMethodId { std::uint32_t id; VshimMethodId(std::uint64_t i = 0) : id(static_cast<std::uint32_t>(i)) {} };
struct ServiceInstanceElement {
    using ServiceIdType = std::uint32_t; using InstanceIdType = std::uint32_t; using EventIdType = std::uint32_t; using FieldIdType = std::uint32_t;
    using EventId = VshimEventId; using FieldId = VshimFieldId; using MethodId = VshimMethodId;
    using StdVariantType = std::variant<EventId, FieldId, MethodId>;
    using VariantType = StdVariantType;
    ServiceIdType service_id{}; std::uint32_t major{}; std::uint32_t minor{}; InstanceIdType instance_id{}; StdVariantType element{};
};
class AraComProperties {
  public:
    using TracePointDataId = std::uint32_t;
    AraComProperties(TracePointType t, ServiceInstanceElement e, score::cpp::optional<TracePointDataId> d) : trace_point_type(t), element(std::move(e)), data_id(d) {}
    TracePointType trace_point_type; ServiceInstanceElement element; score::cpp::optional<TracePointDataId> data_id;
};
class AraComMetaInfo {
  public:
    explicit AraComMetaInfo(AraComProperties p) : properties(std::move(p)) {}
    void SetDataLossBit() { data_loss = true; }
    AraComProperties properties; bool data_loss{false};
};
using MetaInfo = AraComMetaInfo;
struct SharedMemoryLocation { ShmObjectHandle handle; std::size_t offset; };
struct SharedMemoryChunk { SharedMemoryLocation location; std::size_t size; };
struct LocalDataChunk { const void* start; std::size_t size; };
struct ShmDataChunkList { ShmDataChunkList() = default; explicit ShmDataChunkList(const SharedMemoryChunk& r) { chunks.push_back(r); } std::vector<SharedMemoryChunk> chunks; };
struct LocalDataChunkList { LocalDataChunkList() = default; explicit LocalDataChunkList(const LocalDataChunk& r) { chunks.push_back(r); } std::vector<LocalDataChunk> chunks; };
using TraceDoneCallBackType = score::safecpp::MoveOnlyScopedFunction<void(TraceContextId)>;
// The trace daemon side is a test double: the harness decides the outcome of every call.
struct VshimTraceBackend {
    std::function<RegisterClientResult(BindingType, const std::string&)> register_client;
    std::function<score::Result<void>(TraceClientId, TraceDoneCallBackType)> register_done;
    std::function<RegisterSharedMemoryObjectResult(TraceClientId, int)> register_shm;
    std::function<score::Result<void>(TraceClientId, ShmObjectHandle)> unregister_shm;
    std::function<TraceResult(TraceClientId, const AraComMetaInfo&, ShmDataChunkList&, TraceContextId)> trace_shm;
    std::function<TraceResult(TraceClientId, const AraComMetaInfo&, LocalDataChunkList&)> trace_local;
};
inline VshimTraceBackend& vshim_trace_backend() { static VshimTraceBackend b; return b; }
class GenericTraceAPI {
  public:
    static RegisterClientResult RegisterClient(BindingType b, const std::string& n) { auto& f = vshim_trace_backend().register_client; if (f) { return f(b, n); } return TraceClientId{1}; }
    static score::Result<void> RegisterTraceDoneCB(TraceClientId c, TraceDoneCallBackType cb) { auto& f = vshim_trace_backend().register_done; if (f) { return f(c, std::move(cb)); } return {}; }
    static RegisterSharedMemoryObjectResult RegisterShmObject(TraceClientId c, int fd) { auto& f = vshim_trace_backend().register_shm; if (f) { return f(c, fd); } return ShmObjectHandle{1}; }
    static score::Result<void> UnregisterShmObject(TraceClientId c, ShmObjectHandle h) { auto& f = vshim_trace_backend().unregister_shm; if (f) { return f(c, h); } return {}; }
    static TraceResult Trace(TraceClientId c, const AraComMetaInfo& m, ShmDataChunkList& d, TraceContextId id) { auto& f = vshim_trace_backend().trace_shm; if (f) { return f(c, m, d, id); } return {}; }
    static TraceResult Trace(TraceClientId c, const AraComMetaInfo& m, LocalDataChunkList& d) { auto& f = vshim_trace_backend().trace_local; if (f) { return f(c, m, d); } return {}; }
};
}}}
#endif
