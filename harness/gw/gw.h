#ifndef VERIF_GW_H
#define VERIF_GW_H
#include "score/mw/com/gateway/transport_layer/sample/message_framer.h"
#include "score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h"
#include "score/os/simnet.h"
#include "trace.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>
using vtrace::Emit;
namespace gw = score::mw::com::gateway;
inline std::uint64_t Rnd(std::uint64_t n) { return n == 0 ? 0 : vsched::Rand() % n; }
inline int RndI(int lo, int hi) { return lo + static_cast<int>(Rnd(static_cast<std::uint64_t>(hi - lo + 1))); }
inline const char* B(bool b) { return b ? "true" : "false"; }
inline int Ms() { return static_cast<int>((vsched::NowNs() - 1000000000) / 1000000); }
inline void Yield() { vsched::Point(vsched::Op::kUser, nullptr); }

// What a message of number m contains.
struct Content {
    int m{0};
    gw::MessageType type{gw::MessageType::kInvalid};
    std::string spec, element;
    std::vector<std::string> names;
    std::vector<score::mw::com::impl::DataTypeMetaInfo> metas;
    score::mw::com::impl::ServiceElementType kind{score::mw::com::impl::ServiceElementType::INVALID};
    std::uint32_t a{0}, b{0};
    bool fits{true};      // the framer has to accept it
    std::unique_ptr<gw::TransportMessage> Build() const;
    bool Same(const gw::TransportMessage& t) const;
};
enum What { kAny, kRequest, kNotification };
Content MakeContent(int m, What w, bool odd);
int IdOfMessage(const gw::TransportMessage& t);         // number in its contents (0: none)
void RunFramer(std::uint64_t seed);
void RunTransport(std::uint64_t seed);
void Explore(vsched::Scheduler& s, std::uint64_t seed, std::size_t steps);
#endif
