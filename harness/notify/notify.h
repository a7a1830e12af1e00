// Processes which each run a real MessagePassingServiceInstance; the transport between them is simulated: ordered
// connections, one engine thread per process, which delivers and connects whenever it is scheduled.
#ifndef VERIF_NOTIFY_H
#define VERIF_NOTIFY_H
#include "score/os/unistd.h"
#include "trace.h"
#include "score/concurrency/thread_pool.h"
#include "score/message_passing/i_client_factory.h"
#include "score/message_passing/i_client_connection.h"
#include "score/message_passing/i_server.h"
#include "score/message_passing/i_server_connection.h"
#include "score/message_passing/i_server_factory.h"
#include "score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h"
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace mp = score::message_passing;
namespace impl = score::mw::com::impl;
namespace lola = score::mw::com::impl::lola;
using vtrace::Emit;
inline std::uint64_t Rnd(std::uint64_t n) { return n == 0 ? 0 : vsched::Rand() % n; }
inline int RndI(int lo, int hi) { return lo + static_cast<int>(Rnd(static_cast<std::uint64_t>(hi - lo + 1))); }
inline void Yield() { vsched::Point(vsched::Op::kUser, nullptr); }
inline const char* B(bool b) { return b ? "true" : "false"; }
using Bytes = std::vector<std::uint8_t>;
struct Proc;
struct FakeServer;
struct Waiter { bool done{false}; bool ok{false}; Bytes reply; };
struct Msg { Bytes b; std::shared_ptr<Waiter> w; };
using State = mp::IClientConnection::State;
struct Conn final : mp::IServerConnection {
    Proc* from; std::string to; Proc* at{nullptr}; State state{State::kStarting}; mp::IClientConnection::StopReason why{mp::IClientConnection::StopReason::kNone};
    std::deque<Msg> q; bool known{false}; mp::UserData data{std::uintptr_t{0}}; mp::ClientIdentity id{}; std::shared_ptr<Waiter> asking; bool hung_up{false};
    const mp::ClientIdentity& GetClientIdentity() const& noexcept override { return id; }
    mp::UserData& GetUserData() noexcept override { return data; }
    score::cpp::expected_blank<score::os::Error> Reply(score::cpp::span<const std::uint8_t> m) noexcept override;
    score::cpp::expected_blank<score::os::Error> Notify(score::cpp::span<const std::uint8_t>) noexcept override { return {}; }
    void RequestDisconnect() noexcept override {}
    void Close(mp::IClientConnection::StopReason r);
    virtual ~Conn() = default;
};
struct Net { std::map<std::string, FakeServer*> servers; std::list<std::shared_ptr<Conn>> conns; };
struct FakeServer final : mp::IServer {
    Proc* p; std::string id; mp::ConnectCallback cc; mp::DisconnectCallback dc; mp::MessageCallback mc, rc;
    FakeServer(Proc* p_, std::string i) : p(p_), id(std::move(i)) {}
    ~FakeServer() override { StopListening(); }
    score::cpp::expected_blank<score::os::Error> StartListening(mp::ConnectCallback c, mp::DisconnectCallback d, mp::MessageCallback m, mp::MessageCallback r) noexcept override;
    void StopListening() noexcept override;
};
struct FakeClient final : mp::IClientConnection {
    std::shared_ptr<Conn> c;
    explicit FakeClient(std::shared_ptr<Conn> x) : c(std::move(x)) {}
    ~FakeClient() override { c->Close(StopReason::kUserRequested); }
    score::cpp::expected_blank<score::os::Error> Send(score::cpp::span<const std::uint8_t> m) noexcept override;
    score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> SendWaitReply(score::cpp::span<const std::uint8_t> m, score::cpp::span<std::uint8_t> r) noexcept override;
    score::cpp::expected_blank<score::os::Error> SendWithCallback(score::cpp::span<const std::uint8_t>, ReplyCallback) noexcept override { std::abort(); }
    State GetState() const noexcept override;
    StopReason GetStopReason() const noexcept override { return c->why; }
    void Start(StateCallback, NotifyCallback) noexcept override;
    void Stop() noexcept override { Yield(); c->Close(StopReason::kUserRequested); }
    void Restart() noexcept override { std::abort(); }
};
struct FakeFactories final : mp::IServerFactory, mp::IClientFactory {
    Proc* p;
    explicit FakeFactories(Proc* x) : p(x) {}
    score::cpp::pmr::unique_ptr<mp::IServer> Create(const mp::ServiceProtocolConfig& c, const mp::IServerFactory::ServerConfig&) noexcept override;
    score::cpp::pmr::unique_ptr<mp::IClientConnection> Create(const mp::ServiceProtocolConfig& c, const mp::IClientFactory::ClientConfig&) noexcept override;
};
struct Pool final : score::concurrency::ThreadPool {
    int open{0};
    explicit Pool(std::size_t n) : ThreadPool(n) {}
  protected:
    void enqueue(std::function<void()> f) override { ++open; ThreadPool::enqueue([this, f] { f(); --open; }); }
};
struct Engine { Net& net; bool busy{false}, stop{false}; std::vector<Proc*> procs; Proc* Work(); bool HasWork(); void Run(); explicit Engine(Net& n) : net(n) {} };
struct Proc {
    Net& net; pid_t pid; uid_t uid; bool live{true}; Engine& eng; FakeFactories f{this}; Pool& pool; std::unique_ptr<lola::MessagePassingServiceInstance> inst;
    Proc(Net& n, pid_t pi, uid_t u, Engine& e, Pool& po, lola::ClientQualityType q);
    void Kill(bool lose);
};
extern bool g_slow_connect;
void RunNotify(std::uint64_t seed, const std::string& mode);
vsched::Config SchedCfg(std::uint64_t seed, int len);
#endif
