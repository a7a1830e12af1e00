#include "notify.h"
bool g_slow_connect = false;
namespace { score::os::Error Err() { return score::os::Error::createFromErrno(ENOTCONN); } }
void Conn::Close(mp::IClientConnection::StopReason r) {
    if (state == State::kStopped) return;
    state = State::kStopped; why = r;
    if (r == mp::IClientConnection::StopReason::kClosedByPeer) q.clear();
    for (auto& m : q) if (m.w) { m.w->done = true; }
    if (asking) asking->done = true;
}
score::cpp::expected_blank<score::os::Error> Conn::Reply(score::cpp::span<const std::uint8_t> m) noexcept {
    Yield();
    if (!asking || asking->done) return score::cpp::make_unexpected(Err());
    asking->reply.assign(m.begin(), m.end()); asking->ok = true; asking->done = true; asking = nullptr;
    return {};
}
score::cpp::expected_blank<score::os::Error> FakeServer::StartListening(mp::ConnectCallback c, mp::DisconnectCallback d, mp::MessageCallback m, mp::MessageCallback r) noexcept {
    cc = std::move(c); dc = std::move(d); mc = std::move(m); rc = std::move(r); p->net.servers[id] = this; return {};
}
void FakeServer::StopListening() noexcept {
    auto i = p->net.servers.find(id);
    if (i != p->net.servers.end() && i->second == this) p->net.servers.erase(i);
}
// a connection to a process which is there comes about before one gives up waiting for it
State FakeClient::GetState() const noexcept {
    Yield();
    auto k = c;
    auto settled = [k] { if (k->state != State::kStarting || !k->from->live) return true; auto i = k->from->net.servers.find(k->to); return i == k->from->net.servers.end() || !i->second->p->live; };
    if (!g_slow_connect && !settled()) vsched::BlockUntil(settled, -1);
    return c->state;
}
score::cpp::expected_blank<score::os::Error> FakeClient::Send(score::cpp::span<const std::uint8_t> m) noexcept {
    Yield();
    if (c->state != State::kReady) return score::cpp::make_unexpected(Err());
    c->q.push_back({Bytes(m.begin(), m.end()), nullptr});
    Yield();
    return {};
}
score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> FakeClient::SendWaitReply(score::cpp::span<const std::uint8_t> m, score::cpp::span<std::uint8_t> r) noexcept {
    Yield();
    if (c->state != State::kReady) return score::cpp::make_unexpected(Err());
    auto w = std::make_shared<Waiter>();
    c->q.push_back({Bytes(m.begin(), m.end()), w});
    vsched::BlockUntil([w] { return w->done; }, -1);
    if (!w->ok || w->reply.size() > r.size()) return score::cpp::make_unexpected(Err());
    std::copy(w->reply.begin(), w->reply.end(), r.begin());
    return score::cpp::span<const std::uint8_t>{r.data(), w->reply.size()};
}
void FakeClient::Start(StateCallback, NotifyCallback) noexcept { Yield(); c->from->net.conns.push_back(c); }
score::cpp::pmr::unique_ptr<mp::IServer> FakeFactories::Create(const mp::ServiceProtocolConfig& c, const mp::IServerFactory::ServerConfig&) noexcept {
    return score::cpp::pmr::make_unique<FakeServer>(score::cpp::pmr::get_default_resource(), p, std::string(c.identifier));
}
score::cpp::pmr::unique_ptr<mp::IClientConnection> FakeFactories::Create(const mp::ServiceProtocolConfig& c, const mp::IClientFactory::ClientConfig&) noexcept {
    auto k = std::make_shared<Conn>(); k->from = p; k->to = std::string(c.identifier); k->id = {p->pid, p->uid, 0};
    return score::cpp::pmr::make_unique<FakeClient>(score::cpp::pmr::get_default_resource(), k);
}
static bool Mine(Engine& e, Proc* p) { for (auto* x : e.procs) if (x == p) return true; return false; }
static bool Connects(Engine& e, Conn& c) { return c.state == State::kStarting && c.from->live && Mine(e, c.from) && c.from->net.servers.count(c.to) != 0; }
static bool Delivers(Engine& e, Conn& c) { return c.at != nullptr && c.at->live && Mine(e, c.at) && !c.hung_up && !c.q.empty(); }
bool Engine::HasWork() { for (auto& c : net.conns) if (Connects(*this, *c) || Delivers(*this, *c)) return true; return false; }
void Engine::Run() {
    for (;;) {
        vsched::BlockUntil([this] { return stop || HasWork(); }, -1);
        if (stop) return;
        if (Rnd(4) == 0) vsched::SleepNs(static_cast<std::int64_t>(Rnd(3000)));
        std::vector<std::shared_ptr<Conn>> can;
        for (auto& c : net.conns) if (Connects(*this, *c) || Delivers(*this, *c)) can.push_back(c);
        if (can.empty()) continue;
        auto c = can[Rnd(can.size())];
        if (Connects(*this, *c)) { c->at = net.servers[c->to]->p; c->state = State::kReady; continue; }
        auto i = net.servers.find(c->to);
        if (i == net.servers.end()) { c->hung_up = true; c->Close(mp::IClientConnection::StopReason::kClosedByPeer); continue; }
        FakeServer* s = i->second;
        busy = true;
        if (!c->known) { c->known = true; auto u = s->cc(*c); if (u.has_value()) c->data = std::move(*u); }
        Msg m = std::move(c->q.front()); c->q.pop_front();
        score::cpp::span<const std::uint8_t> sp{m.b.data(), m.b.size()};
        if (m.w) {
            c->asking = m.w;
            if (!s->rc(*c, sp).has_value()) { c->hung_up = true; c->Close(mp::IClientConnection::StopReason::kClosedByPeer); }
            if (!m.w->done) m.w->done = true;
        } else if (!s->mc(*c, sp).has_value()) { c->hung_up = true; c->Close(mp::IClientConnection::StopReason::kClosedByPeer); }
        busy = false;
    }
}
Proc::Proc(Net& n, pid_t pi, uid_t u, Engine& e, Pool& po, lola::ClientQualityType q) : net(n), pid(pi), uid(u), eng(e), pool(po) {
    e.procs.push_back(this);
    vshim::fake_pid() = pid; vshim::fake_uid() = uid;
    inst = std::make_unique<lola::MessagePassingServiceInstance>(q, lola::AsilSpecificCfg{10, {}}, f, f, pool);
}
void Proc::Kill(bool lose) {
    live = false;
    for (auto i = net.servers.begin(); i != net.servers.end();) { if (i->second->p == this) i = net.servers.erase(i); else ++i; }
    for (auto& c : net.conns) {
        if (c->at == this) c->Close(mp::IClientConnection::StopReason::kClosedByPeer);
        else if (c->from == this) { if (lose) c->q.clear(); c->Close(mp::IClientConnection::StopReason::kShutdown); }
    }
}
vsched::Config SchedCfg(std::uint64_t seed, int len) {
    vsched::Config sc;
    sc.strategy = Rnd(2) == 0 ? vsched::Strategy::kRandom : vsched::Strategy::kPct;
    sc.switch_permille = 20 + static_cast<int>(Rnd(800));
    sc.pct_depth = 2 + static_cast<int>(Rnd(4));
    sc.pct_length = 20 + static_cast<int>(Rnd(static_cast<std::uint64_t>(len)));
    sc.seed = seed;
    sc.max_steps = 300000;
    return sc;
}
int main(int argc, char** argv) {
    const auto o = vtrace::Parse(argc, argv);
    return vtrace::Drive(o, [&o](std::uint64_t i) {
        const std::uint64_t seed = o.seed * 1000003ULL + i;
        RunNotify(seed, o.mode);
    });
}
