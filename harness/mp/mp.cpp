// Client connections, server connections and the socket engine of score/message_passing, over simulated sockets.
#include "score/message_passing/client_server_communication.h"
#include "score/message_passing/i_connection_handler.h"
#include "score/message_passing/i_server_connection.h"
#include "score/message_passing/unix_domain/unix_domain_client_factory.h"
#include "score/message_passing/unix_domain/unix_domain_engine.h"
#include "score/message_passing/unix_domain/unix_domain_server_factory.h"
#include "score/os/simnet.h"
#include "score/assert.hpp"
#include "trace.h"
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>
using vtrace::Emit;
namespace mp = score::message_passing;
namespace os = score::os;
namespace {
std::uint64_t Rnd(std::uint64_t n) { return n == 0 ? 0 : vsched::Rand() % n; }
int RndI(int lo, int hi) { return lo + static_cast<int>(Rnd(static_cast<std::uint64_t>(hi - lo + 1))); }
void Yield() { vsched::Point(vsched::Op::kUser, nullptr); }
const char* B(bool b) { return b ? "true" : "false"; }
int Ms() { return static_cast<int>((vsched::NowNs() - 1000000000) / 1000000); }

// memory that is overwritten when given back and not used again during the run
struct Poison final : public score::cpp::pmr::memory_resource {
    std::vector<void*> kept;
    void* do_allocate(std::size_t n, std::size_t) override { return std::malloc(n); }
    void do_deallocate(void* p, std::size_t n, std::size_t) override { std::memset(p, 0xDB, n); kept.push_back(p); }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
    ~Poison() { for (void* p : kept) std::free(p); }
};

// Contents of messages: 'k', number (2 bytes), then bytes which follow from both. Empty and very short messages are
// possible for one-way messages and notifications of number 0 only ("nameless").
using Bytes = std::vector<std::uint8_t>;
Bytes Make(char k, int id, std::size_t len) {
    Bytes b{static_cast<std::uint8_t>(k), static_cast<std::uint8_t>(id & 255), static_cast<std::uint8_t>(id >> 8)};
    std::uint32_t s = static_cast<std::uint32_t>(id) * 2654435761U + static_cast<std::uint32_t>(k);
    while (b.size() < len) { s = s * 1664525U + 1013904223U; b.push_back(static_cast<std::uint8_t>(s >> 24)); }
    return b;
}
int IdOf(const std::uint8_t* p, std::size_t n) { return n >= 3 ? p[1] + 256 * p[2] : 0; }
bool Intact(char k, const std::uint8_t* p, std::size_t n) { if (n < 3) return false; const Bytes e = Make(k, IdOf(p, n), n); return e.size() == n && std::memcmp(e.data(), p, n) == 0; }
using C2S = mp::detail::ClientToServer;
using S2C = mp::detail::ServerToClient;
template <typename E> std::uint8_t Num(E e) { return static_cast<std::uint8_t>(e); }

struct World;
World* W{nullptr};
enum { kSend = 0, kReq = 1, kWait = 2 };

struct Client {
    int c{0};
    std::string name;
    mp::IClientFactory::ClientConfig cfg{};
    mp::ServiceProtocolConfig proto{};
    score::cpp::pmr::unique_ptr<mp::IClientConnection> own;
    mp::IClientConnection* conn{nullptr};
    bool dead{false};           // destroyed (or being)
    int active{0};              // calls of users in progress
    int starting{0};
    bool told_ready{false};
    int inc{0};
    int restarts{0};
    bool resting{true};         // not started, or said to have stopped
};
struct SrvConn { mp::IServerConnection* h{nullptr}; int x{0}; std::deque<int> todo; };

struct World {
    Poison mem;
    std::shared_ptr<mp::UnixDomainEngine> ec, es;
    std::unique_ptr<mp::UnixDomainClientFactory> cf;
    std::unique_ptr<mp::UnixDomainServerFactory> sf;
    score::cpp::pmr::unique_ptr<mp::IServer> server;
    std::string svc{"svc"};
    std::uint32_t smax{0}, rmax{0}, nmax{0};
    std::vector<std::unique_ptr<Client>> clients;
    std::mutex srv_mutex;
    std::map<int, SrvConn> conns;
    int next_m{0}, next_n{0};
    int budget{0};
    bool listening{false};
    bool rest{false};           // no more activity by callbacks
    int reply_len_style{0};
    std::map<int, std::size_t> len_of;
    int faults{0};
    bool raw_server{false};
    int p_stop{36}, p_unsol{20}, p_fault{25}, p_cbstop{40}, p_chain{4};    // one in ...
    std::map<int, int> conn_of_m;

    static std::uint32_t Lim(std::uint32_t max) { return std::min<std::uint32_t>(max, 65535); }
    static std::size_t Len(std::uint32_t max) { const std::uint64_t d = Rnd(6); max = Lim(max); std::size_t l = d == 0 ? max : d == 1 ? max - 1 : d == 2 ? 3 : 3 + Rnd(max - 2); return std::max<std::size_t>(3, std::min<std::size_t>(l, max)); }
    bool OnEngine(const Client&) const { return ec->IsOnCallbackThread(); }

    // ---- sending
    struct Done { int m; int c; };
    void Rep(int c, int m, const score::cpp::expected<score::cpp::span<const std::uint8_t>, os::Error>& r) {
        if (r.has_value()) Emit("{\"e\":\"Rep\",\"c\":%d,\"m\":%d,\"ok\":true,\"id\":%d,\"in\":%s,\"err\":0}", c, m, IdOf(r->data(), r->size()), B(Intact('r', r->data(), r->size()) && r->size() == RLen(IdOf(r->data(), r->size()))));
        else Emit("{\"e\":\"Rep\",\"c\":%d,\"m\":%d,\"ok\":false,\"id\":0,\"in\":true,\"err\":%d}", c, m, r.error().GetOsDependentErrorCode());
    }
    std::size_t RLen(int m) const { return std::max<std::size_t>(3, std::min<std::size_t>(3 + static_cast<std::size_t>(m * 7 % 23), rmax)); }
    const char* Code(int e) { return e == EMSGSIZE ? "big" : e == EINVAL ? "inval" : e == ENOBUFS ? "full" : e == EAGAIN ? "again" : "io"; }
    void Send(Client& cl, int kind) {
        if (cl.dead || budget <= 0) return;
        --budget;
        const int m = ++next_m;
        std::size_t len = Len(smax);
        const bool big = Rnd(14) == 0;
        if (big) len = Lim(smax) + 1 + (Rnd(3) == 0 ? Rnd(70000) : Rnd(3));
        len_of[m] = len;
        conn_of_m[m] = cl.c;
        const Bytes b = Make(kind == kSend ? 's' : 'q', m, len);
        ++cl.active;
        const bool cb = OnEngine(cl);
        const int inc0 = cl.inc;
        const bool rdy0 = cl.told_ready;
        Emit("{\"e\":\"SendC\",\"c\":%d,\"m\":%d,\"k\":%d,\"len\":%zu,\"cb\":%s}", cl.c, m, kind, len, B(cb));
        auto* conn = cl.conn;
        const int c = cl.c;
        const score::cpp::span<const std::uint8_t> sp{b.data(), b.size()};
        auto ready = [&] { if (cl.dead) return false; vsched::Quiet q; return rdy0 && cl.inc == inc0 && conn->GetState() == mp::IClientConnection::State::kReady; };
        if (kind == kSend) {
            const auto r = conn->Send(sp);
            Emit("{\"e\":\"SendR\",\"c\":%d,\"m\":%d,\"r\":\"%s\",\"rdy\":%s}", c, m, r.has_value() ? "ok" : Code(r.error().GetOsDependentErrorCode()), B(ready()));
        } else if (kind == kReq) {
            const bool chain = Rnd(static_cast<std::uint64_t>(p_chain)) == 0;
            const bool stop = Rnd(static_cast<std::uint64_t>(p_cbstop)) == 0;
            Client* p = &cl;
            const auto r = conn->SendWithCallback(sp, [p, m, chain, stop](auto e) {
                W->Rep(p->c, m, e);
                Yield();
                if (!W->rest && chain) W->Send(*p, static_cast<int>(Rnd(3)));
                if (!W->rest && stop) W->Stop(*p);
                Emit("{\"e\":\"RepE\",\"c\":%d,\"m\":%d}", p->c, m);
            });
            Emit("{\"e\":\"SendR\",\"c\":%d,\"m\":%d,\"r\":\"%s\",\"rdy\":%s}", c, m, r.has_value() ? "ok" : Code(r.error().GetOsDependentErrorCode()), B(ready()));
        } else {
            Bytes buf(Rnd(10) == 0 ? 2 : rmax + Rnd(4), 0xEE);
            const auto r = conn->SendWaitReply(sp, score::cpp::span<std::uint8_t>{buf.data(), buf.size()});
            if (r.has_value()) {
                const bool in = r->data() == buf.data() && r->size() <= buf.size() && Intact('r', r->data(), r->size()) && r->size() == RLen(IdOf(r->data(), r->size()));
                Emit("{\"e\":\"WaitR\",\"c\":%d,\"m\":%d,\"ok\":true,\"id\":%d,\"in\":%s,\"r\":\"ok\",\"rdy\":true,\"small\":%s}", c, m, IdOf(r->data(), r->size()), B(in), B(buf.size() < 3));
            } else Emit("{\"e\":\"WaitR\",\"c\":%d,\"m\":%d,\"ok\":false,\"id\":0,\"in\":true,\"r\":\"%s\",\"rdy\":%s,\"small\":%s}", c, m, Code(r.error().GetOsDependentErrorCode()), B(ready()), B(buf.size() < 3));
        }
        --cl.active;
    }
    // ---- lifecycle
    void StateCb(Client& cl, mp::IClientConnection::State s) {
        const int st = static_cast<int>(s);
        int why = 0;
        { vsched::Quiet q; why = static_cast<int>(cl.conn->GetStopReason()); }
        if (st == 0) { ++cl.inc; cl.told_ready = false; }
        if (st == 1) cl.told_ready = true;
        cl.resting = st == 3;
        Emit("{\"e\":\"StC\",\"c\":%d,\"s\":%d,\"why\":%d,\"en\":%s}", cl.c, st, why, B(OnEngine(cl)));
        const int c = cl.c;
        Yield();
        if (!rest) {
            if (st == 0 && Rnd(15) == 0) Stop(cl);
            if (st == 1) { for (int i = RndI(0, 2); i > 0; --i) Send(cl, static_cast<int>(Rnd(2))); if (Rnd(15) == 0) Stop(cl); }
            if (st == 2 && Rnd(8) == 0) Send(cl, static_cast<int>(Rnd(2)));
            if (st == 3 && cl.active == 0 && cl.starting == 0) {
                if (Rnd(3) == 0 && cl.restarts < 3) { ++cl.restarts; Start(cl, true); }
                else if (Rnd(5) == 0) { Delete(cl); }
            }
        }
        Yield();
        Emit("{\"e\":\"StE\",\"c\":%d,\"s\":%d}", c, st);
    }
    void NotifyCb(Client& cl, score::cpp::span<const std::uint8_t> msg) {
        Emit("{\"e\":\"NotB\",\"c\":%d,\"n\":%d,\"in\":%s}", cl.c, IdOf(msg.data(), msg.size()), B(Intact('n', msg.data(), msg.size())));
        const int c = cl.c;
        Yield();
        if (!rest) { if (Rnd(5) == 0) Send(cl, static_cast<int>(Rnd(3))); if (Rnd(25) == 0) Stop(cl); }
        Emit("{\"e\":\"NotE\",\"c\":%d}", c);
    }
    void Start(Client& cl, bool re) {
        if (cl.dead) return;
        ++cl.starting; ++cl.active;
        const int c = cl.c;
        Emit("{\"e\":\"Start\",\"c\":%d,\"re\":%s}", c, B(re));
        Client* p = &cl;
        if (re) cl.conn->Restart();
        else cl.conn->Start([p](mp::IClientConnection::State s) { W->StateCb(*p, s); }, [p](score::cpp::span<const std::uint8_t> m) { W->NotifyCb(*p, m); });
        Emit("{\"e\":\"StartR\",\"c\":%d}", c);
        --cl.starting; --cl.active;
    }
    void Stop(Client& cl) {
        if (cl.dead || cl.resting) return;
        ++cl.active;
        const int c = cl.c;
        const int inc = cl.inc;
        Emit("{\"e\":\"Stop\",\"c\":%d}", c);
        cl.conn->Stop();
        Emit("{\"e\":\"StopR\",\"c\":%d,\"inc\":%d}", c, inc);
        --cl.active;
    }
    void Delete(Client& cl) {
        if (cl.dead) return;
        cl.dead = true;
        const int c = cl.c;
        Emit("{\"e\":\"Del\",\"c\":%d}", c);
        cl.own.reset();
        Emit("{\"e\":\"DelR\",\"c\":%d}", c);
    }
    // ---- server
    Bytes ReplyTo(int m) const { return Make('r', m, RLen(m)); }
    void DoReply(SrvConn& s, int m) {
        if (Rnd(20) == 0) {      // too long: refused, then the right one
            const Bytes b = Make('r', m, rmax + 1 + Rnd(3));
            const auto r = s.h->Reply(score::cpp::span<const std::uint8_t>{b.data(), b.size()});
            Emit("{\"e\":\"BigR\",\"x\":%d,\"r\":\"%s\"}", s.x, r.has_value() ? "ok" : Code(r.error().GetOsDependentErrorCode()));
        }
        const Bytes b = ReplyTo(m);
        Emit("{\"e\":\"RepC\",\"x\":%d,\"m\":%d}", s.x, m);
        auto r = s.h->Reply(score::cpp::span<const std::uint8_t>{b.data(), b.size()});
        while (!r.has_value() && r.error().GetOsDependentErrorCode() == ENOMEM) r = s.h->Reply(score::cpp::span<const std::uint8_t>{b.data(), b.size()});    // an injected fault
        Emit("{\"e\":\"RepR\",\"x\":%d,\"m\":%d,\"ok\":%s}", s.x, m, B(r.has_value()));
    }
    void DoNotify(SrvConn& s) {
        if (budget <= 0) return;
        --budget;
        const bool big = Rnd(8) == 0;
        const int n = ++next_n;
        const Bytes b = Make('n', n, big ? Lim(nmax) + 1 + Rnd(3) : Len(nmax));
        Emit("{\"e\":\"Ntf\",\"x\":%d,\"n\":%d,\"big\":%s}", s.x, n, B(big));
        const auto r = s.h->Notify(score::cpp::span<const std::uint8_t>{b.data(), b.size()});
        Emit("{\"e\":\"NtfR\",\"x\":%d,\"n\":%d,\"r\":\"%s\"}", s.x, n, r.has_value() ? "ok" : Code(r.error().GetOsDependentErrorCode()));
    }
    score::cpp::expected_blank<os::Error> OnMsg(mp::IServerConnection& h, score::cpp::span<const std::uint8_t> msg, bool req) {
        const int x = static_cast<int>(h.GetClientIdentity().pid);
        const int m = IdOf(msg.data(), msg.size());
        Emit("{\"e\":\"Recv\",\"x\":%d,\"m\":%d,\"req\":%s,\"in\":%s}", x, m, B(req), B(Intact(req ? 'q' : 's', msg.data(), msg.size()) && len_of.count(m) != 0 && len_of[m] == msg.size()));
        Yield();
        std::lock_guard<std::mutex> g{srv_mutex};
        SrvConn& s = conns[x];
        if (Rnd(50) == 0 && !rest) { Emit("{\"e\":\"Drop\",\"x\":%d}", x); return score::cpp::make_unexpected(os::Error::createFromErrno(EIO)); }
        if (Rnd(5) == 0) DoNotify(s);
        if (req) { if (Rnd(2) == 0 && s.todo.empty()) DoReply(s, m); else s.todo.push_back(m); }
        if (Rnd(8) == 0) DoNotify(s);
        return {};
    }
    void OnDis(mp::IServerConnection& h) {
        const int x = static_cast<int>(h.GetClientIdentity().pid);
        std::lock_guard<std::mutex> g{srv_mutex};
        Emit("{\"e\":\"Dis\",\"x\":%d}", x);
        conns.erase(x);
    }
    struct Handler final : public mp::IConnectionHandler {
        score::cpp::expected_blank<os::Error> OnMessageSent(mp::IServerConnection& h, score::cpp::span<const std::uint8_t> m) noexcept override { return W->OnMsg(h, m, false); }
        score::cpp::expected_blank<os::Error> OnMessageSentWithReply(mp::IServerConnection& h, score::cpp::span<const std::uint8_t> m) noexcept override { return W->OnMsg(h, m, true); }
        void OnDisconnect(mp::IServerConnection& h) noexcept override { W->OnDis(h); }
    };
    void Listen() {
        Emit("{\"e\":\"LisC\"}");
        const auto r = server->StartListening(
            [](mp::IServerConnection& h) -> score::cpp::expected<mp::UserData, os::Error> {
                const int x = static_cast<int>(h.GetClientIdentity().pid);
                const bool rej = Rnd(25) == 0 && !W->rest;
                Emit("{\"e\":\"Acc\",\"x\":%d,\"ok\":%s}", x, B(!rej));
                if (rej) return score::cpp::make_unexpected(os::Error::createFromErrno(EACCES));
                { std::lock_guard<std::mutex> g{W->srv_mutex}; W->conns[x] = SrvConn{&h, x, {}}; if (Rnd(6) == 0) W->DoNotify(W->conns[x]); }
                if (Rnd(2) == 0) return mp::UserData{score::cpp::pmr::unique_ptr<mp::IConnectionHandler>{score::cpp::pmr::make_unique<Handler>(score::cpp::pmr::get_default_resource())}};
                return mp::UserData{static_cast<void*>(nullptr)};
            },
            [](mp::IServerConnection& h) { W->OnDis(h); },
            [](mp::IServerConnection& h, score::cpp::span<const std::uint8_t> m) { return W->OnMsg(h, m, false); },
            [](mp::IServerConnection& h, score::cpp::span<const std::uint8_t> m) { return W->OnMsg(h, m, true); });
        listening = r.has_value();
        Emit("{\"e\":\"LisR\",\"ok\":%s}", B(r.has_value()));
    }
    void Unlisten() { Emit("{\"e\":\"UnlC\"}"); listening = false; server->StopListening(); Emit("{\"e\":\"UnlR\"}"); }
    void Replier() {
        for (int idle = 0; idle < 60;) {
            bool did = false;
            {
                std::lock_guard<std::mutex> g{srv_mutex};
                std::vector<int> xs;
                for (auto& [x, s] : conns) if (!s.todo.empty()) xs.push_back(x);
                if (!xs.empty() && Rnd(3) != 0) { SrvConn& s = conns[xs[Rnd(xs.size())]]; const int m = s.todo.front(); s.todo.pop_front(); DoReply(s, m); did = true; }
                else if (!conns.empty() && Rnd(6) == 0) { auto i = conns.begin(); std::advance(i, static_cast<long>(Rnd(conns.size()))); DoNotify(i->second); }
            }
            if (did) idle = 0; else { ++idle; vsched::SleepNs(rest ? 200000000 : 20000000); }
        }
        for (;;) {                // whatever is left once everybody rests
            std::lock_guard<std::mutex> g{srv_mutex};
            bool any = false;
            for (auto& [x, s] : conns) if (!s.todo.empty()) { const int m = s.todo.front(); s.todo.pop_front(); DoReply(s, m); any = true; break; }
            if (!any) { if (stop_replier) return; }
            else continue;
            break;
        }
        (void)vsched::BlockUntil([this] { if (stop_replier) return true; for (auto& [x, s] : conns) if (!s.todo.empty()) return true; return false; }, -1);
        if (!stop_replier) Replier();
    }
    bool stop_replier{false};

    // ---- peers which speak the protocol by themselves, and may break it
    static std::string Wire(std::uint8_t code, const Bytes& b) { std::string s(1, static_cast<char>(code)); const std::uint16_t n = static_cast<std::uint16_t>(b.size()); s.append(reinterpret_cast<const char*>(&n), 2); s.append(reinterpret_cast<const char*>(b.data()), b.size()); return s; }
    std::string BadFrame(std::uint32_t limit, bool& close_after, bool server) {
        close_after = false;
        limit = Lim(limit);
        switch (const auto kind = Rnd(4); kind == 1 && limit >= 65535 ? 0 : kind) {
            case 0: return Wire(static_cast<std::uint8_t>(Rnd(2) == 0 ? 2 + Rnd(4) : 200), Make('z', 1, 3 + Rnd(3)));              // unknown kind
            case 1: { std::string s = Wire(static_cast<std::uint8_t>(Rnd(2)), Bytes(std::min<std::size_t>(65535, limit + 1 + Rnd(2) * Rnd(60000)))); if (s.size() > 300) s.resize(300); close_after = s.size() == 300; return s; }   // longer than agreed
            case 2: { std::string s = Wire(static_cast<std::uint8_t>(Rnd(2)), Make(server ? 'n' : 's', 1, 3 + Rnd(limit - 2))); s.resize(1 + Rnd(s.size() - 1)); close_after = true; return s; }       // truncated
            default: { std::string s = Wire(static_cast<std::uint8_t>(Rnd(2)), Make('s', 1, 3)); s.resize(Rnd(2) + 1); close_after = true; return s; }                                                // part of a header
        }
    }
    void PutChopped(int fd, const std::string& s) {
        std::size_t o = 0;
        while (o < s.size()) { const std::size_t n = Rnd(3) == 0 ? s.size() - o : 1 + Rnd(s.size() - o); { vsched::Quiet q; if (vshim::net::put(fd, s.substr(o, n)) < 0) return; } o += n; Yield(); }
    }
    void RawClient(int c) {
        const int fd = vshim::net::socket();
        sockaddr_un u{}; u.sun_family = AF_UNIX; const std::string a = svc + "#" + std::to_string(c); std::memcpy(u.sun_path + 1, a.data(), a.size());
        int r = -1;
        for (int i = 0; i < 40 && r != 0; ++i) { r = vshim::net::connect(fd, reinterpret_cast<sockaddr*>(&u)); if (r != 0) vsched::SleepNs(30000000); }
        if (r != 0) { vshim::net::close(fd); return; }
        bool bad = false, shut = false;
        int pending = 0;
        auto drain = [&](bool eof_too) {      // what the server sent
            for (;;) {
                auto* e = vshim::net::get(fd);
                auto whole = [&] { auto* q = vshim::net::get(fd); return q->in.size() >= 3 && q->in.size() >= 3U + q->in[1] + 256U * q->in[2]; };
                if (!whole()) { if (eof_too) { (void)vsched::BlockUntil([&] { return whole() || vshim::net::get(fd)->peer < 0; }, vsched::NowNs() + 3000000000LL); if (whole()) continue; } return; }
                Bytes b; char h[3]; (void)vshim::net::read(fd, h, 3, true);
                b.resize(static_cast<std::uint8_t>(h[1]) + 256U * static_cast<std::uint8_t>(h[2]));
                if (!b.empty()) (void)vshim::net::read(fd, b.data(), b.size(), true);
                (void)e;
                const int id = IdOf(b.data(), b.size());
                if (static_cast<std::uint8_t>(h[0]) == Num(S2C::REPLY)) { Emit("{\"e\":\"Rep\",\"c\":%d,\"m\":%d,\"ok\":true,\"id\":%d,\"in\":%s,\"err\":0}", c, id, id, B(Intact('r', b.data(), b.size()) && b.size() == RLen(id))); Emit("{\"e\":\"RepE\",\"c\":%d,\"m\":%d}", c, id); --pending; }
                else if (static_cast<std::uint8_t>(h[0]) == Num(S2C::NOTIFY)) { Emit("{\"e\":\"NotB\",\"c\":%d,\"n\":%d,\"in\":%s}", c, id, B(Intact('n', b.data(), b.size()))); Emit("{\"e\":\"NotE\",\"c\":%d}", c); }
                else Emit("{\"e\":\"NotB\",\"c\":%d,\"n\":0,\"in\":false}", c);
            }
        };
        for (int i = RndI(1, 6); i > 0 && !bad; --i) {
            drain(false);
            if (vshim::net::get(fd)->peer < 0) break;
            if (Rnd(4) == 0) {
                bool cl = false;
                const std::string s = BadFrame(smax, cl, false);
                Emit("{\"e\":\"Bad\",\"c\":%d}", c);
                bad = true; PutChopped(fd, s);
                if (!cl && Rnd(2) == 0) { const Bytes b = Make('s', 999, 3); PutChopped(fd, Wire(Num(C2S::SEND), b)); }     // something behind it
                if (cl) shut = true;
            } else {
                const int k = pending == 0 ? static_cast<int>(Rnd(2)) : kSend;
                const int m = ++next_m;
                const std::size_t len = Len(smax);
                len_of[m] = len; conn_of_m[m] = c;
                Emit("{\"e\":\"SendC\",\"c\":%d,\"m\":%d,\"k\":%d,\"len\":%zu,\"cb\":false}", c, m, k, len);
                PutChopped(fd, Wire(k == kSend ? Num(C2S::SEND) : Num(C2S::REQUEST), Make(k == kSend ? 's' : 'q', m, len)));
                Emit("{\"e\":\"SendR\",\"c\":%d,\"m\":%d,\"r\":\"ok\",\"rdy\":true}", c, m);
                if (k == kReq) ++pending;
            }
        }
        if (shut) { vshim::net::close(fd); return; }
        drain(true);
        if (bad) (void)vsched::BlockUntil([&] { return vshim::net::get(fd)->peer < 0; }, vsched::NowNs() + 5000000000LL);
        Emit("{\"e\":\"RawEnd\",\"c\":%d,\"eof\":%s}", c, B(vshim::net::get(fd)->peer < 0));
        vshim::net::close(fd);
    }
    bool raw_stop{false};
    void RawServer() {
        const int lf = vshim::net::socket();
        sockaddr_un u{}; u.sun_family = AF_UNIX; std::memcpy(u.sun_path + 1, svc.data(), svc.size());
        vsched::SleepNs(static_cast<std::int64_t>(Rnd(3)) * 70000000);
        (void)vshim::net::bind(lf, reinterpret_cast<sockaddr*>(&u));
        (void)vshim::net::listen(lf);
        Emit("{\"e\":\"LisC\"}"); Emit("{\"e\":\"LisR\",\"ok\":true}");
        listening = true;
        struct Rc { int fd; int x; std::deque<int> todo; bool bad{false}; std::int64_t drop_at{0}; };
        std::vector<Rc> v;
        auto whole = [](int fd) { auto* q = vshim::net::get(fd); return q->in.size() >= 3 && q->in.size() >= 3U + q->in[1] + 256U * q->in[2]; };
        auto busy = [&] { if (raw_stop || !vshim::net::get(lf)->backlog.empty()) return true; for (auto& r : v) if (whole(r.fd) || vshim::net::get(r.fd)->peer < 0 || (!r.todo.empty() && !r.bad)) return true; return false; };
        for (;;) {
            (void)vsched::BlockUntil(busy, vsched::NowNs() + 40000000);
            if (raw_stop) break;
            if (!vshim::net::get(lf)->backlog.empty()) { const int fd = vshim::net::accept(lf); if (fd >= 0) { v.push_back({fd, vshim::net::get(fd)->x, {}}); Emit("{\"e\":\"Acc\",\"x\":%d,\"ok\":true}", v.back().x); } }
            for (std::size_t i = 0; i < v.size();) {
                Rc& r = v[i];
                auto drop = [&] { Emit("{\"e\":\"Drop\",\"x\":%d}", r.x); Emit("{\"e\":\"Dis\",\"x\":%d}", r.x); vshim::net::close(r.fd); v.erase(v.begin() + static_cast<long>(i)); };
                while (whole(r.fd)) {
                    Bytes b; char h[3]; (void)vshim::net::read(r.fd, h, 3, true);
                    b.resize(static_cast<std::uint8_t>(h[1]) + 256U * static_cast<std::uint8_t>(h[2]));
                    if (!b.empty()) (void)vshim::net::read(r.fd, b.data(), b.size(), true);
                    const int id = IdOf(b.data(), b.size());
                    const bool req = static_cast<std::uint8_t>(h[0]) == Num(C2S::REQUEST);
                    Emit("{\"e\":\"Recv\",\"x\":%d,\"m\":%d,\"req\":%s,\"in\":%s}", r.x, id, B(req), B((req || static_cast<std::uint8_t>(h[0]) == Num(C2S::SEND)) && Intact(req ? 'q' : 's', b.data(), b.size()) && len_of.count(id) != 0 && len_of[id] == b.size()));
                    if (req) r.todo.push_back(id);
                }
                if (vshim::net::get(r.fd)->peer < 0) { drop(); continue; }
                if (!r.bad && !rest && Rnd(25) == 0) { drop(); continue; }
                if (!r.bad && Rnd(3) == 0 && !r.todo.empty()) {
                    const int m = r.todo.front(); r.todo.pop_front();
                    Emit("{\"e\":\"RepC\",\"x\":%d,\"m\":%d}", r.x, m);
                    PutChopped(r.fd, Wire(Num(S2C::REPLY), ReplyTo(m)));
                    Emit("{\"e\":\"RepR\",\"x\":%d,\"m\":%d,\"ok\":true}", r.x, m);
                }
                if (!r.bad && !rest && Rnd(12) == 0) {
                    const int n = ++next_n;
                    Emit("{\"e\":\"Ntf\",\"x\":%d,\"n\":%d,\"big\":false}", r.x, n);
                    PutChopped(r.fd, Wire(Num(S2C::NOTIFY), Make('n', n, Len(nmax))));
                    Emit("{\"e\":\"NtfR\",\"x\":%d,\"n\":%d,\"r\":\"ok\"}", r.x, n);
                }
                if (!r.bad && !rest && Rnd(static_cast<std::uint64_t>(p_unsol)) == 0) {
                    bool cl = false;
                    const bool unsol = r.todo.empty() && (p_unsol < 10 || Rnd(2) == 0);       // a reply nobody asked for (as far as this side knows)
                    const std::string s = unsol ? Wire(Num(S2C::REPLY), ReplyTo(998)) : BadFrame(std::max(rmax, nmax), cl, true);
                    Emit("{\"e\":\"%s\",\"x\":%d}", unsol ? "Unsol" : "BadS", r.x);
                    r.bad = true;
                    PutChopped(r.fd, s);
                    if (cl) { drop(); continue; }
                    if (unsol) r.drop_at = vsched::NowNs() + 1000000000;
                }
                if (r.drop_at != 0 && vsched::NowNs() > r.drop_at) { drop(); continue; }
                ++i;
            }
        }
        for (auto& r : v) { Emit("{\"e\":\"Drop\",\"x\":%d}", r.x); Emit("{\"e\":\"Dis\",\"x\":%d}", r.x); vshim::net::close(r.fd); }
        vshim::net::close(lf);
    }
};
}  // namespace

static void Run(std::uint64_t seed) {
    vsched::SeedRand(seed ^ 0x3355);
    auto& net = vshim::net::sim();
    net.Reset(); net.on = true;
    World w; W = &w;
    w.smax = static_cast<std::uint32_t>(RndI(4, 60)); w.rmax = static_cast<std::uint32_t>(RndI(3, 40)); w.nmax = static_cast<std::uint32_t>(RndI(3, 60));
    if (Rnd(12) == 0) { w.smax = 65535; }     // a length field has 16 bits
    if (Rnd(20) == 0) { w.nmax = 65536; }
    w.budget = RndI(5, 30);
    w.raw_server = Rnd(3) == 0;
    const int profile = static_cast<int>(Rnd(8));      // 0: ends race with sends; 1: replies nobody asked for; 2: failing sends and ends in callbacks
    if (profile == 0) { w.p_stop = 5; w.p_cbstop = 15; }
    if (profile == 1) { w.raw_server = true; w.p_unsol = 3; }
    if (profile == 2) { w.p_fault = 4; w.p_cbstop = 4; w.p_chain = 2; }
    const int nc = profile < 3 ? 1 : RndI(1, 2);
    const int nraw = w.raw_server ? 0 : (Rnd(3) == 0 ? RndI(1, 2) : 0);
    const bool faults = profile == 2 || (profile > 2 && Rnd(4) == 0);
    const bool refuse = Rnd(8) == 0;
    net.connect_fault = [refuse](const std::string&, int) { if (W->rest) return 0; if (refuse && Rnd(3) == 0) return Rnd(2) == 0 ? EACCES : EPROTOTYPE; return Rnd(15) == 0 ? (Rnd(2) == 0 ? ENOENT : EAGAIN) : 0; };
    net.connected = [](const std::string& a, int x, int r) { const auto p = a.find('#'); Emit("{\"e\":\"Conn\",\"c\":%d,\"x\":%d,\"r\":\"%s\",\"t\":%d}", p == std::string::npos ? 0 : std::atoi(a.c_str() + p + 1), x, r == 0 ? "ok" : r == EACCES ? "perm" : (r == EAGAIN || r == ECONNREFUSED || r == ENOENT) ? "retry" : "io", Ms()); };
    net.closed = [](int x, bool s) { Emit("{\"e\":\"Shut\",\"x\":%d,\"srv\":%s}", x, B(s)); };
    if (faults) {
        net.send_fault = [](int x, bool srv, const std::string& b) { if (W->rest || Rnd(static_cast<std::uint64_t>(W->p_fault)) != 0) return 0; const auto* p = reinterpret_cast<const std::uint8_t*>(b.data()) + 3; Emit("{\"e\":\"Fault\",\"x\":%d,\"srv\":%s,\"id\":%d}", x, B(srv), srv && static_cast<std::uint8_t>(b[0]) != Num(S2C::NOTIFY) ? 0 : IdOf(p, b.size() - 3)); return ENOMEM; };
        net.recv_fault = [](int x, bool srv) { if (W->rest || Rnd(30) != 0) return 0; Emit("{\"e\":\"RFault\",\"x\":%d,\"srv\":%s}", x, B(srv)); return EIO; };
        net.accept_fault = [] { return W->rest || Rnd(6) != 0 ? 0 : EMFILE; };
    }
    Emit("{\"e\":\"Begin\",\"smax\":%u,\"raw\":%s}", World::Lim(w.smax), B(w.raw_server));
    for (int c = 1; c <= nc; ++c) {
        auto cl = std::make_unique<Client>();
        cl->c = c; cl->name = w.svc + "#" + std::to_string(c);
        cl->cfg.truly_async = Rnd(profile < 3 ? 2 : 3) == 0; cl->cfg.fully_ordered = Rnd(2) == 0; cl->cfg.sync_first_connect = Rnd(3) == 0;
        cl->cfg.max_queued_sends = static_cast<std::uint32_t>(cl->cfg.truly_async ? RndI(1, 3) : RndI(0, 3));
        cl->cfg.max_async_replies = static_cast<std::uint32_t>(RndI(0, 3));
        cl->proto = {cl->name, w.smax, w.rmax, w.nmax};
        Emit("{\"e\":\"Cfg\",\"c\":%d,\"cap\":%u,\"ord\":%s,\"sync\":%s,\"raw\":false}", c, cl->cfg.max_queued_sends + cl->cfg.max_async_replies, B(cl->cfg.truly_async || cl->cfg.fully_ordered), B(cl->cfg.sync_first_connect));
        w.clients.push_back(std::move(cl));
    }
    for (int i = 0; i < nraw; ++i) Emit("{\"e\":\"Cfg\",\"c\":%d,\"cap\":0,\"ord\":true,\"sync\":false,\"raw\":true}", 11 + i);
    vsched::Scheduler s;
    s.Spawn([&] {
        mp::LoggingCallback quiet{[](auto&&...) {}};
        const bool one = Rnd(3) == 0;
        w.ec = std::make_shared<mp::UnixDomainEngine>(&w.mem, std::move(quiet));
        if (one) w.es = w.ec; else w.es = std::make_shared<mp::UnixDomainEngine>(&w.mem, mp::LoggingCallback{[](auto&&...) {}});
        w.cf = std::make_unique<mp::UnixDomainClientFactory>(w.ec);
        w.sf = std::make_unique<mp::UnixDomainServerFactory>(w.es);
        for (auto& c : w.clients) { c->own = w.cf->Create(c->proto, c->cfg); c->conn = c->own.get(); }
        if (!w.raw_server) w.server = w.sf->Create({w.svc, w.smax, w.rmax, w.nmax}, {0, 0, 0});
        std::vector<std::thread> th;
        std::thread rep, raws;
        if (!w.raw_server) rep = std::thread([&] { w.Replier(); }); else raws = std::thread([&] { w.RawServer(); });
        const bool late = Rnd(4) == 0;
        if (!w.raw_server && !late) w.Listen();
        for (auto& c : w.clients) {
            Client* p = c.get();
            const int users = RndI(1, 3);
            for (int u = 0; u < users; ++u) th.emplace_back([&w, p, u] {
                if (u == 0) w.Start(*p, false);
                else if (Rnd(2) == 0) vsched::SleepNs(static_cast<std::int64_t>(Rnd(200)) * 1000000);
                for (int i = RndI(1, 7); i > 0; --i) {
                    switch (const auto op = Rnd(11); Rnd(static_cast<std::uint64_t>(w.p_stop)) == 0 ? 9 : op >= 9 ? op + 1 : op) {
                        case 0: case 1: case 2: w.Send(*p, kSend); break;
                        case 3: case 4: case 5: w.Send(*p, kReq); break;
                        case 6: case 7: w.Send(*p, kWait); break;
                        case 8: vsched::SleepNs(static_cast<std::int64_t>(Rnd(120)) * 1000000); break;
                        case 9: if (Rnd(3) != 0) { int n = RndI(0, 9); (void)vsched::BlockUntil([&] { return p->active > 0 && n-- <= 0; }, vsched::NowNs() + 60000000); }     // in the middle of another call
                            w.Stop(*p); break;
                        case 10: {
                            if (p->dead) break;
                            ++p->active;
                            const int inc = p->inc;
                            Emit("{\"e\":\"GetC\",\"c\":%d}", p->c);
                            const int st = static_cast<int>(p->conn->GetState());
                            Emit("{\"e\":\"Get\",\"c\":%d,\"s\":%d,\"same\":%s}", p->c, st, B(inc == p->inc));
                            --p->active;
                            break;
                        }
                        default: if (u == 0 && p->inc > 0 && !p->dead && p->active == 0 && p->starting == 0 && p->restarts < 3) { bool st = false; { vsched::Quiet q; st = p->conn->GetState() == mp::IClientConnection::State::kStopped; } if (st) { ++p->restarts; w.Start(*p, true); } } break;
                    }
                    Yield();
                }
            });
        }
        for (int i = 0; i < nraw; ++i) th.emplace_back([&w, i] { w.RawClient(11 + i); });
        if (!w.raw_server && late) { vsched::SleepNs(static_cast<std::int64_t>(Rnd(4)) * 90000000); w.Listen(); }
        bool left = false;
        if (!w.raw_server && Rnd(5) == 0) {
            vsched::SleepNs(static_cast<std::int64_t>(Rnd(100)) * 1000000);
            w.Unlisten();
            if (Rnd(2) == 0) { vsched::SleepNs(static_cast<std::int64_t>(Rnd(100)) * 1000000); w.Listen(); } else left = true;
        }
        (void)left;
        for (auto& t : th) t.join();
        w.rest = true;
        vsched::SleepNs(16000000000LL);
        for (auto& c : w.clients) { if (c->dead) continue; vsched::Quiet q; Emit("{\"e\":\"Rest\",\"c\":%d,\"s\":%d,\"why\":%d}", c->c, static_cast<int>(c->conn->GetState()), static_cast<int>(c->conn->GetStopReason())); }
        const bool server_first = Rnd(2) == 0;
        auto down = [&] { if (w.raw_server) { w.raw_stop = true; raws.join(); } else { if (w.listening) w.Unlisten(); w.stop_replier = true; rep.join(); w.server.reset(); } w.listening = false; };
        if (server_first) down();
        for (auto& c : w.clients) { if (Rnd(3) == 0) w.Stop(*c); w.Delete(*c); }
        if (!server_first) down();
        w.cf.reset(); w.sf.reset(); w.ec.reset(); w.es.reset();
    });
    vsched::Config sc;
    sc.strategy = Rnd(2) == 0 ? vsched::Strategy::kRandom : vsched::Strategy::kPct;
    sc.switch_permille = 50 + static_cast<int>(Rnd(900));
    sc.pct_depth = 2 + static_cast<int>(Rnd(5));
    sc.pct_length = 50 + static_cast<int>(Rnd(1500));
    sc.seed = seed;
    sc.max_steps = 200000;
    const auto out = s.Run(sc);
    if (!out.completed) { Emit("{\"e\":\"Hang\"}"); std::abort(); }
    net.Reset();
    Emit("{\"e\":\"End\"}");
}
int main(int argc, char** argv) {
    std::set_terminate([] { std::abort(); });
    score::cpp::set_assertion_handler([](const score::cpp::handler_parameters&) { std::abort(); });
    const auto o = vtrace::Parse(argc, argv);
    return vtrace::Drive(o, [&o](std::uint64_t i) { Run(o.seed * 1000003ULL + i); });
}
