// Two gateways (or one gateway and a peer which answers late, twice, wrongly or not at all) exchange requests and notifications.
#include "gw.h"
#include "score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h"
#include "score/mw/com/gateway/transport_layer/sample/pending_request_tracker.h"
#include "score/mw/com/gateway/transport_layer/transport_error.h"
#include <set>
namespace {
using namespace vshim;
struct World { std::map<int, Content> all; int next{0}; int calls{0}; bool faults{false}; int p_tx{0}, p_rx{0}; bool over{false}; int nodes{0}; };
const char* KindOf(const gw::TransportMessage& t) { return gw::IsResponse(t.GetType()) ? "ack" : gw::IsRequest(t.GetType()) ? "req" : "ntf"; }
class Rec final : public gw::IMessageFramer {
  public:
    Rec(World& w, int n) : w_(w), n_(n) {}
    score::Result<void> SendMessage(std::int32_t fd, const gw::TransportMessage& t) override {
        const auto* a = dynamic_cast<const gw::AckResponse*>(&t);
        const int id = a != nullptr ? 0 : IdOfMessage(t);
        const int q = static_cast<int>(a != nullptr ? a->GetAckedSequence() : t.GetSequenceNumber());
        Emit("{\"e\":\"Tx\",\"n\":%d,\"k\":\"%s\",\"id\":%d,\"q\":%d}", n_, KindOf(t), id, q);
        auto r = in_.SendMessage(fd, t);
        Emit("{\"e\":\"TxR\",\"n\":%d,\"k\":\"%s\",\"id\":%d,\"q\":%d,\"ok\":%s,\"t\":%d}", n_, KindOf(t), id, q, B(r.has_value()), Ms());
        return r;
    }
    std::unique_ptr<gw::TransportMessage> ReceiveMessage(std::int32_t fd) override {
        Emit("{\"e\":\"RxC\",\"n\":%d,\"t\":%d}", n_, Ms());
        auto t = in_.ReceiveMessage(fd);
        if (t == nullptr) { Emit("{\"e\":\"Null\",\"n\":%d,\"t\":%d}", n_, Ms()); return t; }
        const auto* a = dynamic_cast<const gw::AckResponse*>(t.get());
        const int id = a != nullptr ? 0 : IdOfMessage(*t);
        const int q = static_cast<int>(a != nullptr ? a->GetAckedSequence() : t->GetSequenceNumber());
        auto i = w_.all.find(id);
        Emit("{\"e\":\"Rx\",\"n\":%d,\"k\":\"%s\",\"id\":%d,\"q\":%d,\"same\":%s}", n_, KindOf(*t), id, q, B(a != nullptr || (i != w_.all.end() && i->second.Same(*t))));
        return t;
    }
  private:
    World& w_; int n_; gw::MessageFramer in_;
};
struct Node {
    World& w; int n; std::unique_ptr<gw::BidirectionalTransport> t; bool handler, nests, ready{false}; int active{0};
    Node(World& w_, int n_, int lp, int rp, int to, bool h, bool ns) : w(w_), n(n_), handler(h), nests(ns) {
        gw::HyperVisorSocketConfiguration c;
        c.remote_ip_ = score::os::Ipv4Address("10.0.0.1"); c.local_port_ = static_cast<std::uint16_t>(lp); c.remote_port_ = static_cast<std::uint16_t>(rp); c.request_timeout_ms_ = static_cast<std::uint32_t>(to);
        t = std::make_unique<gw::BidirectionalTransport>(c, std::make_unique<Rec>(w, n), std::make_unique<gw::PendingRequestTracker>());
        if (h) t->SetMessageHandler([this](std::unique_ptr<gw::TransportMessage> m) { Handle(*m); });
        Emit("{\"e\":\"New\",\"n\":%d,\"h\":%s,\"to\":%d}", n, B(h), to);
    }
    void Handle(const gw::TransportMessage& m) {
        const int id = IdOfMessage(m);
        auto i = w.all.find(id);
        Emit("{\"e\":\"Hnd\",\"n\":%d,\"id\":%d,\"same\":%s}", n, id, B(i != w.all.end() && i->second.Same(m)));
        if (Rnd(4) == 0) vsched::SleepNs(static_cast<std::int64_t>(1 + Rnd(60)) * 1000000);
        if (nests && !w.over && Rnd(3) == 0) { if (Rnd(2) == 0) (void)Request(); else Notify(); }
        Emit("{\"e\":\"HndE\",\"n\":%d,\"id\":%d}", n, id);
    }
    static const char* Why(const score::Result<void>& r) {
        if (r.has_value()) return "ok";
        if (r.error() == gw::TransportErrorc::kTimeout) return "timeout";
        if (r.error() == gw::TransportErrorc::kNotConnected) return "notconn";
        if (r.error() == gw::TransportErrorc::kSendFailure) return "sendfail";
        return "other";
    }
    bool Request() {
        const int c = ++w.calls, id = ++w.next;
        w.all[id] = MakeContent(id, kRequest, false);
        auto m = w.all[id].Build();
        ++active;
        Emit("{\"e\":\"Req\",\"n\":%d,\"c\":%d,\"id\":%d,\"t\":%d}", n, c, id, Ms());
        auto r = t->SendRequest(*m);
        Emit("{\"e\":\"ReqR\",\"n\":%d,\"c\":%d,\"res\":\"%s\",\"t\":%d}", n, c, Why(r), Ms());
        --active;
        return r.has_value();
    }
    void Notify() {
        const int c = ++w.calls, id = ++w.next;
        w.all[id] = MakeContent(id, kNotification, false);
        auto m = w.all[id].Build();
        ++active;
        Emit("{\"e\":\"Ntf\",\"n\":%d,\"c\":%d,\"id\":%d}", n, c, id);
        auto r = t->SendNotification(*m);
        Emit("{\"e\":\"NtfR\",\"n\":%d,\"c\":%d,\"res\":\"%s\"}", n, c, Why(r));
        --active;
    }
    // Setting up takes as long as the other side is not there: given up after a while
    bool SetUp() {
        bool done = false, downed = false;
        std::thread dog([this, &done, &downed] { for (int i = 0; i < 100 && !done; ++i) vsched::SleepNs(100000000); if (!done) { downed = true; Down(true); } });
        Emit("{\"e\":\"Setup\",\"n\":%d}", n);
        const bool ok = t->Setup().has_value();
        done = true;
        ready = ok;
        dog.join();
        Emit("{\"e\":\"SetupR\",\"n\":%d,\"ok\":%s}", n, B(ok));
        if (downed) Emit("{\"e\":\"DownR\",\"n\":%d}", n);
        return ok;
    }
    // during: the set-up is still going on and shuts down by itself, too; what the return means is then not known before both are over
    void Down(bool during = false) {
        Emit("{\"e\":\"Down\",\"n\":%d}", n);
        t->Shutdown();
        if (!during) Emit("{\"e\":\"DownR\",\"n\":%d}", n);
    }
};
void Sleep(int ms) { vsched::SleepNs(static_cast<std::int64_t>(ms) * 1000000); }
// ---- a peer which does not behave
struct Peer {
    World& w; int lp, rp; bool stubborn{false}; bool stop{false}; int in{-1}, out{-1};
    std::vector<std::unique_ptr<std::thread>> late;
    sockaddr_in Addr(int p) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(static_cast<std::uint16_t>(p)); return a; }
    void Put(const gw::TransportMessage& m) { gw::MessageFramer f; if (out >= 0) (void)f.SendMessage(out, m); }
    void Ack(std::uint32_t q) { gw::AckResponse a(q); Put(a); }
    void Run() {
        while (!stop) {
            const int ls = net::socket(SOCK_STREAM | SOCK_NONBLOCK);
            auto la = Addr(lp);
            if (net::bind(ls, reinterpret_cast<sockaddr*>(&la)) != 0) { net::close(ls); Sleep(20); continue; }
            net::listen(ls);
            while (!stop && out < 0) { const int s = net::socket(SOCK_STREAM); auto ra = Addr(rp); if (net::connect(s, reinterpret_cast<sockaddr*>(&ra)) == 0) out = s; else { net::close(s); Sleep(30); } }
            while (!stop && in < 0) { const int s = net::accept(ls); if (s >= 0) in = s; else Sleep(30); }
            net::close(ls);
            std::thread wr([this] { Write(); });
            Read();
            while (stubborn && !stop) Sleep(100);       // it never hangs up itself
            const int o = out; out = -1;
            if (o >= 0) { (void)net::shutdown(o); }
            wr.join();
            if (o >= 0) net::close(o);
            if (in >= 0) { net::close(in); in = -1; }
            Sleep(RndI(1, 1200));
        }
        for (auto& t : late) t->join();
        late.clear();
    }
    void Read() {
        gw::MessageFramer f;
        for (;;) {
            auto m = f.ReceiveMessage(in);
            if (m == nullptr) return;
            if (!gw::IsRequest(m->GetType())) continue;
            const auto q = m->GetSequenceNumber();
            switch (w.over ? 0 : Rnd(9)) {
                case 0: case 1: case 2: Ack(q); break;
                case 3: Ack(q); Ack(q); break;
                case 4: Ack(q + 1); break;
                case 5: Ack(q == 0 ? 7 : q - 1); if (Rnd(2) == 0) Ack(q); break;
                case 6: case 7: { const int ms = RndI(1, 300); late.push_back(std::make_unique<std::thread>([this, q, ms] { Sleep(ms); Ack(q); })); break; }
                default: break;
            }
            if (!w.over && Rnd(12) == 0) return;
        }
    }
    void Write() {
        std::uint32_t q = 1;
        for (int i = RndI(0, 8); i > 0 && out >= 0 && !w.over; --i) {
            Sleep(RndI(0, 200));
            const int id = ++w.next;
            w.all[id] = MakeContent(id, Rnd(3) == 0 ? kNotification : kRequest, false);
            auto m = w.all[id].Build();
            m->SetSequenceNumber(Rnd(6) == 0 ? q : ++q);
            for (int k = Rnd(5) == 0 ? 2 : 1; k > 0; --k) Put(*m);
            if (Rnd(15) == 0 && out >= 0) (void)net::put(out, std::string(static_cast<std::size_t>(RndI(1, 40)), static_cast<char>(Rnd(256))));
            if (Rnd(15) == 0 && out >= 0) (void)net::shutdown(out);
        }
    }
};
}
void RunTransport(std::uint64_t seed) {
    auto& n = net::sim();
    n.Reset(); n.on = true;
    auto w = std::make_unique<World>();
    const bool pair = Rnd(10) < 6;
    const bool calm = Rnd(3) == 0;
    w->faults = !calm;
    w->p_tx = Rnd(2) == 0 ? RndI(20, 120) : 0;
    w->p_rx = Rnd(2) == 0 ? RndI(40, 300) : 0;
    const bool pieces = Rnd(3) == 0;
    Emit("{\"e\":\"Begin\",\"pair\":%s}", B(pair));
    n.send_part = [&](int, bool, std::size_t k) -> long {
        Yield();
        if (w->faults && w->p_tx != 0 && Rnd(static_cast<std::uint64_t>(w->p_tx)) == 0) return -ENOMEM;
        return static_cast<long>(pieces ? 1 + Rnd(k) : k);
    };
    n.recv_part = [&](int, bool, std::size_t k) -> long {
        Yield();
        if (w->faults && w->p_rx != 0 && Rnd(static_cast<std::uint64_t>(w->p_rx)) == 0) return -EIO;
        return static_cast<long>(pieces ? 1 + Rnd(k) : k);
    };
    vsched::Scheduler s;
    s.Spawn([&] {
        const bool h1 = Rnd(12) != 0, h2 = Rnd(12) != 0, nests = Rnd(2) == 0;
        auto to = [] { return RndI(0, 3) == 0 ? RndI(1, 20) : RndI(50, 1500); };
        auto a = std::make_unique<Node>(*w, ++w->nodes, 7001, 7002, to(), h1, nests);
        std::unique_ptr<Node> b; std::unique_ptr<Peer> p; std::unique_ptr<std::thread> pt;
        if (pair) b = std::make_unique<Node>(*w, ++w->nodes, 7002, 7001, to(), h2, nests);
        else { p = std::make_unique<Peer>(Peer{*w, 7002, 7001, Rnd(4) == 0}); pt = std::make_unique<std::thread>([&] { p->Run(); }); }
        std::vector<std::unique_ptr<std::thread>> us;
        bool early = Rnd(5) == 0;       // somebody asks before the set-up is complete
        if (early) us.push_back(std::make_unique<std::thread>([&] { Sleep(RndI(0, 120)); (void)a->Request(); }));
        std::unique_ptr<std::thread> hasty;      // ... or it goes down at once
        const bool haste = Rnd(6) == 0;
        if (haste) hasty = std::make_unique<std::thread>([&] { Sleep(Rnd(3) == 0 ? RndI(0, 120) : 100 * RndI(1, 3)); for (int i = RndI(0, 40); i > 0; --i) Yield(); a->Down(true); });
        { std::thread sb([&] { if (b) { Sleep(RndI(0, 1) * RndI(0, 300)); (void)b->SetUp(); } }); (void)a->SetUp(); sb.join(); }
        if (hasty) { hasty->join(); Emit("{\"e\":\"DownR\",\"n\":%d}", a->n); }
        const bool quit = !haste && Rnd(4) == 0;       // a gateway goes down in the middle
        auto user = [&](Node* x) { for (int i = RndI(1, 5); i > 0; --i) { if (Rnd(2) == 0) Sleep(RndI(0, 400)); if (Rnd(3) != 0) (void)x->Request(); else x->Notify(); } };
        for (int i = RndI(1, 3); i > 0; --i) us.push_back(std::make_unique<std::thread>([&] { user(a.get()); }));
        for (int i = b ? RndI(0, 2) : 0; i > 0; --i) us.push_back(std::make_unique<std::thread>([&] { user(b.get()); }));
        Node* fallen = nullptr;
        if (quit) {
            Sleep(Rnd(2) == 0 ? 0 : RndI(0, 500));
            fallen = b && Rnd(2) == 0 ? b.get() : a.get();
            fallen->Down();
        }
        for (auto& t : us) t->join();
        us.clear();
        w->faults = false;
        bool both = b && h1 && h2 && !quit && !haste;
        if (fallen != nullptr && b && Rnd(2) == 0) {       // it is started again
            auto& x = fallen == a.get() ? a : b;
            x->t.reset();
            Emit("{\"e\":\"Gone\",\"n\":%d}", x->n);
            const bool first = x == a;
            x = std::make_unique<Node>(*w, ++w->nodes, first ? 7001 : 7002, first ? 7002 : 7001, to(), true, nests);
            both = first ? h2 : h1;
            (void)x->SetUp();
            if (haste) both = false;
            for (int i = RndI(0, 2); i > 0; --i) us.push_back(std::make_unique<std::thread>([&] { user(a.get()); }));
            for (int i = RndI(0, 2); i > 0; --i) us.push_back(std::make_unique<std::thread>([&] { user(b.get()); }));
            for (auto& t : us) t->join();
            us.clear();
        }
        Sleep(8000);
        w->over = true;
        Sleep(6000 + 6 * 1500);
        if (both && a->ready && b->ready) {
            Emit("{\"e\":\"Probe\",\"n\":%d,\"up\":%s,\"ok\":%s}", a->n, B(a->t->IsConnected()), B(a->Request()));
            Emit("{\"e\":\"Probe\",\"n\":%d,\"up\":%s,\"ok\":%s}", b->n, B(b->t->IsConnected()), B(b->Request()));
        }
        Sleep(3000);
        Emit("{\"e\":\"Rest\"}");
        if (b && Rnd(2) == 0) { std::thread d([&] { b->Down(); }); a->Down(); d.join(); }
        else { a->Down(); if (b) b->Down(); }
        if (p) p->stop = true;
        a->t.reset(); Emit("{\"e\":\"Gone\",\"n\":%d}", a->n);
        if (b) { b->t.reset(); Emit("{\"e\":\"Gone\",\"n\":%d}", b->n); }
        if (pt) { if (p->in >= 0) (void)net::shutdown(p->in); pt->join(); }
    });
    Explore(s, seed, 3000000);
    n.Reset();
    Emit("{\"e\":\"End\"}");
}
