// One sender and one receiver on a byte stream which is cut anywhere; other writers put malformed frames into it.
#include "gw.h"
namespace {
using namespace vshim;
struct Frame { std::string head, body; };
// A well-formed frame of a message, as the framer writes it.
Frame Capture(const gw::TransportMessage& t) {
    std::string out;
    auto& n = net::sim();
    net::End a; a.kind = net::End::kStream; a.had_peer = true; a.x = 99; net::End b = a; b.server_side = true;
    const int fa = net::fresh(a), fb = net::fresh(b);
    net::get(fa)->peer = fb; net::get(fb)->peer = fa;
    decltype(n.send_part) sp; sp.swap(n.send_part); decltype(n.shut_down) sd; sd.swap(n.shut_down); decltype(n.closed) cl; cl.swap(n.closed);   // (one of them may be running)
    { gw::MessageFramer f; (void)f.SendMessage(fa, t); }
    for (unsigned char c : net::get(fb)->in) out.push_back(static_cast<char>(c));
    net::close(fa); net::close(fb);
    sp.swap(n.send_part); sd.swap(n.shut_down); cl.swap(n.closed);
    if (out.size() < gw::MessageHeader::kWireSize) return {};      // it cannot be written
    return {out.substr(0, gw::MessageHeader::kWireSize), out.substr(gw::MessageHeader::kWireSize)};
}
std::string Head(gw::MessageType t, std::uint32_t seq, std::size_t n) {
    gw::MessageHeader h; h.type = t; h.sequence = seq; h.payload_size = static_cast<std::uint32_t>(n);
    std::string s(gw::MessageHeader::kWireSize, '\0');
    h.SerializeToBuffer(reinterpret_cast<std::uint8_t*>(s.data()));
    return s;
}
}
void RunFramer(std::uint64_t seed) {
    auto& n = net::sim();
    n.Reset(); n.on = true;
    const int p_fault = Rnd(4) == 0 ? RndI(8, 40) : 0;
    const int p_bad = Rnd(2) == 0 ? RndI(3, 12) : 0;
    const int chunk = Rnd(3) == 0 ? 1 : Rnd(2) == 0 ? 4 : 2000;
    std::map<int, Content> sent;
    std::map<int, std::string> bodies;      // frames written by hand
    int cur = 0; bool put = false, rfault = false;
    Emit("{\"e\":\"Begin\"}");
    net::End a; a.kind = net::End::kStream; a.had_peer = true; a.x = 1; net::End b = a; b.server_side = true;
    const int fa = net::fresh(a), fb = net::fresh(b);
    net::get(fa)->peer = fb; net::get(fb)->peer = fa;
    n.send_part = [&](int, bool, std::size_t k) -> long {
        Yield();
        if (cur != 0 && p_fault != 0 && Rnd(static_cast<std::uint64_t>(p_fault)) == 0) { Emit("{\"e\":\"Fault\",\"m\":%d,\"cut\":%s}", cur, B(put)); return -ENOMEM; }
        put = true;
        return static_cast<long>(chunk == 2000 && Rnd(4) != 0 ? k : std::min<std::size_t>(k, 1 + Rnd(static_cast<std::uint64_t>(chunk))));
    };
    n.recv_part = [&](int, bool, std::size_t k) -> long {
        Yield();
        if (p_fault != 0 && Rnd(200) == 0) { rfault = true; Emit("{\"e\":\"RFault\"}"); return -EIO; }
        return static_cast<long>(chunk == 2000 && Rnd(4) != 0 ? k : std::min<std::size_t>(k, 1 + Rnd(static_cast<std::uint64_t>(chunk))));
    };
    vsched::Scheduler s;
    s.Spawn([&] {
        std::thread rx([&] {
            gw::MessageFramer f;
            for (;;) {
                Emit("{\"e\":\"RecvC\"}");
                auto t = f.ReceiveMessage(fb);
                if (t == nullptr) { Emit("{\"e\":\"Null\"}"); break; }
                const int m = static_cast<int>(t->GetSequenceNumber());
                bool in = false, same = false, empty = false;
                if (auto i = sent.find(m); i != sent.end()) in = i->second.Same(*t);
                if (auto i = bodies.find(m); i != bodies.end()) { vsched::Quiet q; same = Capture(*t).body == i->second; empty = i->second.empty(); }
                Emit("{\"e\":\"Recv\",\"m\":%d,\"in\":%s,\"same\":%s,\"emp\":%s}", m, B(in), B(same), B(empty));
            }
            net::close(fb);
        });
        std::thread tx([&] {
            gw::MessageFramer f;
            int m = 0;
            bool end = false;
            for (int i = RndI(2, 14); i > 0 && !end; --i) {
                if (Rnd(3) == 0) vsched::SleepNs(1000);
                ++m;
                if (p_bad != 0 && Rnd(static_cast<std::uint64_t>(p_bad)) == 0) {
                    Content c = MakeContent(m, kAny, false);
                    auto t = c.Build(); t->SetSequenceNumber(static_cast<std::uint32_t>(m));
                    Frame fr; { vsched::Quiet q; fr = Capture(*t); }
                    const char* k = "bad";
                    std::string w;
                    switch (Rnd(8)) {
                        case 0: { static constexpr int odd[] = {0, 6, 7, 0x3F, 0x41, 0x42, 0x7F, 0x81, 0xFE, 0xFF}; w = Head(static_cast<gw::MessageType>(odd[Rnd(10)]), m, fr.body.size()) + fr.body; break; }
                        case 1: { const std::size_t big[] = {1025, 1026, 2048, 65536 + 4, 0x80000000ULL, 0xFFFFFFFFULL}; w = Head(c.type, m, big[Rnd(6)]) + fr.body + std::string(1500, 'x'); break; }
                        case 2: fr.body.resize(fr.body.size() - 1 - Rnd(fr.body.size() - 1)); w = Head(c.type, m, fr.body.size()) + fr.body; break;                   // its end is missing
                        case 3: fr.body += std::string(1 + Rnd(9), Rnd(2) == 0 ? '\0' : 'y'); w = Head(c.type, m, fr.body.size()) + fr.body; break;                         // something follows it
                        case 4: { const std::string all = fr.head + fr.body; w = all.substr(0, 1 + Rnd(all.size() - 1)); end = true; break; }                               // the stream ends in it
                        case 5: k = "any"; for (int j = RndI(1, 4); j > 0; --j) fr.body[Rnd(fr.body.size())] = static_cast<char>(Rnd(3) == 0 ? 0 : Rnd(256)); w = Head(c.type, m, fr.body.size()) + fr.body; break;
                        case 6: { static constexpr gw::MessageType ts[] = {gw::MessageType::kProvideServiceRequest, gw::MessageType::kOfferServiceRequest, gw::MessageType::kRegisterNotificationRequest, gw::MessageType::kUpdateNotification, gw::MessageType::kAckResponse}; k = "any"; w = Head(ts[Rnd(5)], m, fr.body.size()) + fr.body; break; }
                        default: k = "any"; fr.body.clear(); w = Head(c.type, m, 0); break;
                    }
                    if (std::string(k) == "any") bodies[m] = fr.body;
                    Emit("{\"e\":\"Bad\",\"m\":%d,\"k\":\"%s\"}", m, k);
                    for (std::size_t p = 0; p < w.size();) { const std::size_t len = std::min<std::size_t>(w.size() - p, 1 + Rnd(static_cast<std::uint64_t>(chunk))); (void)net::put(fa, w.substr(p, len)); p += len; Yield(); }
                    continue;
                }
                auto c = std::make_unique<Content>(MakeContent(m, kAny, Rnd(8) == 0));
                sent[m] = *c;
                auto t = c->Build(); t->SetSequenceNumber(static_cast<std::uint32_t>(m));
                cur = m; put = false;
                Emit("{\"e\":\"Send\",\"m\":%d,\"fits\":%s}", m, B(c->fits));
                const bool ok = f.SendMessage(fa, *t).has_value();
                Emit("{\"e\":\"SendR\",\"m\":%d,\"ok\":%s}", m, B(ok));
                cur = 0;
                for (auto& x : c->names) std::fill(x.begin(), x.end(), '?');      // the caller's memory is its own again
                c.reset(); t.reset();
            }
            net::close(fa);
            Emit("{\"e\":\"Close\"}");
        });
        tx.join(); rx.join();
        Emit("{\"e\":\"Rest\"}");
    });
    Explore(s, seed, 400000);
    n.Reset();
    Emit("{\"e\":\"End\"}");
}
