// Relocatable pointers: copies, conversions, arithmetic, remapping and bounds checks (OffsetPtr)
#include "shm.h"
#include "score/memory/shared/managed_memory_resource.h"
#include "score/memory/shared/memory_resource_registry.h"
#include "score/memory/shared/offset_ptr.h"
#include <cstring>
#include <memory>
#include <set>
#include <vector>
namespace sh = score::memory::shared;
namespace {
class Fake final : public sh::ManagedMemoryResource {
  public:
    Fake(char* s, char* e) : s_{s}, e_{e} {}
    void* getBaseAddress() const noexcept override { return s_; }
    void* getUsableBaseAddress() const noexcept override { return s_; }
    std::size_t GetUserAllocatedBytes() const noexcept override { return 0; }
  private:
    const void* getEndAddress() const noexcept override { return e_; }
    const sh::MemoryResourceProxy* getMemoryResourceProxy() noexcept override { return nullptr; }
    void* do_allocate(std::size_t, std::size_t) override { return nullptr; }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(const score::cpp::pmr::memory_resource& o) const noexcept override { return this == &o; }
    char *s_, *e_;
};
struct B4 { std::int32_t v; };
struct B16 { std::int64_t a, b; };
struct B64 : B16 { char rest[48]; };
constexpr int kArena = 4096;
constexpr int kPtr = static_cast<int>(sizeof(sh::OffsetPtr<B16>));
alignas(64) char g_arena[kArena];
int Off(const void* p) { return p == nullptr ? -1 : static_cast<int>(static_cast<const char*>(p) - g_arena); }
bool g_lost{false};
template <class T> int Raw(const sh::OffsetPtr<T>& p) {     // where it points to, without checks
    const bool old = sh::EnableOffsetPtrBoundsChecking(false);
    int r = -7;
    if constexpr (std::is_void_v<T>) r = Off(p.get(std::size_t{1})); else r = Off(p.get());
    sh::EnableOffsetPtrBoundsChecking(old);
    return r;
}
int Reported(const void* p) { return Off(p); }
struct World {
    struct Region { int s, e; std::unique_ptr<Fake> f; bool in; };
    std::vector<Region> regions;
    struct P { int id, loc; char t; };      // t: 'c' char, '4', '6' (16 bytes), 'b' (64 bytes), 'v' void
    std::vector<P> ps;
    std::set<int> taken;
    int ids{0};
    template <class F> void With(const P& p, F f) {
        void* a = g_arena + p.loc;
        switch (p.t) {
            case 'c': f(*static_cast<sh::OffsetPtr<char>*>(a)); break;
            case '4': f(*static_cast<sh::OffsetPtr<B4>*>(a)); break;
            case '6': f(*static_cast<sh::OffsetPtr<B16>*>(a)); break;
            case 'b': f(*static_cast<sh::OffsetPtr<B64>*>(a)); break;
            default: f(*static_cast<sh::OffsetPtr<void>*>(a)); break;
        }
    }
    static int Size(char t) { return t == 'c' ? 1 : t == '4' ? 4 : t == '6' ? 16 : t == 'b' ? 64 : 0; }
    int PickTarget() {
        if (Rnd(10) == 0) return -1;
        const auto& g = regions[Rnd(regions.size())];
        switch (Rnd(5)) {
            case 0: return g.e - RndI(0, 70);
            case 1: return g.s - RndI(0, 20);
            case 2: return RndI(0, kArena - 80);
            default: return RndI(g.s, g.e - 1);
        }
    }
    bool Fits(int loc) {        // not overlapping another pointer; not touching the boundary of a region from outside
        if (loc < 0 || loc + kPtr > kArena) return false;
        for (int t : taken) if (loc < t + kPtr && t < loc + kPtr) return false;
        for (auto& g : regions) if (loc == g.e || loc + kPtr == g.s) return false;
        return true;
    }
    int PickLoc() {
        for (int i = 0; i < 200; ++i) {
            const auto& g = regions[Rnd(regions.size())];
            int l = 0;
            switch (Rnd(8)) {
                case 0: l = g.e - 8 * RndI(0, 5); break;
                case 1: l = g.s - 8 * RndI(0, 5); break;
                case 2: case 3: case 4: l = g.s + 8 * RndI(0, (g.e - g.s) / 8); break;
                default: l = 8 * RndI(0, kArena / 8 - 4); break;
            }
            l &= ~7;
            if (Fits(l)) return l;
        }
        return -1;
    }
    P* Slot(char t) { const int l = PickLoc(); if (l < 0) return nullptr; taken.insert(l); ps.push_back(P{++ids, l, t}); return &ps.back(); }
    void Created(const char* how, const P& p, int from, int want) {
        int raw = -9;
        With(p, [&raw](auto& x) { raw = Raw(x); });
        Emit("{\"e\":\"%s\",\"p\":%d,\"loc\":%d,\"q\":%d,\"want\":%d,\"is\":%d}", how, p.id, p.loc, from, want, raw);
    }
    void New() {
        static const char kinds[] = "c46bv";
        P* p = Slot(kinds[Rnd(5)]);
        if (p == nullptr) return;
        int t = PickTarget();
        if (t == p->loc + 1) t = -1;      // not representable (asserted)
        char* a = t < 0 ? nullptr : g_arena + t;
        void* at = g_arena + p->loc;
        const bool def = t < 0 && Rnd(2) == 0;
        switch (p->t) {
            case 'c': if (def) new (at) sh::OffsetPtr<char>(); else new (at) sh::OffsetPtr<char>(a); break;
            case '4': new (at) sh::OffsetPtr<B4>(reinterpret_cast<B4*>(a)); break;
            case '6': new (at) sh::OffsetPtr<B16>(reinterpret_cast<B16*>(a)); break;
            case 'b': new (at) sh::OffsetPtr<B64>(reinterpret_cast<B64*>(a)); break;
            default: new (at) sh::OffsetPtr<void>(static_cast<void*>(a)); break;
        }
        Created("New", *p, 0, t);
    }
    void Copy() {
        if (ps.empty()) return;
        const P q = ps[Rnd(ps.size())];
        char t = q.t;
        if (q.t == 'b' && Rnd(3) == 0) t = '6';                    // derived -> base
        else if (q.t != 'v' && Rnd(4) == 0) t = 'v';
        else if (q.t == 'v' && Rnd(2) == 0) t = "c46b"[Rnd(4)];    // explicit conversion back
        P* p = Slot(t);
        if (p == nullptr) return;
        int was = -9;
        With(q, [&was](auto& x) { was = Raw(x); });
        if (was == p->loc + 1) { ps.pop_back(); taken.erase(p->loc); return; }
        void* at = g_arena + p->loc;
        With(q, [&](auto& x) { With(*p, [&](auto& y) {
            using Q = std::decay_t<decltype(x)>; using PP = std::decay_t<decltype(y)>;
            if constexpr (std::is_same_v<PP, Q>) { new (at) PP(x); }
            else if constexpr (std::is_same_v<PP, sh::OffsetPtr<void>>) new (at) PP(x);
            else if constexpr (std::is_same_v<Q, sh::OffsetPtr<void>>) new (at) PP(x);
            else if constexpr (std::is_same_v<PP, sh::OffsetPtr<B16>> && std::is_same_v<Q, sh::OffsetPtr<B64>>) new (at) PP(x);
        }); });
        Created("Copy", *p, q.id, 0);
    }
    void Assign() {
        if (ps.empty()) return;
        const P p = ps[Rnd(ps.size())], q = ps[Rnd(ps.size())];
        if (p.t != q.t && p.t != 'v' && q.t != 'v') return;
        int was = -9;
        With(q, [&was](auto& x) { was = Raw(x); });
        if (was == p.loc + 1) return;
        With(q, [&](auto& x) { With(p, [&](auto& y) {
            using Q = std::decay_t<decltype(x)>; using PP = std::decay_t<decltype(y)>;
            if constexpr (std::is_same_v<PP, Q> || std::is_same_v<PP, sh::OffsetPtr<void>> || std::is_same_v<Q, sh::OffsetPtr<void>>) y = x;
        }); });
        Created("Asg", p, q.id, 0);
    }
    void AssignRaw() {
        if (ps.empty()) return;
        const P p = ps[Rnd(ps.size())];
        int t = PickTarget();
        if (t == p.loc + 1) t = -1;
        char* a = t < 0 ? nullptr : g_arena + t;
        With(p, [&](auto& y) { using T = typename std::decay_t<decltype(y)>::element_type; y = reinterpret_cast<T*>(a); });
        Created("AsgRaw", p, 0, t);
    }
    void Move() {        // arithmetic in place or producing a further pointer
        if (ps.empty()) return;
        const P p = ps[Rnd(ps.size())];
        int was = -9;
        With(p, [&was](auto& x) { was = Raw(x); });
        const int sz = Size(p.t);
        if (sz == 0 || was < 0) return;
        const int kind = RndI(0, 11);
        int k = RndI(-5, 5);
        const auto& g = regions[Rnd(regions.size())];
        if (Rnd(3) == 0) k = (g.e - was) / sz - RndI(0, 2);
        if (kind < 6 && (kind == 0 || kind == 1)) k = 1;
        if (kind == 2 || kind == 3) k = -1;
        const int to = was + k * sz;
        if (to < 0 || to + 80 > kArena || to == p.loc + 1) return;
        P* r = nullptr;
        if (kind == 1 || kind == 3 || kind >= 6) { r = Slot(p.t); if (r == nullptr) return; if (to == r->loc + 1 || was == r->loc + 1) { taken.erase(r->loc); ps.pop_back(); return; } }
        void* at = r != nullptr ? g_arena + r->loc : nullptr;
        With(p, [&](auto& x) {
            using PP = std::decay_t<decltype(x)>;
            if constexpr (!std::is_void_v<typename PP::element_type>) {
                switch (kind) {
                    case 0: ++x; break;
                    case 1: new (at) PP(x++); break;
                    case 2: --x; break;
                    case 3: new (at) PP(x--); break;
                    case 4: x += k; break;
                    case 5: x -= -k; break;
                    case 6: case 7: new (at) PP(x + k); break;
                    case 8: new (at) PP(k + x); break;
                    case 9: case 10: new (at) PP(x - (-k)); break;
                    default: new (at) PP((-k) - x); break;    // offset - pointer moves the pointer back
                }
            }
        });
        if (kind < 6) { if (r != nullptr) Created("Copy", *r, p.id, 0); Created("Move", p, 0, to); }
        else Created("Sum", *r, p.id, to);
    }
    void Swap() {
        if (ps.size() < 2) return;
        const P p = ps[Rnd(ps.size())], q = ps[Rnd(ps.size())];
        if (p.id == q.id || p.t != q.t) return;
        int a = 0, b = 0;
        With(p, [&a](auto& x) { a = Raw(x); });
        With(q, [&b](auto& x) { b = Raw(x); });
        if (a == q.loc + 1 || b == p.loc + 1) return;
        With(p, [&](auto& x) { With(q, [&](auto& y) { using A = std::decay_t<decltype(x)>; using Bq = std::decay_t<decltype(y)>; if constexpr (std::is_same_v<A, Bq>) { using std::swap; swap(x, y); } }); });
        With(p, [&a](auto& x) { a = Raw(x); });
        With(q, [&b](auto& x) { b = Raw(x); });
        Emit("{\"e\":\"Swap\",\"p\":%d,\"q\":%d,\"a\":%d,\"b\":%d}", p.id, q.id, a, b);
    }
    void Deref() {
        if (ps.empty()) return;
        const P p = ps[Rnd(ps.size())];
        int t = -9;
        With(p, [&t](auto& x) { t = Raw(x); });
        int sz = Size(p.t), idx = 0, got = -8;
        int how = RndI(0, 4);
        const int vs = static_cast<int>("\x01\x04\x10\x40"[Rnd(4)]);
        if (p.t == 'v') { sz = vs; how = RndI(0, 1); }
        if (how == 4 && t >= 0) {
            idx = RndI(-3, 3);
            const auto& g = regions[Rnd(regions.size())];
            if (Rnd(2) == 0) idx = (g.e - t) / sz - RndI(0, 2);
            if (t + idx * sz < 0 || t + idx * sz + 80 > kArena || t + idx * sz == p.loc + 1) idx = 0;
        }
        const bool nodata = t < 0 && how >= 2;         // dereferencing null is refused anyway
        const bool ok = Survives([&] {
            With(p, [&](auto& x) {
                using PP = std::decay_t<decltype(x)>;
                if constexpr (std::is_void_v<typename PP::element_type>) {
                    if (how == 0) got = Reported(x.get(static_cast<std::size_t>(vs)));
                    else if (vs == 1) got = Reported(x.template get<char>()); else if (vs == 4) got = Reported(x.template get<B4>());
                    else if (vs == 16) got = Reported(x.template get<B16>()); else got = Reported(x.template get<B64>());
                } else {
                    if (how == 0) got = Reported(x.get());
                    else if (how == 1) got = Reported(static_cast<typename PP::pointer>(x));
                    else if (how == 2) got = Reported(&*x);
                    else if (how == 3) got = Reported(x.operator->());
                    else got = Reported(&x[idx]);
                }
            });
        });
        Emit("{\"e\":\"Deref\",\"p\":%d,\"how\":%d,\"off\":%d,\"sz\":%d,\"ok\":%s,\"got\":%d}", p.id, nodata ? 9 : how, idx * sz, sz, ok ? "true" : "false", ok ? got : -8);
    }
    void Compare() {
        if (ps.empty()) return;
        const P p = ps[Rnd(ps.size())], q = ps[Rnd(ps.size())];
        bool eq = false, le = false, lt = false, nul = false, b = false, ge = false, gt = false, ne = false;
        int d = 0;
        bool done = false;
        With(p, [&](auto& x) { With(q, [&](auto& y) {
            using A = std::decay_t<decltype(x)>; using Bq = std::decay_t<decltype(y)>;
            if constexpr (std::is_same_v<A, Bq>) {
                eq = x == y; le = x <= y; lt = x < y; ge = x >= y; gt = x > y; ne = x != y;
                nul = x == nullptr; b = static_cast<bool>(x) && !!x && x != nullptr;
                done = true;
                if constexpr (!std::is_void_v<typename A::element_type>) { const int px = Raw(x), py = Raw(y); if (px >= 0 && py >= 0 && (px - py) % static_cast<int>(sizeof(typename A::element_type)) == 0) d = static_cast<int>(x - y) * static_cast<int>(sizeof(typename A::element_type)); else d = 77777; } else d = 77777;
            }
        }); });
        if (!done) return;
        auto s = [](bool v) { return v ? "true" : "false"; };
        Emit("{\"e\":\"Cmp\",\"p\":%d,\"q\":%d,\"eq\":%s,\"ne\":%s,\"le\":%s,\"lt\":%s,\"ge\":%s,\"gt\":%s,\"nul\":%s,\"b\":%s,\"d\":%d}", p.id, q.id, s(eq), s(ne), s(le), s(lt), s(ge), s(gt), s(nul), s(b), d);
    }
    // the region is mapped at another address: all its bytes appear there
    void Remap() {
        if (regions.size() < 2) return;
        const std::size_t a = Rnd(regions.size()), b = Rnd(regions.size());
        const Region &x = regions[a], &y = regions[b];
        if (a == b || x.e - x.s != y.e - y.s) return;
        for (std::size_t i = 0; i < ps.size();) {       // pointers that (partly) lie in the target are overwritten
            if (ps[i].loc < y.e && y.s < ps[i].loc + kPtr) { taken.erase(ps[i].loc); Emit("{\"e\":\"Gone\",\"p\":%d}", ps[i].id); ps.erase(ps.begin() + static_cast<long>(i)); } else ++i;
        }
        std::memcpy(g_arena + y.s, g_arena + x.s, static_cast<std::size_t>(x.e - x.s));
        const auto old = ps;
        for (auto& p : old) if (p.loc >= x.s && p.loc + kPtr <= x.e) {
            int was = -9;
            With(p, [&was](auto& z) { was = Raw(z); });
            P n{++ids, p.loc - x.s + y.s, p.t};
            if (was >= 0 && (was - x.s + y.s < 0 || was - x.s + y.s > kArena - 80)) { continue; }
            ps.push_back(n);
            taken.insert(n.loc);
            int is = -9;
            With(n, [&is](auto& z) { is = Raw(z); });
            Emit("{\"e\":\"Remap\",\"p\":%d,\"loc\":%d,\"q\":%d,\"d\":%d,\"is\":%d}", n.id, n.loc, p.id, y.s - x.s, is);
        }
    }
};
}  // namespace
void RunPtr(std::uint64_t seed) {
    vsched::SeedRand(seed ^ 0x9172);
    std::memset(g_arena, 0, sizeof g_arena);
    World w;
    auto& r = sh::MemoryResourceRegistry::getInstance();
    const int n = RndI(1, 4), len = 8 * RndI(6, 60);
    int at = 128 + 8 * RndI(0, 20);
    std::string rs;
    for (int i = 0; i < n; ++i) {
        const int l = Rnd(3) == 0 ? 8 * RndI(6, 60) : len;
        if (at + l + 128 > kArena) break;
        w.regions.push_back(World::Region{at, at + l, std::make_unique<Fake>(g_arena + at, g_arena + at + l), true});
        if (!rs.empty()) rs += ",";
        rs += "[" + std::to_string(at) + "," + std::to_string(at + l) + "]";
        at += l + 8 * RndI(8, 40);
        if (!r.insert_resource({static_cast<std::uint64_t>(i + 1), w.regions.back().f.get()})) std::exit(70);
    }
    Emit("{\"e\":\"Begin\",\"ps\":%d,\"regions\":[%s]}", kPtr, rs.c_str());
    for (int i = RndI(10, 60); i > 0; --i) {
        switch (Rnd(16)) {
            case 0: case 1: case 2: w.New(); break;
            case 3: case 4: case 5: w.Copy(); break;
            case 6: w.Assign(); break;
            case 7: w.AssignRaw(); break;
            case 8: case 9: w.Move(); break;
            case 10: w.Swap(); break;
            case 11: w.Compare(); break;
            case 12: if (Rnd(4) == 0) w.Remap(); break;
            default: w.Deref(); break;
        }
    }
    for (int i = 0; i < 10; ++i) w.Deref();
    Emit("{\"e\":\"End\"}");
}
