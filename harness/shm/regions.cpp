// Registered regions and lookups of the region around an address (MemoryResourceRegistry, MemoryRegionMap)
#include "shm.h"
#include "score/memory/shared/managed_memory_resource.h"
#include "score/memory/shared/memory_resource_registry.h"
#include <memory>
#include <set>
#include <vector>
namespace sh = score::memory::shared;
namespace {
constexpr std::uintptr_t kBase = 0x100000;
class Fake final : public sh::ManagedMemoryResource {
  public:
    Fake(int s, int e, bool b) : s_{s}, e_{e}, b_{b} {}
    void* getBaseAddress() const noexcept override { return reinterpret_cast<void*>(kBase + static_cast<std::uintptr_t>(s_)); }
    void* getUsableBaseAddress() const noexcept override { return getBaseAddress(); }
    std::size_t GetUserAllocatedBytes() const noexcept override { return 0; }
    bool IsOffsetPtrBoundsCheckBypassingEnabled() const noexcept override { return b_; }
  private:
    const void* getEndAddress() const noexcept override { return reinterpret_cast<void*>(kBase + static_cast<std::uintptr_t>(e_)); }
    const sh::MemoryResourceProxy* getMemoryResourceProxy() noexcept override { return nullptr; }
    void* do_allocate(std::size_t, std::size_t) override { return nullptr; }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(const score::cpp::pmr::memory_resource& o) const noexcept override { return this == &o; }
    int s_, e_;
    bool b_;
};
struct Reg { int op, id, s, e; bool b; std::unique_ptr<Fake> r; vsched::Epoch at; };
struct World {
    sh::MemoryResourceRegistry& r = sh::MemoryResourceRegistry::getInstance();
    std::vector<std::unique_ptr<Reg>> all;      // every region ever handed in: resources stay alive
    std::set<int> starts;
    int ops{0}, lks{0}, space{12}, ids{4};
    bool Insert(std::vector<Reg*>& mine, int s, int e, int id, bool b) {
        if (!b && starts.count(s) != 0) return false;
        if (!b) starts.insert(s);
        all.push_back(std::make_unique<Reg>());
        Reg* g = all.back().get();
        *g = Reg{++ops, id, s, e, b, std::make_unique<Fake>(s, e, b), {}};
        Emit("{\"e\":\"InsC\",\"o\":%d,\"id\":%d,\"s\":%d,\"t\":%d,\"b\":%s}", g->op, id, s, e, b ? "true" : "false");
        g->at = vsched::Now();
        const bool ok = r.insert_resource({static_cast<std::uint64_t>(id), g->r.get()});
        Emit("{\"e\":\"InsR\",\"o\":%d,\"ok\":%s}", g->op, ok ? "true" : "false");
        if (ok) mine.push_back(g); else if (!b) starts.erase(s);
        return true;
    }
    void RandomInsert(std::vector<Reg*>& mine) {
        const int s = RndI(0, space - 1), e = s + RndI(1, 6);
        (void)Insert(mine, s, e, RndI(1, ids), Rnd(8) == 0);
    }
    void Remove(std::vector<Reg*>& mine, std::size_t k) {
        Reg* g = mine[k];
        mine.erase(mine.begin() + static_cast<long>(k));
        Emit("{\"e\":\"RemC\",\"o\":%d}", g->op);
        r.remove_resource(static_cast<std::uint64_t>(g->id));
        Emit("{\"e\":\"RemR\",\"o\":%d}", g->op);
        if (!g->b) starts.erase(g->s);
    }
    bool Hb(int s, int e) { for (auto& g : all) if (g->s == s && g->e == e && vsched::HappensBefore(g->at)) return true; return false; }
    void Lookup() {
        const int l = ++lks;
        const int k = RndI(0, 9);
        if (k < 7) {
            const int a = RndI(0, space + 6);
            const void* p = reinterpret_cast<void*>(kBase + static_cast<std::uintptr_t>(a));
            Emit("{\"e\":\"LkC\",\"l\":%d,\"k\":\"a\",\"a\":%d}", l, a);
            std::optional<sh::MemoryRegionBounds> b = k < 4 ? r.GetBoundsFromAddress(p) : r.GetBoundsFromAddressAsInteger(kBase + static_cast<std::uintptr_t>(a));
            Ret(l, b.has_value() ? std::optional<sh::MemoryRegionBounds>(*b) : std::nullopt);
        } else {
            const int id = RndI(1, ids);
            Emit("{\"e\":\"LkC\",\"l\":%d,\"k\":\"i\",\"a\":%d}", l, id);
            if (k == 9) {
                auto* m = static_cast<Fake*>(r.at(static_cast<std::uint64_t>(id)));
                int s = -1, e = -1;
                for (auto& g : all) if (g->r.get() == m) { s = g->s; e = g->e; }
                if (m == nullptr) Ret(l, std::nullopt);
                else Emit("{\"e\":\"LkR\",\"l\":%d,\"s\":%d,\"t\":%d,\"hb\":%s}", l, s < 0 ? -2 : s, e, Hb(s, e) ? "true" : "false");
                return;
            }
            auto b = r.GetBoundsFromIdentifier(static_cast<std::uint64_t>(id));
            Ret(l, b.has_value() ? std::optional<sh::MemoryRegionBounds>(b.value()) : std::nullopt);
        }
    }
    void Ret(int l, const std::optional<sh::MemoryRegionBounds>& b) {
        if (!b.has_value()) { Emit("{\"e\":\"LkR\",\"l\":%d,\"s\":-1,\"t\":-1,\"hb\":true}", l); return; }
        const int s = static_cast<int>(static_cast<std::intptr_t>(b->GetStartAddress()) - static_cast<std::intptr_t>(kBase));
        const int e = static_cast<int>(static_cast<std::intptr_t>(b->GetEndAddress()) - static_cast<std::intptr_t>(kBase));
        Emit("{\"e\":\"LkR\",\"l\":%d,\"s\":%d,\"t\":%d,\"hb\":%s}", l, s, e, Hb(s, e) ? "true" : "false");
    }
};
}  // namespace
void RunRegions(std::uint64_t seed) {
    vsched::SeedRand(seed ^ 0x4E61);
    World w;
    const bool churn = seed % 500 == 7;
    w.space = RndI(4, 24);
    w.ids = RndI(2, 6);
    const int writers = churn ? 1 : RndI(1, 2), readers = churn ? 4 : RndI(1, 4);
    const bool clears = writers == 1 && Rnd(3) == 0;
    Emit("{\"e\":\"Begin\"}");
    vsched::PointsAtFunctionExits(churn ? 15 : static_cast<int>(Rnd(3)) * 40);
    vsched::Outcome out;
    std::vector<std::vector<Reg*>> mine(static_cast<std::size_t>(writers));
    int busy = writers;
    {
        vsched::Scheduler s;
        for (int k = 0; k < writers; ++k) s.Spawn([&, k] {
            auto& m = mine[static_cast<std::size_t>(k)];
            if (churn) {        // many registrations are refused while lookups are held up for long
                (void)w.Insert(m, 10, 20, 1, false);
                for (int i = 0; i < 400; ++i) {
                    const int moves = RndI(3, 5);
                    for (int j = 0; j < moves; ++j) { if (!m.empty()) w.Remove(m, 0); (void)w.Insert(m, 10, 20, 1, false); }
                    for (int j = 0; j < 10; ++j) (void)w.Insert(m, j % 2 == 0 ? 15 : 5, j % 2 == 0 ? 25 : 15, 2, false);
                }
            } else {
                for (int i = RndI(2, 10); i > 0; --i) {
                    if (clears && Rnd(6) == 0) {
                        Emit("{\"e\":\"ClrC\"}");
                        w.r.clear();
                        Emit("{\"e\":\"ClrR\"}");
                        m.clear(); w.starts.clear();
                    } else if (m.empty() || Rnd(3) != 0) {
                        w.RandomInsert(m);
                    } else {
                        w.Remove(m, Rnd(m.size()));
                    }
                    Yield();
                }
            }
            --busy;
        });
        for (int k = 0; k < readers; ++k) s.Spawn([&] {
            for (int i = churn ? 2000 : RndI(1, 6); i > 0 && (busy > 0 || !churn); --i) {
                if (churn || Rnd(3) == 0) vsched::ArmStall(static_cast<std::size_t>(churn ? 2 : RndI(1, 4)), churn ? RndI(500, 4000) : RndI(10, 4000));
                w.Lookup();
                Yield();
            }
        });
        auto sc = SchedCfg(seed);
        if (churn) { sc.strategy = vsched::Strategy::kRandom; sc.switch_permille = 300; }
        out = s.Run(sc);
    }
    vsched::PointsAtFunctionExits(0);
    if (!out.completed) { Emit("{\"e\":\"Hang\"}"); return; }
    // at rest: everything still works
    std::vector<Reg*> m;
    for (auto& v : mine) m.insert(m.end(), v.begin(), v.end());
    for (int i = 0; i < 14; ++i) { w.Lookup(); if (m.empty() || Rnd(2) == 0) w.RandomInsert(m); else w.Remove(m, Rnd(m.size())); }
    for (int i = 0; i < 4; ++i) w.Lookup();
    Emit("{\"e\":\"End\"}");
}
