// Allocations of several processes from one shared memory object (SharedMemoryResource)
#include "shm.h"
#include "score/memory/shared/polymorphic_offset_ptr_allocator.h"
#include "score/memory/shared/shared_memory_factory.h"
#include <cstdlib>
#include <memory>
#include <vector>
namespace sh = score::memory::shared;
namespace {
template <std::size_t N, std::size_t A> struct alignas(A) Block { unsigned char b[N]; };
struct Proc { std::shared_ptr<sh::ISharedMemoryResource> r; bool dead{false}; };
const char* const kPath = "/alloc";
void Grant(int p, void* q, const Proc& pr, std::size_t a) {
    const auto o = reinterpret_cast<std::intptr_t>(q) - reinterpret_cast<std::intptr_t>(pr.r->getBaseAddress());
    Emit("{\"e\":\"AR\",\"p\":%d,\"o\":%ld,\"al\":%s}", p, static_cast<long>(std::max<std::intptr_t>(-9999, std::min<std::intptr_t>(o, 999999999))), reinterpret_cast<std::uintptr_t>(q) % a == 0 ? "true" : "false");
}
template <typename T> void* ViaAllocator(Proc& pr, std::size_t n) {
    sh::PolymorphicOffsetPtrAllocator<T> al{*pr.r};
    return al.allocate(n).get();
}
template <typename T> void* ViaConstruct(Proc& pr) { return pr.r->template construct<T>(); }
void One(int p, Proc& pr, int room) {
    void* q = nullptr;
    std::size_t n = 0, a = 1;
    std::function<void()> f;
    switch (Rnd(8)) {
        case 0: n = sizeof(Block<24, 8>); a = 8; f = [&] { q = ViaConstruct<Block<24, 8>>(pr); }; break;
        case 1: n = sizeof(Block<64, 32>); a = 32; f = [&] { q = ViaConstruct<Block<64, 32>>(pr); }; break;
        case 2: { const auto k = Rnd(9); n = k; a = 1; f = [&pr, &q, k] { q = ViaAllocator<unsigned char>(pr, k); }; break; }
        case 3: { const auto k = Rnd(5); n = k * sizeof(Block<16, 16>); a = 16; f = [&pr, &q, k] { q = ViaAllocator<Block<16, 16>>(pr, k); }; break; }
        default:
            a = std::size_t{1} << Rnd(Rnd(6) == 0 ? 13 : 7);
            n = Rnd(9) == 0 ? (Rnd(3) == 0 ? ~std::size_t{0} - Rnd(70) : static_cast<std::size_t>(room) - Rnd(40) + Rnd(20)) : (Rnd(2) == 0 ? Rnd(24) : Rnd(static_cast<std::uint64_t>(room) / 3 + 2));
            f = [&pr, &q, &n, &a] { q = pr.r->allocate(n, a); };
    }
    Emit("{\"e\":\"AC\",\"p\":%d,\"n\":%ld,\"a\":%ld}", p, static_cast<long>(std::min<std::size_t>(n, 500000000)), static_cast<long>(a));
    bool threw = false;
    const bool ok = Survives([&] { try { f(); } catch (const std::exception&) { threw = true; } });
    if (!ok || threw || q == nullptr) {
        Emit("{\"e\":\"AF\",\"p\":%d}", p);
        if (!ok) pr.dead = true;
        return;
    }
    Grant(p, q, pr, a);
    if (n <= static_cast<std::size_t>(room)) std::memset(q, p, n);
}
}  // namespace
void RunAlloc(std::uint64_t seed) {
    vsched::SeedRand(seed ^ 0xA110C);
    const std::string root = vshim::root();
    const int procs = RndI(1, 4);
    const bool threads = Rnd(4) == 0;      // threads of one process instead
    const std::size_t size = Rnd(3) == 0 ? Rnd(64) : (Rnd(2) == 0 ? Rnd(600) : Rnd(9000));
    Emit("{\"e\":\"Begin\"}");
    std::vector<Proc> pr(static_cast<std::size_t>(procs));
    for (int k = 0; k < procs; ++k) g_proc_of_fiber[k] = threads ? 1 : k + 1;
    auto map = [&](int k, bool create) {
        auto& p = pr[static_cast<std::size_t>(k)];
        p.r = create ? sh::SharedMemoryFactory::Create(kPath, [](auto&&) {}, size, sh::SharedMemoryFactory::WorldWritable{}) : sh::SharedMemoryFactory::Open(kPath, true);
        if (p.r == nullptr) std::abort();
        Emit("{\"e\":\"Map\",\"low\":%ld,\"sz\":%zu,\"cb\":%zu}", static_cast<long>(reinterpret_cast<std::intptr_t>(p.r->getUsableBaseAddress()) - reinterpret_cast<std::intptr_t>(p.r->getBaseAddress())), size, sh::SharedMemoryFactory::GetControlBlockSize());
    };
    for (int phase = 0; phase < 2; ++phase) {
        vsched::Scheduler s;
        if (phase == 0) {
            s.Spawn([&] { map(0, true); });
            auto sc = SchedCfg(seed);
            if (!s.Run(sc).completed) std::abort();
            continue;
        }
        int mapped = 1;
        s.SetCrashCallback([&](int f) { pr[static_cast<std::size_t>(f)].dead = true; Emit("{\"e\":\"Crash\",\"p\":%d}", f + 1); });
        for (int k = 0; k < procs; ++k) s.Spawn([&, k] {
            auto& p = pr[static_cast<std::size_t>(k)];
            if (k > 0) { if (threads) p.r = pr[0].r; else map(k, false); ++mapped; }
            (void)vsched::BlockUntil([&] { return mapped == procs; }, -1);
            if (!threads && Rnd(8) == 0) vsched::ArmCrash(1 + Rnd(12));
            for (int i = RndI(1, 7); i > 0 && !p.dead; --i) { One(k + 1, p, static_cast<int>(size)); Yield(); }
            vsched::ArmCrash(0);
        });
        if (!s.Run(SchedCfg(seed, 60)).completed) { Emit("{\"e\":\"Hang\"}"); std::abort(); }
    }
    {
        vsched::Scheduler s;            // at rest
        for (int k = 0; k < procs; ++k) s.Spawn([&, k] {
            vsched::Quiet q;
            auto& p = pr[static_cast<std::size_t>(k)];
            for (int i = 0; i < 3 && !p.dead; ++i) {
                Emit("{\"e\":\"Rest\",\"u\":%ld}", static_cast<long>(p.r->GetUserAllocatedBytes()));
                One(k + 1, p, static_cast<int>(size));
            }
        });
        (void)s.Run(SchedCfg(seed));
    }
    Emit("{\"e\":\"End\"}");
    {
        vsched::Scheduler s;            // each process leaves
        for (int k = 0; k < procs; ++k) s.Spawn([&, k] { (void)Survives([&] { pr[static_cast<std::size_t>(k)].r.reset(); }); });
        (void)s.Run(SchedCfg(seed));
    }
    ::unlink(vshim::shm_path(kPath).c_str());
}
