// A named shared memory object created, opened and removed by several processes (SharedMemoryFactory, SharedMemoryResource)
#include "shm.h"
#include "score/memory/shared/shared_memory_factory.h"
#include "score/os/unistd.h"
#include <memory>
#include <vector>
#include <sys/stat.h>
namespace sh = score::memory::shared;
namespace {
const char* const kPath = "/obj";
const char* const kLock = "/tmp/obj_lock";
bool g_faults[64]{};
bool& Fault() { return g_faults[(vsched::CurrentFiber() + 1) % 64]; }
constexpr std::size_t kSize = 96;
struct T;
struct World { std::vector<std::unique_ptr<T>> ts; int busy[5]{}; bool stale{false}; int creators{0}, removers{0}, ops{0}; bool strict_uid{false}; };
struct T {
    World& w;
    int t, p;
    bool dead{false};
    char k{0};                   // operation in progress
    std::shared_ptr<sh::ISharedMemoryResource> r;
    T(World& ww, int tt, int pp) : w{ww}, t{tt}, p{pp} {}
    long Ino(sh::ISharedMemoryResource& r_) { struct stat st{}; if (::fstat(r_.GetFileDescriptor(), &st) != 0) return -1; return vshim::birth_of(static_cast<unsigned long>(st.st_ino)); }
    static unsigned char Pat(long ino, std::size_t i) { return static_cast<unsigned char>(1 + ((static_cast<unsigned long>(ino) * 31 + i * 7) % 250)); }
    void Fill(sh::ISharedMemoryResource& r_) {
        const long ino = Ino(r_);
        Emit("{\"e\":\"I\",\"t\":%d,\"i\":%ld}", t, ino);
        auto* b = static_cast<unsigned char*>(r_.allocate(kSize, 1));
        for (std::size_t i = 0; i < kSize; ++i) { b[i] = Pat(ino, i); if (i % 24 == 23) Yield(); }
        Emit("{\"e\":\"D\",\"t\":%d}", t);
    }
    bool Whole(sh::ISharedMemoryResource& r_) {
        const long ino = Ino(r_);
        bool ok = r_.GetUserAllocatedBytes() == kSize;
        (void)Survives([&] { auto* b = static_cast<unsigned char*>(r_.getUsableBaseAddress()); for (std::size_t i = 0; i < kSize; ++i) ok = ok && b[i] == Pat(ino, i); return; });
        return ok;
    }
    void Begin(char kk, bool acc) { k = kk; ++w.ops; if (k == 'c' || k == 'x') ++w.creators; if (k == 'r' || k == 's') ++w.removers; Emit("{\"e\":\"C\",\"t\":%d,\"p\":%d,\"k\":\"%c\",\"acc\":%s}", t, p, k, acc ? "true" : "false"); Fault() = false; }
    void End() { if (k == 0) return; --w.ops; if (k == 'c' || k == 'x') --w.creators; if (k == 'r' || k == 's') --w.removers; k = 0; }
    void Die(bool self) {
        dead = true;
        vshim::kill_proc(g_proc_base + p);
        for (auto i = vshim::map_owner().begin(); i != vshim::map_owner().end();) { if (i->second.second == g_proc_base + p) i = vshim::map_owner().erase(i); else ++i; }
        if (self) Emit("{\"e\":\"Dies\",\"t\":%d,\"flt\":%s}", t, Fault() ? "true" : "false"); else Emit("{\"e\":\"Crash\",\"p\":%d}", p);
        End();
    }
    void Acquire() {
        const char kk = Rnd(3) == 0 ? 'c' : (Rnd(2) == 0 ? 'o' : 'x');
        if (w.stale) return;
        if (kk != 'o' && w.removers > 0) return;
        const uid_t list0[] = {5, 0}, list1[] = {5, 6};
        std::optional<score::cpp::span<const uid_t>> allowed;
        bool acc = true;
        if (Rnd(3) == 0) { const bool good = Rnd(2) == 0; acc = good || !w.strict_uid; allowed.emplace(good ? list0 : list1, 2); }
        if (kk == 'c') acc = true;
        Begin(kk, acc);
        std::shared_ptr<sh::ISharedMemoryResource> got;
        auto cb = [this](std::shared_ptr<sh::ISharedMemoryResource> x) { Fill(*x); };
        sh::SharedMemoryFactory::UserPermissions perm = sh::SharedMemoryFactory::WorldReadable{};
        if (Rnd(2) == 0) perm = sh::SharedMemoryFactory::WorldWritable{};
        const bool ok = Survives([&] {
            if (kk == 'c') got = sh::SharedMemoryFactory::Create(kPath, cb, kSize, perm);
            else if (kk == 'o') got = sh::SharedMemoryFactory::Open(kPath, Rnd(2) == 0, allowed);
            else got = sh::SharedMemoryFactory::CreateOrOpen(kPath, cb, kSize, {perm, allowed});
        });
        if (!ok) { Die(true); return; }
        Emit("{\"e\":\"R\",\"t\":%d,\"i\":%ld,\"whole\":%s,\"flt\":%s}", t, got ? Ino(*got) : 0, got && Whole(*got) ? "true" : "false", Fault() ? "true" : "false");
        End();
        r = got;
        Rest();
    }
    void Rest() {
        for (auto& o : w.ts) if (o->p == p && o->k != 0) return;
        Emit("{\"e\":\"Rest\",\"p\":%d,\"fds\":%d,\"maps\":%d}", p, vshim::fds_of(g_proc_base + p), vshim::maps_of(g_proc_base + p));
    }
    void Release() {
        bool shared = false;
        for (auto& o : w.ts) shared = shared || (o.get() != this && o->p == p && (o->r != nullptr || o->k != 0));
        const bool last = !shared;
        (void)last;
        if (!Survives([&] { r.reset(); })) { Begin('o', true); Die(true); return; }
        Emit("{\"e\":\"Drop\",\"t\":%d}", t);
        Rest();
    }
    void Remove() {
        if (w.creators > 0 || w.removers > 0 || w.stale) return;
        Begin('r', true);
        if (!Survives([&] { sh::SharedMemoryFactory::Remove(kPath); })) { Die(true); return; }
        Emit("{\"e\":\"Rm\",\"t\":%d}", t);
        End();
    }
    void Stale() {
        // with operations of others going on, only if the lock file that is there was left behind by a dead process
        struct stat st{};
        bool left = ::stat(vshim::map_path(kLock).c_str(), &st) == 0;
        if (left) { const int m = vshim::makers()[static_cast<unsigned long>(st.st_ino)] - g_proc_base; for (auto& o : w.ts) if (o->p == m && !o->dead) left = false; }
        if (w.removers > 0 || w.creators > 0 || w.stale) return;
        if (w.ops > 0 && !left) return;
        w.stale = true;
        Begin('s', true);
        const bool ok = Survives([&] { sh::SharedMemoryFactory::RemoveStaleArtefacts(kPath); });
        w.stale = false;
        if (!ok) { Die(true); return; }
        Emit("{\"e\":\"St\",\"t\":%d}", t);
        End();
    }
    bool OthersUse() { for (auto& o : w.ts) if (o.get() != this && o->p == p && (o->r != nullptr || o->k != 0)) return true; return false; }
    void Step() {
        if (r == nullptr) {
            if (Rnd(6) == 0 && !OthersUse()) Stale(); else Acquire();
        } else {
            if (Rnd(3) == 0 && !OthersUse()) { Remove(); if (!dead && Rnd(4) != 0) Release(); }
            else if (!OthersUse()) Release();
        }
    }
};
}  // namespace
void RunCreate(std::uint64_t seed) {
    vsched::SeedRand(seed ^ 0xC4EA7);
    ::unlink(vshim::shm_path(kPath).c_str());
    ::unlink(vshim::map_path(kLock).c_str());
    vshim::births().clear(); vshim::birth_count() = 0;
    Emit("{\"e\":\"Begin\"}");
    World w;
    const int n = RndI(2, 4);
    const bool threads = false;
    const bool faults = Rnd(4) == 0, crashes = Rnd(2) == 0;
    w.strict_uid = Rnd(2) == 0;
    vshim::fake_uid() = w.strict_uid ? 77 : static_cast<uid_t>(-1);
    for (int k = 0; k < n; ++k) { w.ts.push_back(std::make_unique<T>(w, k + 1, threads ? 1 + k / 2 : k + 1)); g_proc_of_fiber[k] = w.ts.back()->p; }
    vsched::Outcome out;
    {
        vsched::Scheduler s;
        s.SetCrashCallback([&](int f) {
            T& c = *w.ts[static_cast<std::size_t>(f)];
            if (c.k == 's') w.stale = false;
            c.Die(false);
        });
        if (faults) vshim::os_hook() = [](const char* op, const std::string&) {
            if (!vsched::InFiber() || Rnd(25) != 0) return 0;
            const std::string o = op;
            if (o != "open" && o != "chmod" && o != "shm_open" && o != "fstat" && o != "ftruncate" && o != "mmap" && o != "fchmod") return 0;
            Fault() = true;
            return o == "open" || o == "shm_open" ? (Rnd(2) == 0 ? EACCES : EMFILE) : (o == "ftruncate" ? ENOSPC : ENOMEM);
        };
        for (int k = 0; k < n; ++k) s.Spawn([&, k] {
            T& x = *w.ts[static_cast<std::size_t>(k)];
            for (int i = RndI(1, 6); i > 0 && !x.dead; --i) {
                if (crashes && Rnd(5) == 0) vsched::ArmCrash(1 + Rnd(22));
                x.Step();
                Yield();
            }
            vsched::ArmCrash(0);
        });
        auto sc = SchedCfg(seed, 120);
        sc.max_steps = 200000;
        out = s.Run(sc);
    }
    vshim::os_hook() = nullptr;
    if (!out.completed) { Emit("{\"e\":\"Hang\"}"); std::abort(); }
    Emit("{\"e\":\"Names\",\"obj\":%s,\"lock\":%s}", ::access(vshim::shm_path(kPath).c_str(), F_OK) == 0 ? "true" : "false", ::access(vshim::map_path(kLock).c_str(), F_OK) == 0 ? "true" : "false");
    {
        vsched::Scheduler s;        // everybody leaves
        for (int k = 0; k < n; ++k) s.Spawn([&, k] { T& x = *w.ts[static_cast<std::size_t>(k)]; if (!x.dead && x.r != nullptr) x.Release(); });
        (void)s.Run(SchedCfg(seed));
    }
    Emit("{\"e\":\"End\"}");
    vshim::fake_uid() = static_cast<uid_t>(-1);
    for (auto& x : w.ts) (void)x.release();
}
