// Lock files and file mutexes of several processes (LockFile, ExclusiveFlockMutex, SharedFlockMutex)
#include "shm.h"
#include "score/memory/shared/flock/exclusive_flock_mutex.h"
#include "score/memory/shared/flock/flock_mutex_and_lock.h"
#include "score/memory/shared/flock/shared_flock_mutex.h"
#include "score/memory/shared/lock_file.h"
#include <memory>
#include <mutex>
#include <set>
#include <vector>
#include <sys/stat.h>
namespace sh = score::memory::shared;
namespace {
const char* const kPaths[] = {"/tmp/lockA", "/tmp/lockB", "/tmp/lockC"};
bool g_faults[64]{};
bool& Fault() { return g_faults[(vsched::CurrentFiber() + 1) % 64]; }
int g_handles{0};
struct Handle { int h{0}; std::optional<sh::LockFile> f; };
struct W {
    int p;                       // process (1..)
    bool faults;
    bool dead{false};
    std::vector<std::unique_ptr<Handle>> hs;
    explicit W(int pp, bool fl) : p{pp}, faults{fl} {}
    long Inode() {               // of the descriptor this process opened last
        int best = -1;
        for (auto& [fd, o] : vshim::fd_owner()) if (o == vshim::cur_proc() && fd > best) { bool known = false; for (int k : fds) known = known || k == fd; if (!known) best = fd; }
        struct stat st{};
        if (best < 0 || ::fstat(best, &st) != 0) return -1;
        fds.push_back(best);
        return vshim::birth_of(static_cast<unsigned long>(st.st_ino));
    }
    std::vector<int> fds;
    void Forget() { for (auto i = fds.begin(); i != fds.end();) { auto f = vshim::fd_owner().find(*i); if (f == vshim::fd_owner().end() || f->second != vshim::cur_proc()) i = fds.erase(i); else ++i; } }
    template <typename F> bool Guarded(F&& f) {
        Fault() = false;
        const bool ok = Survives(f);
        if (!ok) Die();
        return ok;
    }
    void Die() { dead = true; vshim::kill_proc(g_proc_base + p); Emit("{\"e\":\"Crash\",\"p\":%d}", p); }
    Handle* Open(int path) {
        auto n = std::make_unique<Handle>();
        n->h = ++g_handles;
        const char* k = path == 0 ? "c" : (path == 2 || Rnd(3) != 0 ? "o" : "r");
        const bool own = path == 0 || path == 2;
        Emit("{\"e\":\"OpC\",\"h\":%d,\"p\":%d,\"f\":\"%c\",\"k\":\"%s\",\"own\":%s}", n->h, p, 'A' + path, k, own ? "true" : "false");
        if (!Guarded([&] {
                std::optional<sh::LockFile> l = k[0] == 'c' ? sh::LockFile::Create(kPaths[path]) : (k[0] == 'o' ? sh::LockFile::CreateOrOpen(kPaths[path], own && Rnd(2) == 0) : sh::LockFile::Open(kPaths[path]));
                if (l.has_value()) {
                    if (path == 2 && Rnd(2) == 0) l->TakeOwnership();
                    if (Rnd(3) == 0) { n->f.emplace(std::move(*l)); } else { n->f = std::move(l); }
                }
            })) return nullptr;
        if (!n->f.has_value()) { Emit("{\"e\":\"OpR\",\"h\":%d,\"ok\":false,\"ino\":0,\"flt\":%s}", n->h, Fault() ? "true" : "false"); return nullptr; }
        Emit("{\"e\":\"OpR\",\"h\":%d,\"ok\":true,\"ino\":%ld,\"flt\":false}", n->h, Inode());
        hs.push_back(std::move(n));
        return hs.back().get();
    }
    void Close(std::size_t k) {
        auto n = std::move(hs[k]);
        hs.erase(hs.begin() + static_cast<long>(k));
        Emit("{\"e\":\"ClC\",\"h\":%d}", n->h);
        const bool ok = Guarded([&] {
            if (Rnd(4) == 0 && n->f.has_value()) { sh::LockFile o{std::move(*n->f)}; n->f.reset(); Yield(); } else { n->f.reset(); }
        });
        if (!ok) return;
        Forget();
        Emit("{\"e\":\"ClR\",\"h\":%d}", n->h);
    }
    // replaces one open lock file by another one through move assignment
    void Replace(std::size_t k, int path) {
        auto* old = hs[k].get();
        Handle* nw = Open(path);
        if (nw == nullptr) return;
        Emit("{\"e\":\"ClC\",\"h\":%d}", old->h);
        if (!Guarded([&] { *old->f = std::move(*nw->f); nw->f.reset(); })) return;
        Forget();
        Emit("{\"e\":\"ClR\",\"h\":%d}", old->h);
        old->h = nw->h;
        hs.erase(hs.begin() + static_cast<long>(hs.size() - 1));
    }
    template <typename M> void Mutex(Handle* h, const char* x) {
        const int how = RndI(0, 4);
        const bool t = how >= 2;
        auto call = [&] { Emit("{\"e\":\"LkC\",\"h\":%d,\"x\":\"%s\",\"t\":%s}", h->h, x, t ? "true" : "false"); };
        auto ret = [&](bool ok) { Emit("{\"e\":\"LkR\",\"h\":%d,\"ok\":%s,\"flt\":%s}", h->h, ok ? "true" : "false", Fault() ? "true" : "false"); };
        auto hold = [&] { for (int i = RndI(0, 4); i > 0; --i) Yield(); };
        auto un = [&](bool c) { Emit("{\"e\":\"%s\",\"h\":%d}", c ? "UnC" : "UnR", h->h); };
        (void)Guarded([&] {
            if (how == 0) {
                M m{*h->f};
                call(); m.lock(); ret(true); hold(); un(true); m.unlock(); un(false);
            } else if (how == 1) {
                M m{*h->f};
                call();
                { std::lock_guard<M> g{m}; ret(true); hold(); un(true); }
                un(false);
            } else if (how == 2) {
                M m{*h->f};
                call();
                if (m.try_lock()) { ret(true); hold(); un(true); m.unlock(); un(false); } else ret(false);
            } else {
                call();
                bool got = false;
                { sh::FlockMutexAndLock<M> m{*h->f}; got = m.TryLock(); ret(got); if (got) { hold(); un(true); } }
                if (got) un(false);
            }
        });
    }
    void Round() {
        const int path = RndI(0, 2);
        Handle* h = Open(path);
        if (h != nullptr && path != 0) {
            for (int i = RndI(0, 2); i > 0 && !dead; --i) { if (Rnd(2) == 0) Mutex<sh::ExclusiveFlockMutex>(h, "X"); else Mutex<sh::SharedFlockMutex>(h, "S"); Yield(); }
        }
        if (dead) return;
        if (!hs.empty() && Rnd(8) == 0) Replace(Rnd(hs.size()), RndI(0, 2));
        while (!dead && !hs.empty() && (hs.size() > 1 || Rnd(3) != 0)) { Close(Rnd(hs.size())); }
        if (!dead) Emit("{\"e\":\"Rest\",\"p\":%d,\"fds\":%d}", p, vshim::fds_of(g_proc_base + p));
    }
};
}  // namespace
void RunLock(std::uint64_t seed) {
    vsched::SeedRand(seed ^ 0x10CC);
    for (auto* p : kPaths) ::unlink(vshim::map_path(p).c_str());
    vshim::births().clear(); vshim::birth_count() = 0;
    Emit("{\"e\":\"Begin\"}");
    const int procs = RndI(2, 4);
    const bool faults = Rnd(3) == 0, crashes = Rnd(3) == 0;
    g_handles = 0;
    { const int fd = ::open(vshim::map_path(kPaths[1]).c_str(), O_CREAT | O_RDONLY, 0444); ::close(fd); }     // path B exists from the beginning
    std::vector<std::unique_ptr<W>> ws;
    for (int k = 0; k < procs; ++k) { ws.push_back(std::make_unique<W>(k + 1, faults)); g_proc_of_fiber[k] = k + 1; }
    vsched::Outcome out;
    {
        vsched::Scheduler s;
        s.SetCrashCallback([&](int f) { ws[static_cast<std::size_t>(f)]->Die(); });
        if (faults) vshim::os_hook() = [](const char* op, const std::string&) {
            if (!vsched::InFiber() || Rnd(12) != 0) return 0;
            const std::string o = op;
            if (o != "open" && o != "chmod" && o != "flock") return 0;
            Fault() = true;                     // no scheduling point between here and the end of the call's evaluation
            return o == "open" ? (Rnd(2) == 0 ? EACCES : EMFILE) : (o == "chmod" ? EPERM : (Rnd(2) == 0 ? ENOLCK : EINTR));
        };
        for (int k = 0; k < procs; ++k) s.Spawn([&, k] {
            auto& w = *ws[static_cast<std::size_t>(k)];
            for (int i = RndI(1, 5); i > 0 && !w.dead; --i) {
                if (crashes && Rnd(5) == 0) vsched::ArmCrash(1 + Rnd(14));
                w.Round();
                Yield();
            }
            vsched::ArmCrash(0);
            while (!w.dead && !w.hs.empty() && Rnd(5) != 0) w.Close(0);
        });
        out = s.Run(SchedCfg(seed, 80));
    }
    vshim::os_hook() = nullptr;
    if (!out.completed) { Emit("{\"e\":\"Hang\"}"); std::abort(); }
    Emit("{\"e\":\"Name\",\"ex\":%s}", ::access(vshim::map_path(kPaths[0]).c_str(), F_OK) == 0 ? "true" : "false");
    Emit("{\"e\":\"End\"}");
    {
        vsched::Scheduler s;
        for (int k = 0; k < procs; ++k) s.Spawn([&, k] { auto& w = *ws[static_cast<std::size_t>(k)]; if (w.dead) { for (auto& h : w.hs) (void)h.release(); w.hs.clear(); } else w.hs.clear(); });
        (void)s.Run(SchedCfg(seed));
    }
}
