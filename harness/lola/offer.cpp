// Providers which offer, withdraw, crash and restart, and consumers which connect, disconnect and crash, over the shared
// objects and marker files of one service instance (L03): real Skeleton, Proxy, SkeletonMemoryManager, LockFile, flock.
#include "lola.h"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <set>
#include <sys/stat.h>
namespace {
struct Payload { std::uint32_t v; };
constexpr std::uint16_t kService = 17, kInstance = 3;
std::string List(const std::set<long>& s) { std::string l; for (long x : s) l += (l.empty() ? "" : ",") + std::to_string(x); return l; }
bool IsObject(const std::string& n) { return n.find("lola") != std::string::npos && n.find("lock") == std::string::npos; }
// the objects which exist under their names
std::set<long> Named() {
    std::set<long> s;
    const std::string dir = vshim::map_path("/dev/shm");
    if (DIR* d = ::opendir(dir.c_str())) {
        while (auto* e = ::readdir(d)) {
            struct stat st{};
            if (e->d_name[0] != '.' && IsObject(e->d_name) && ::stat((dir + "/" + e->d_name).c_str(), &st) == 0) s.insert(vshim::birth_of(static_cast<unsigned long>(st.st_ino)));
        }
        ::closedir(d);
    }
    return s;
}
// the objects a process has open
std::set<long> Opened(int proc) {
    std::set<long> s;
    for (auto& [fd, p] : vshim::fd_owner()) if (p == g_proc_base + proc) {
        char b[512]; const auto n = ::readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), b, sizeof(b) - 1);
        if (n <= 0) continue;
        std::string path(b, static_cast<std::size_t>(n));
        struct stat st{};
        if (path.find("/dev/shm/") != std::string::npos && path.find("lock") == std::string::npos && ::fstat(fd, &st) == 0) s.insert(vshim::birth_of(static_cast<unsigned long>(st.st_ino)));
    }
    return s;
}
// a lock file whose holder is gone
bool Stale() {
    std::set<std::string> held;
    for (auto& [fd, p] : vshim::fd_owner()) {
        char b[512]; const auto n = ::readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), b, sizeof(b) - 1);
        if (n > 0) { std::string x(b, static_cast<std::size_t>(n)); held.insert(x.substr(x.rfind('/') + 1)); }
    }
    bool stale = false;
    const std::string dir = vshim::map_path("/tmp");
    if (DIR* d = ::opendir(dir.c_str())) {
        while (auto* e = ::readdir(d)) if (std::strncmp(e->d_name, "lola-", 5) == 0 && held.count(e->d_name) == 0) stale = true;
        ::closedir(d);
    }
    return stale;
}
void Clean(const std::string& dir, const char* prefix = "") {
    const std::string d0 = vshim::map_path(dir);
    if (DIR* d = ::opendir(d0.c_str())) {
        while (auto* e = ::readdir(d)) if (e->d_name[0] != '.' && std::strncmp(e->d_name, prefix, std::strlen(prefix)) == 0) ::unlink((d0 + "/" + e->d_name).c_str());
        ::closedir(d);
    }
}
}  // namespace
void RunOffer(std::uint64_t seed, const char* strict) {
    vsched::SeedRand(seed ^ 0x0FFE);
    Clean("/dev/shm"); Clean("/tmp", "lola-"); Clean("/tmp/mw_com_lola/partial_restart");
    vshim::births().clear(); vshim::birth_count() = 0;
    const bool only_taking = std::strcmp(strict, "take") == 0;
    const int nprov = only_taking ? 3 : RndI(1, 2), ncons = only_taking ? 0 : RndI(1, 3);
    const bool half = std::strcmp(strict, "half") == 0;
    const impl::QualityType q = Rnd(2) == 0 && !half ? impl::QualityType::kASIL_QM : impl::QualityType::kASIL_B;
    const impl::QualityType cq = q == impl::QualityType::kASIL_B && Rnd(2) == 0 && !half ? impl::QualityType::kASIL_QM : q;
    Emit("{\"e\":\"Begin\",\"objs\":%d,\"strict\":\"%s\"}", q == impl::QualityType::kASIL_B ? 3 : 2, strict);
    vfake::Runtime rt;
    Discovery disc;
    rt.discovery = &disc;
    const std::vector<std::pair<std::string, std::uint8_t>> events{{"E", 5}, {"G", 6}};
    auto* d = new Deployment{kService, kInstance, events, 3, 3, q};
    auto* dc = new Deployment{kService, kInstance, events, 3, 3, cq};
    disc.handle = dc->handle;
    disc.initially = false;
    vfake::Messaging messaging;
    vfake::Process* procs[64]{};
    rt.current = [&]() -> vfake::Process* { return procs[ProcIndex()]; };
    vsched::Scheduler s;
    struct Fib { char kind{0}; int who{0}; int proc{0}; };
    std::vector<Fib> fibs;
    // incarnations: each is a process; the next starts when the one before ended
    const bool crashes = (Rnd(2) == 0 || half) && !only_taking;
    const int gentle = RndI(0, 1);
    auto provider = [&](int p, int proc) {
        auto arm = [&] { if (crashes && Rnd(half ? 2 : 4) == 0) vsched::ArmCrash(1 + Rnd(!half && Rnd(3) == 0 ? 200 : 60)); };
        for (int round = only_taking ? 6 : RndI(1, 3); round > 0; --round) {
            vsched::SleepNs(static_cast<std::int64_t>(Rnd(only_taking ? 3 : gentle ? 40000 : 4000)));
            arm();
            Emit("{\"e\":\"CC\",\"p\":%d}", p);
            auto* holder = new std::unique_ptr<lola::Skeleton>();    // survives a crash of this fiber undestroyed
            if (!Survives([&] { *holder = MakeSkeleton(*d); })) { Emit("{\"e\":\"Died\",\"k\":\"p\",\"w\":%d,\"lock\":%s}", p, Stale() ? "true" : "false"); vsched::CrashSelf(); }
            vsched::ArmCrash(0);
            Emit("{\"e\":\"CR\",\"p\":%d,\"ok\":%s}", p, *holder != nullptr ? "true" : "false");
            if (*holder == nullptr) { if (!only_taking) vsched::SleepNs(static_cast<std::int64_t>(Rnd(4000))); continue; }
            if (only_taking && Rnd(2) == 0) vsched::SleepNs(static_cast<std::int64_t>(Rnd(200)));
            auto* evs = new std::vector<std::unique_ptr<lola::SkeletonEvent<Payload>>>();
            for (auto& e : events) evs->push_back(std::make_unique<lola::SkeletonEvent<Payload>>(**holder, lola::ElementFqId{kService, e.second, kInstance, impl::ServiceElementType::EVENT}, e.first, lola::SkeletonEventProperties{3, 0, 0, false, 3, true}, impl::tracing::SkeletonEventTracingData{}));
            bool failed = false;
            for (int cycles = only_taking ? 0 : RndI(1, 3); cycles > 0 && !failed; --cycles) {
                impl::SkeletonBinding::SkeletonEventBindings eb;
                impl::SkeletonBinding::SkeletonFieldBindings fb;
                for (std::size_t i = 0; i < events.size(); ++i) eb.emplace(events[i].first, *(*evs)[i]);
                arm();
                Emit("{\"e\":\"OC\",\"p\":%d}", p);
                bool ok = false;
                // (waiting in vain for the lock file of a crashed creator ends the process)
                if (!Survives([&] { ok = (*holder)->PrepareOffer(eb, fb, {}).has_value(); if (ok) for (auto& e : *evs) (void)e->PrepareOffer(); })) { Emit("{\"e\":\"Died\",\"k\":\"p\",\"w\":%d,\"lock\":%s}", p, Stale() ? "true" : "false"); vsched::CrashSelf(); }
                vsched::ArmCrash(0);
                // all slots can be used again, whatever a predecessor was doing with them
                int free = 3;
                if (ok) for (auto& e : *evs) {
                    std::vector<impl::SampleAllocateePtr<Payload>> got;
                    for (int k = 0; k < 3; ++k) { auto r = e->Allocate(impl::SampleAllocateeGuard{}); if (r.has_value()) got.push_back(std::move(*r)); }
                    free = std::min(free, static_cast<int>(got.size()));
                }
                Emit("{\"e\":\"OR\",\"p\":%d,\"ok\":%s,\"objs\":[%s],\"mine\":[%s],\"free\":%s}", p, ok ? "true" : "false", List(Named()).c_str(), List(Opened(proc)).c_str(), free == 3 ? "true" : "false");
                if (!ok) { failed = true; break; }
                auto* held = new std::vector<impl::SampleAllocateePtr<Payload>>();
                for (auto& e : *evs) for (int k = RndI(0, 2); k > 0; --k) { auto r = e->Allocate(impl::SampleAllocateeGuard{}); if (r.has_value()) held->push_back(std::move(*r)); }
                vsched::SleepNs(static_cast<std::int64_t>(Rnd(6000)));
                if (crashes && Rnd(4) == 0) vsched::CrashSelf();
                delete held;
                arm();
                Emit("{\"e\":\"SC\",\"p\":%d}", p);
                for (auto& e : *evs) e->PrepareStopOffer();
                (*holder)->PrepareStopOffer({});
                vsched::ArmCrash(0);
                Emit("{\"e\":\"SR\",\"p\":%d,\"objs\":[%s]}", p, List(Named()).c_str());
                if (Rnd(2) == 0) vsched::SleepNs(static_cast<std::int64_t>(Rnd(3000)));
            }
            arm();
            Emit("{\"e\":\"DC\",\"p\":%d}", p);
            evs->clear();
            holder->reset();
            vsched::ArmCrash(0);
            Emit("{\"e\":\"DR\",\"p\":%d}", p);
            delete evs; delete holder;
        }
    };
    auto consumer = [&](int c, int proc) {
        for (int round = RndI(1, 4); round > 0; --round) {
            vsched::SleepNs(static_cast<std::int64_t>(Rnd(gentle ? 40000 : 6000)));
            if (crashes && Rnd(5) == 0) vsched::ArmCrash(1 + Rnd(60));
            auto* h = new std::unique_ptr<lola::Proxy>();
            Emit("{\"e\":\"PC\",\"c\":%d}", c);
            if (!Survives([&] { *h = lola::Proxy::Create(*dc->handle); })) { Emit("{\"e\":\"Died\",\"k\":\"c\",\"w\":%d,\"lock\":%s}", c, Stale() ? "true" : "false"); vsched::CrashSelf(); }
            vsched::ArmCrash(0);
            Emit("{\"e\":\"PR\",\"c\":%d,\"ok\":%s,\"objs\":[%s]}", c, *h != nullptr ? "true" : "false", List(Opened(proc)).c_str());
            if (*h == nullptr) { delete h; continue; }
            vsched::SleepNs(static_cast<std::int64_t>(Rnd(9000)));
            if (crashes && Rnd(4) == 0) vsched::CrashSelf();
            if (crashes && Rnd(5) == 0) vsched::ArmCrash(1 + Rnd(20));
            Emit("{\"e\":\"XC\",\"c\":%d}", c);
            (*h)->PrepareDeinitialize();
            (*h)->FinalizeDeinitialize();
            h->reset();
            vsched::ArmCrash(0);
            Emit("{\"e\":\"XR\",\"c\":%d}", c);
            delete h;
        }
    };
    int next = 1;
    auto spawn = [&](char kind, int who) {
        int prev = -1;
        for (int k = 0; k < 3; ++k) {
            const int proc = next++;
            procs[proc] = new vfake::Process(messaging, 1000 + proc, static_cast<std::uint32_t>(kind == 'p' ? 50 : 100 + who));
            procs[proc]->size_mode = Rnd(2) == 0 ? impl::ShmSizeCalculationMode::kSimulation : impl::ShmSizeCalculationMode::kAnalysis;
            const int f = s.Spawn([&, kind, who, proc, prev] {
                if (prev >= 0) {
                    (void)vsched::BlockUntil([&] { return s.Finished(prev) || s.Crashed(prev); }, -1);
                    if (!s.Crashed(prev)) return;
                }
                if (kind == 'p') provider(who, proc); else consumer(who, proc);
            });
            fibs.push_back({kind, who, proc});
            g_proc_of_fiber[f % 64] = proc;
            prev = f;
        }
    };
        for (int p = 1; p <= nprov; ++p) spawn('p', p);
    for (int c = 1; c <= ncons; ++c) spawn('c', c);
    s.SetCrashCallback([&](int f) {
        const Fib& x = fibs[static_cast<std::size_t>(f)];
        vshim::kill_proc(g_proc_base + x.proc);
        for (auto i = vshim::map_owner().begin(); i != vshim::map_owner().end();) { if (i->second.second == g_proc_base + x.proc) i = vshim::map_owner().erase(i); else ++i; }
        disc.searches.erase(std::remove_if(disc.searches.begin(), disc.searches.end(), [&](auto& y) { return y.proc == x.proc; }), disc.searches.end());
        Emit("{\"e\":\"Kill\",\"k\":\"%c\",\"w\":%d,\"objs\":[%s],\"lock\":%s}", x.kind, x.who, List(Named()).c_str(), Stale() ? "true" : "false");
    });
    auto sc = SchedCfg(seed, 1200);
    sc.max_steps = 600000;
    const auto out = s.Run(sc);
    if (!out.completed) { Emit("{\"e\":\"Bad\",\"x\":\"%s\"}", out.deadlock ? "deadlock" : "steps"); std::fflush(nullptr); std::_Exit(0); }
    Emit("{\"e\":\"End\"}");
}
