#include "shm.h"
#include "score/assert.hpp"
#include <csetjmp>
#include <cstdlib>
#include <exception>
#include <csignal>
int g_proc_base{0};
namespace {
struct Jump { sigjmp_buf buf; bool armed{false}; };
Jump g_jumps[64];
Jump& Mine() { return g_jumps[(vsched::CurrentFiber() + 1) % 64]; }
void OnSig(int s) { Jump& j = Mine(); if (j.armed) { j.armed = false; siglongjmp(j.buf, 1); } ::signal(s, SIG_DFL); ::raise(s); }
}
bool Survives(const std::function<void()>& f) {
    static const bool once = [] {
        struct sigaction sa{};
        sa.sa_handler = OnSig;
        for (int s : {SIGABRT, SIGSEGV, SIGBUS}) ::sigaction(s, &sa, nullptr);
        return true;
    }();
    (void)once;
    std::set_terminate([] { std::abort(); });
    score::cpp::set_assertion_handler([](const score::cpp::handler_parameters&) {});
    Jump& j = Mine();
    bool ok = false;
    if (sigsetjmp(j.buf, 1) == 0) { j.armed = true; f(); ok = true; }
    j.armed = false;
    return ok;
}
int g_proc_of_fiber[64]{};
int main(int argc, char** argv) {
    const auto o = vtrace::Parse(argc, argv);
    vshim::proc_hook() = [] { const int f = vsched::CurrentFiber(); return g_proc_base + (f < 0 ? 0 : g_proc_of_fiber[f % 64]); };
    return vtrace::Drive(o, [&o](std::uint64_t i) {
        const std::uint64_t seed = o.seed * 1000003ULL + i;
        g_proc_base += 64;
        for (int& p : g_proc_of_fiber) p = 0;                       // fresh processes
        if (o.mode == "regions") RunRegions(seed);
        else if (o.mode == "ptr") RunPtr(seed);
        else if (o.mode == "alloc") RunAlloc(seed);
        else if (o.mode == "lock") RunLock(seed);
        else if (o.mode == "create") RunCreate(seed);

    });
}
