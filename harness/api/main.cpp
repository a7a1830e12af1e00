#include "api.h"
#include "score/assert.hpp"
#include <csetjmp>
#include <csignal>
#include <cstdlib>
#include <exception>
namespace {
struct Jump { sigjmp_buf buf; bool armed{false}; };
Jump g_jumps[64];
Jump& Mine() { return g_jumps[(vsched::CurrentFiber() + 1) % 64]; }
void OnSig(int s) { Jump& j = Mine(); if (j.armed) { j.armed = false; siglongjmp(j.buf, 1); } ::signal(s, SIG_DFL); ::raise(s); }
}
bool Survives(const std::function<void()>& f) {
    static const bool once = [] {
        struct sigaction sa{};
        sa.sa_handler = OnSig;
        for (int s : {SIGABRT, SIGSEGV, SIGBUS}) ::sigaction(s, &sa, nullptr);
        return true;
    }();
    (void)once;
    std::set_terminate([] { std::abort(); });
    score::cpp::set_assertion_handler([](const score::cpp::handler_parameters&) {});
    Jump& j = Mine();
    bool ok = false;
    if (sigsetjmp(j.buf, 1) == 0) { j.armed = true; f(); ok = true; }
    j.armed = false;
    return ok;
}
int main(int argc, char** argv) {
    const auto o = vtrace::Parse(argc, argv);
    return vtrace::Drive(o, [&o](std::uint64_t i) {
        const std::uint64_t seed = o.seed * 1000003ULL + i;
        if (o.mode == "held") RunHeld(seed);
    });
}
