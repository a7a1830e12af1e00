#ifndef VERIF_SHM_H
#define VERIF_SHM_H
#include "score/os/vshim_os.h"
#include "trace.h"
#include <cstdint>
using vtrace::Emit;
inline std::uint64_t Rnd(std::uint64_t n) { return n == 0 ? 0 : vsched::Rand() % n; }
inline int RndI(int lo, int hi) { return lo + static_cast<int>(Rnd(static_cast<std::uint64_t>(hi - lo + 1))); }
inline void Yield() { vsched::Point(vsched::Op::kUser, nullptr); }
inline vsched::Config SchedCfg(std::uint64_t seed, int len = 200) {
    vsched::Config sc;
    sc.strategy = Rnd(2) == 0 ? vsched::Strategy::kRandom : vsched::Strategy::kPct;
    sc.switch_permille = 50 + static_cast<int>(Rnd(900));
    sc.pct_depth = 2 + static_cast<int>(Rnd(4));
    sc.pct_length = 20 + static_cast<int>(Rnd(static_cast<std::uint64_t>(len)));
    sc.seed = seed;
    sc.max_steps = 60000;
    return sc;
}
void RunRegions(std::uint64_t seed);
void RunPtr(std::uint64_t seed);
void RunAlloc(std::uint64_t seed);
void RunLock(std::uint64_t seed);
void RunCreate(std::uint64_t seed);
extern int g_proc_base;           // processes of the run: g_proc_base + 0..63; 0 is the harness itself
extern int g_proc_of_fiber[64];
// Runs f; false if it ended the process (assertion, terminate) or touched unmapped memory
bool Survives(const std::function<void()>& f);
#endif
