#ifndef VERIF_API_H
#define VERIF_API_H
#include "trace.h"
#include "vsched.h"
#include <cstdint>
#include <functional>
using vtrace::Emit;
inline std::uint64_t Rnd(std::uint64_t n) { return n == 0 ? 0 : vsched::Rand() % n; }
inline int RndI(int lo, int hi) { return lo + static_cast<int>(Rnd(static_cast<std::uint64_t>(hi - lo + 1))); }
inline void Yield() { vsched::Point(vsched::Op::kUser, nullptr); }
inline vsched::Config SchedCfg(std::uint64_t seed, int len = 200) {
    vsched::Config sc;
    sc.strategy = Rnd(2) == 0 ? vsched::Strategy::kRandom : vsched::Strategy::kPct;
    sc.switch_permille = 50 + static_cast<int>(Rnd(900));
    sc.pct_depth = 2 + static_cast<int>(Rnd(4));
    sc.pct_length = 20 + static_cast<int>(Rnd(static_cast<std::uint64_t>(len)));
    sc.seed = seed;
    sc.max_steps = 60000;
    return sc;
}
bool Survives(const std::function<void()>& f);      // false: f ended the process
void RunHeld(std::uint64_t seed);
#endif
