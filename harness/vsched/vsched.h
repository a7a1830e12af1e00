// Deterministic fiber scheduler: all "threads"/"processes" of a test run are fibers of one OS thread, every
// atomic / lock / sleep / wait operation of the code under test is a scheduling point, and a run is a pure function
// of its seed (random walk, PCT) or of its choice script (bounded preemption search).
#ifndef VSCHED_H
#define VSCHED_H
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vsched {

enum class Strategy { kRandom, kPct, kDfs };

struct Config {
    Strategy strategy{Strategy::kRandom};
    std::uint64_t seed{1};
    int switch_permille{350};        // random: probability of considering a switch at each point
    int pct_depth{3};                // PCT: number of priority change points
    int pct_length{120};             // PCT: assumed number of steps
    int preempt_bound{2};            // DFS
    std::size_t max_steps{20000};
};

enum class Op : std::uint8_t { kLoad, kStore, kRmw, kCasOk, kCasFail, kLock, kUnlock, kSleep, kWait, kUser };

// One outcome of a run
struct Outcome {
    bool completed{false};      // every non-crashed fiber ran to its end
    bool deadlock{false};
    bool step_limit{false};
    std::size_t steps{0};
    std::size_t switches{0};
};

using AtomicWriteObserver = std::function<void(const void* addr, std::size_t size, std::uint64_t old_value, std::uint64_t new_value)>;

class Scheduler {
  public:
    Scheduler();
    ~Scheduler();
    Scheduler(const Scheduler&) = delete;
    Scheduler& operator=(const Scheduler&) = delete;

    // Add a fiber (may be called from outside before Run or from a running fiber). Returns its id (0,1,...)
    int Spawn(std::function<void()> body, std::string name = {});
    // Abandon the fiber at its n-th scheduling point (1-based, counted per fiber): models a process crash. 0: never
    void CrashAt(int fiber, std::size_t point);
    // Abandon a fiber that is not running now (its process died); no crash callback
    void Kill(int fiber);
    void SetCrashCallback(std::function<void(int)> cb);
    Outcome Run(const Config& cfg);

    std::size_t PointsOf(int fiber) const;
    bool Finished(int fiber) const;
    bool Crashed(int fiber) const;

    AtomicWriteObserver observer{};
};

Scheduler* Current();
bool InFiber();
int CurrentFiber();              // -1 outside
std::int64_t NowNs();            // virtual time

// scheduling points used by the prelude's atomics/mutexes
void Point(Op op, const void* addr);
void Observe(const void* addr, std::size_t size, std::uint64_t old_value, std::uint64_t new_value);
// Block current fiber until pred() holds or virtual deadline passes (deadline<0: none). Returns pred().
bool BlockUntil(const std::function<bool()>& pred, std::int64_t deadline_ns);
void SleepNs(std::int64_t ns);
// Crash the current fiber at its n-th crash point from now on (0: disarm). Crash points are the scheduling points and, in
// code compiled with -finstrument-functions, every function exit.
void ArmCrash(std::size_t n);
// At its n-th scheduling point from now on the current fiber is held up for ns of virtual time (10 ns per step of a fiber)
void ArmStall(std::size_t n, std::int64_t ns);
// Terminate current fiber as crashed right now (never returns)
[[noreturn]] void CrashSelf();
// Additionally make exits of instrumented functions scheduling points, each with the given probability (per mille)
void PointsAtFunctionExits(int permille);
void ExitPoint();
// Happens-before tracking (vector clocks): atomics/mutexes report their acquire/release semantics here
// Where the fibers of a harness stand for different processes, only objects in (simulated) shared memory order anything
// between them: the filter tells which addresses those are. An empty filter accepts all.
void SetSyncFilter(std::function<bool(const void*)> f);
void SyncAcquire(const void* addr);
void SyncRelease(const void* addr, bool keep_sequence);   // keep_sequence: read-modify-write continues a release sequence
void SyncRelaxedStore(const void* addr);                  // plain relaxed store: ends the release sequence
struct Epoch { int fiber{-1}; std::uint32_t clock{0}; };
Epoch Now();                              // epoch of the current fiber (its next release publishes it)
void JoinFrom(int fiber);                 // everything that fiber did happens before the current point (its process died)
bool HappensBefore(const Epoch& e);       // does e happen before the current point of the current fiber?

// Suspend scheduling points (e.g. while the harness itself looks at shared state)
struct Quiet { Quiet(); ~Quiet(); };

// DFS exploration: call Next() before every run; Run() with Strategy::kDfs then follows it. false: exhausted
class Dfs {
  public:
    bool Next();
    std::size_t runs() const { return runs_; }
    static Dfs* Active();
    struct Choice { int index; int count; };
    std::vector<Choice> path;
    std::size_t pos{0};
    Dfs();
    ~Dfs();
  private:
    std::size_t runs_{0};
    bool first_{true};
};

std::uint64_t Rand();            // harness randomness derived from splitmix, independent of the schedule
void SeedRand(std::uint64_t s);

}  // namespace vsched
#endif
