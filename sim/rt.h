// Deterministic-simulation runtime for wave_geometry: one process, one seed.
// See /verif/DESIGN.md ("Simulator") for what each piece stands in for.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;

// ---------------------------------------------------------------- randomness
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s{seed * 0x9E3779B97F4A7C15ull + 0x1234567ull} {
        next();
        next();
    }
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + int(below(u64(hi - lo + 1))); }
    double unit() { return double(next() >> 11) / 9007199254740992.0; }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    bool chance(double p) { return unit() < p; }
};

constexpr int MaxThreads = 4;

// ---------------------------------------------------------------- knobs of one run
enum HeapMode { HeapUp, HeapDown, HeapRandom, HeapReuse, HeapModes };

struct Knobs {
    u64 sched_seed = 1;
    u64 heap_seed = 1;
    u64 entropy_seed = 1;
    int heap_mode = HeapUp;
    double mean_gap = 200;   // mean number of steps between preemptions
    u32 hot = 8;             // 1/hot: chance of a switch at allocations, locks, atomics
    int entropy_mode = 0;    // 0 normal, 1 zeros, 2 ones, 3 constant, 4 short period
};

/** A scheduling decision: thread `tid`, at its `step`-th step inside op `op` of phase
 *  `phase`, hands over to thread `to`. */
struct Switch {
    u32 phase, tid, op;
    u64 step;
    u32 to;
};

// ---------------------------------------------------------------- process-wide set-up
void initProcess();       // before any fork
void installKnobs(const Knobs &);

// ---------------------------------------------------------------- running threads
/** Runs f(0..n-1), each on its own real thread on a fixed-address stack, exactly one at a
 *  time. With n == 1 there is no scheduling, only the fixed stack. */
void runPhase(int n, const std::function<void(int)> &f);
void setReplaySwitches(const std::vector<Switch> &sw);  // replaces the PRNG scheduler
const std::vector<Switch> &switchesTaken();
int self();                      // simulated thread index, or -1
void opBegin(u32 op);            // resets this thread's step and allocation counters
void stepPoint();                // an explicit scheduling point

/** Marks code of the library under test: allocations go to the simulated heap, memory
 *  accesses are scheduling points and are checked. */
struct Under {
    Under();
    ~Under();
    Under(const Under &) = delete;
};
/** Temporarily leaves the library region (e.g. in callbacks). */
struct Harness {
    int saved;
    Harness();
    ~Harness();
};

// ---------------------------------------------------------------- faults
// Once: the k-th allocation fails. Sticky: it and all later ones. Every: each k-th one.
// Budget: the heap may only grow by k bytes.
enum FaultKind { FaultNone, FaultOnce, FaultSticky, FaultEvery, FaultBudget };
void armFault(FaultKind kind, u32 kth);  // for this thread, until disarm
bool disarmFault();                      // true if it fired
u32 allocsInOp();
u64 liveBlocks();
u64 liveBytes();
u64 peakBytes();
std::vector<std::pair<const void *, u64>> liveList(size_t max);
bool isLive(const void *p, size_t n);
bool inArena(const void *p);
/** Serial number of the live block containing p; 0 if there is none. Never reused. */
u64 blockSerial(const void *p);

// ---------------------------------------------------------------- outcome
/** Steps after which an operation, or a whole run, counts as not making progress. */
void setStepLimits(u64 op, u64 run);
[[noreturn]] void violation(const char *cls, const std::string &detail);
[[noreturn]] void harnessError(const std::string &detail);
void setContext(const std::string &s);   // described in the violation message
void mix(u64 v);                         // adds to the trace hash
void mixDouble(double d);
void mixBytes(const void *p, size_t n);
u64 traceHash();
void event(const std::string &s);        // only kept when event logging is on
extern bool g_log_events;
void count(const char *name, u64 n = 1);  // named probe counter
void result(u32 op, u64 digest);         // bit-exact result of an op
void emitStats();                         // writes stats lines to the result pipe
extern int g_result_fd;
u64 totalSteps();
u64 interleavingHash();
void scrubStack();
void setTag(const char *);  // current phase/op tag for crash reports

// ---------------------------------------------------------------- utilities
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

}  // namespace sim
