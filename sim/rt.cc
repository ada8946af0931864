// Simulator runtime. Compiled WITHOUT instrumentation; the library and the workloads are
// compiled with -fsanitize=thread but linked against the __tsan_* entry points below, so
// every memory access of the real code is a scheduling point and is checked here.
#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <deque>
#include <exception>
#include <map>
#include <random>
#include <unordered_map>

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
extern char __data_start, _end;
}

namespace sim {

// ------------------------------------------------------------------ layout
static constexpr u64 ArenaBase = 0x100000000000ull, ArenaSize = 1ull << 30;
static constexpr u64 StackBase = 0x200000000000ull, StackSize = 1ull << 20,
                     StackStride = 1ull << 21;
static constexpr u64 StackSpan = StackStride * MaxThreads;
static constexpr u64 Step = 8;

struct Cell {  // shadow of 8 bytes: last write, last read of each thread
    u32 phase;
    u32 wclk;
    u8 wtid, wmask;
    u8 rmask[MaxThreads];
    u32 rclk[MaxThreads];
};

static u8 *g_state;       // per arena granule: 0 never, 1 live, 2 freed
static Cell *g_arenaCells, *g_stackCells, *g_globalCells;
static u64 g_globalLo, g_globalHi;

enum { Never = 0, Live = 1, Freed = 2 };

// ------------------------------------------------------------------ per thread
enum Status { Unused, Runnable, Blocked, Done };

struct Thread {
    int id = -1;
    int under = 0;
    bool inRt = false;
    Status status = Unused;
    std::atomic<int> go{0};
    const void *waitOn = nullptr;
    u32 op = 0;
    u64 step = 0;  // steps in this op
    FaultKind fault = FaultNone;
    u32 faultAt = 0;
    u64 faultBytes = 0;
    u32 allocs = 0;
    bool fired = false;
    u32 vc[MaxThreads] = {0};
    pthread_t pt{};
    const std::function<void(int)> *fn = nullptr;
};
}  // namespace sim
namespace sim {

static Thread g_thr[MaxThreads];
static thread_local Thread *tls_self = nullptr;  // set while a simulated thread runs
static std::atomic<int> g_controllerGo{0};
static int g_current = -1, g_nthr = 0;
static bool g_multi = false;
static u64 g_nAtomic, g_nLock, g_nAlloc;
static u32 g_phase = 0;
static int g_finished = -1;

static Knobs g_knobs;
static Rng g_sched{1}, g_heap{1}, g_entropy{1};
static u64 g_gap = 100;
static u64 g_steps = 0, g_stepLimit = 20'000'000, g_opStepLimit = 4'000'000;
void setStepLimits(u64 op, u64 run) {
    g_opStepLimit = op;
    g_stepLimit = run;
}
static u64 g_hash = 1469598103934665603ull, g_ihash = 1469598103934665603ull;
static bool g_replay = false;
static std::map<std::tuple<u32, u32, u32, u64>, u32> g_replaySw;
static std::vector<Switch> g_taken;
static std::string g_context;
static const char *g_tag = "";
int g_result_fd = 1;
bool g_log_events = false;
static std::string *g_events;
static std::map<std::string, u64> *g_counts;
static std::vector<std::pair<u32, u64>> *g_results;

/** What memory holds before it is written: a NaN, or in half the runs some number. */
static inline u64 junk(u64 nan, u64 i) {
    if (g_knobs.heap_seed & 1) return nan | (i & 0xffff);
    u64 h = (g_knobs.heap_seed + i + 1) * 0x9e3779b97f4a7c15ull;
    h ^= h >> 29;
    // between 1 and 1024, either sign
    return (h & 0x8000000000000000ull) | ((1023 + (h >> 20) % 10) << 52) | (h * 0xbf58476d1ce4e5b9ull >> 12);
}
static constexpr u32 OpStart = 0xfffffffeu, OpEnd = 0xffffffffu;

struct RtGuard {  // our own containers must not land on the simulated heap
    bool old;
    Thread *t;
    RtGuard() : t{tls_self} {
        if (t) {
            old = t->inRt;
            t->inRt = true;
        }
    }
    ~RtGuard() {
        if (t) t->inRt = old;
    }
};

std::string fmt(const char *f, ...) {
    RtGuard g;
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

void mix(u64 v) {
    for (int i = 0; i < 8; ++i) {
        g_hash ^= (v >> (8 * i)) & 0xff;
        g_hash *= 1099511628211ull;
    }
}
void mixDouble(double d) {
    u64 u;
    memcpy(&u, &d, 8);
    if (d != d) u = 0x7ff8000000000000ull;
    mix(u);
}
void mixBytes(const void *p, size_t n) {
    auto c = static_cast<const u8 *>(p);
    for (size_t i = 0; i < n; ++i) {
        g_hash ^= c[i];
        g_hash *= 1099511628211ull;
    }
}
static void imix(u64 v) {
    g_ihash ^= v;
    g_ihash *= 1099511628211ull;
    g_ihash ^= g_ihash >> 29;
}
u64 traceHash() { return g_hash; }
u64 interleavingHash() { return g_ihash; }
u64 totalSteps() { return g_steps; }
void event(const std::string &s) {
    if (!g_log_events) return;
    RtGuard g;
    if (!g_events) g_events = new std::string;
    *g_events += s;
    *g_events += '\n';
}
void count(const char *name, u64 n) {
    RtGuard g;
    if (!g_counts) g_counts = new std::map<std::string, u64>;
    (*g_counts)[name] += n;
}
void result(u32 op, u64 digest) {
    RtGuard g;
    if (!g_results) g_results = new std::vector<std::pair<u32, u64>>;
    g_results->push_back({op, digest});
}
void setContext(const std::string &s) {
    RtGuard g;
    g_context = s;
}
void setTag(const char *t) { g_tag = t; }

static void writeAll(const char *p, size_t n) {
    while (n) {
        ssize_t k = ::write(g_result_fd, p, n);
        if (k <= 0) {
            if (k < 0 && errno == EINTR) continue;
            return;
        }
        p += k;
        n -= size_t(k);
    }
}

void emitStats() {
    RtGuard g;
    std::string s;
    if (g_nAtomic) count("sync.atomics", g_nAtomic);
    if (g_nLock) count("sync.locks", g_nLock);
    if (g_nAlloc) count("heap.allocations", g_nAlloc);
    g_nAtomic = g_nLock = g_nAlloc = 0;
    if (g_counts)
        for (auto &c : *g_counts)
            s += "C " + c.first + " " + std::to_string(c.second) + "\n";
    char b[200];
    snprintf(b, sizeof b, "H %016llx %016llx %llu %zu\n", (unsigned long long) g_hash,
             (unsigned long long) g_ihash, (unsigned long long) g_steps, g_taken.size());
    s += b;
    for (auto &w : g_taken) {
        snprintf(b, sizeof b, "W %u %u %u %llu %u\n", w.phase, w.tid, w.op,
                 (unsigned long long) w.step, w.to);
        s += b;
    }
    if (g_results)
        for (auto &x : *g_results) {
            snprintf(b, sizeof b, "D %u %016llx\n", x.first, (unsigned long long) x.second);
            s += b;
        }
    if (g_events) {
        size_t i = 0;
        while (i < g_events->size()) {
            size_t j = g_events->find('\n', i);
            s += "E " + g_events->substr(i, j - i) + "\n";
            i = j + 1;
        }
    }
    writeAll(s.data(), s.size());
}

[[noreturn]] static void finishWith(const char *kind, const char *cls,
                                    const std::string &detail) {
    RtGuard g;
    std::string d = detail;
    for (auto &c : d)
        if (c == '\n') c = ' ';
    std::string s = std::string(kind) + " " + cls + " " + d;
    if (!g_context.empty()) s += " [" + g_context + "]";
    if (tls_self)
        s += fmt(" @phase=%u thread=%d op=%u step=%llu", g_phase, tls_self->id, tls_self->op,
                 (unsigned long long) tls_self->step);
    s += "\n";
    writeAll(s.data(), s.size());
    emitStats();
    _exit(kind[0] == 'V' ? 42 : 43);
}

void violation(const char *cls, const std::string &detail) { finishWith("V", cls, detail); }
void harnessError(const std::string &detail) { finishWith("X", "harness", detail); }
/** The report itself is not simulated: composing it must not take scheduling points. */
static void enterRt() {
    if (tls_self) tls_self->inRt = true;
}
#define violation(...) (enterRt(), violation(__VA_ARGS__))

// ------------------------------------------------------------------ futex baton
static void futexWait(std::atomic<int> &w) {
    while (w.load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, reinterpret_cast<int *>(&w), FUTEX_WAIT_PRIVATE, 0, nullptr,
                nullptr, 0);
    w.store(0, std::memory_order_relaxed);
}
static void futexWake(std::atomic<int> &w) {
    w.store(1, std::memory_order_release);
    syscall(SYS_futex, reinterpret_cast<int *>(&w), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr,
            0);
}

static void newGap() {
    double u = g_sched.unit();
    double g = -g_knobs.mean_gap * __builtin_log(1.0 - u * 0.999999);
    g_gap = g < 1 ? 1 : u64(g);
}

/** Picks a runnable thread other than `from` (or any, if from < 0); -1 if none. */
static int pickOther(int from) {
    int c[MaxThreads], n = 0;
    for (int i = 0; i < g_nthr; ++i)
        if (i != from && g_thr[i].status == Runnable) c[n++] = i;
    if (!n) return -1;
    if (g_replay) return c[0];
    return c[g_sched.below(u64(n))];
}

static int replayTarget(u32 tid, u32 op, u64 step) {
    auto it = g_replaySw.find(std::make_tuple(g_phase, tid, op, step));
    if (it == g_replaySw.end()) return -1;
    int to = int(it->second);
    if (to < 0 || to >= g_nthr || g_thr[to].status != Runnable) return -1;
    return to;
}

static void recordSwitch(u32 tid, u32 op, u64 step, u32 to) {
    RtGuard g;
    if (g_taken.size() < 200000) g_taken.push_back({g_phase, tid, op, step, to});
    imix((u64(tid) << 48) ^ (u64(op) << 32) ^ (step << 4) ^ to);
    mix((u64(tid) << 48) ^ (u64(op) << 32) ^ (step << 4) ^ to);
}

static void handTo(Thread *me, int to) {
    g_current = to;
    futexWake(g_thr[to].go);
    futexWait(me->go);
}

/** me stays runnable, `to` runs */
static void preempt(Thread *me, int to) {
    recordSwitch(u32(me->id), me->op, me->step, u32(to));
    handTo(me, to);
}

static void blockOn(Thread *me, const void *what) {
    me->status = Blocked;
    me->waitOn = what;
    int to = g_replay ? replayTarget(u32(me->id), me->op, me->step) : -1;
    if (to < 0) to = pickOther(me->id);
    if (to < 0) violation("deadlock", "every unfinished thread is blocked on a lock");
    recordSwitch(u32(me->id), me->op, me->step, u32(to));
    handTo(me, to);
}
static void wakeWaiters(const void *what) {
    for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i].status == Blocked && g_thr[i].waitOn == what) {
            g_thr[i].status = Runnable;
            g_thr[i].waitOn = nullptr;
        }
}

/** One step of the code under test; `weight` > 0 marks synchronisation-like points, where
 *  preemption is more likely. */
static inline void tick(Thread *t, bool hot) {
    ++g_steps;
    ++t->step;
    if (__builtin_expect(t->step > g_opStepLimit || g_steps > g_stepLimit, 0)) {
        if (t->step > g_opStepLimit)
            violation("livelock", "operation does not finish within the step bound");
        violation("livelock", "run does not finish within the step bound");
    }
    if (!g_multi) return;
    if (g_replay) {
        if (!g_replaySw.empty()) {
            int to = replayTarget(u32(t->id), t->op, t->step);
            if (to >= 0 && to != t->id) preempt(t, to);
        }
        if ((t->step & 0x1fff) == 0) {  // spinning threads must yield in replays as well
            int to = pickOther(t->id);
            if (to >= 0) preempt(t, to);
        }
        return;
    }
    bool sw = false;
    if (--g_gap == 0) {
        sw = true;
        newGap();
    } else if (hot && g_knobs.hot && g_sched.below(u64(g_knobs.hot)) == 0) {
        sw = true;
    } else if ((t->step & 0x1fff) == 0) {
        sw = true;
    }
    if (sw) {
        int to = pickOther(t->id);
        if (to >= 0) preempt(t, to);
    }
}

// ------------------------------------------------------------------ happens-before
struct Sync {
    u32 vc[MaxThreads];
};
static std::unordered_map<const void *, Sync> *g_sync;
static u32 g_syncPhase = 0;

static Sync &syncOf(const void *p) {
    RtGuard g;
    if (!g_sync) g_sync = new std::unordered_map<const void *, Sync>;
    if (g_syncPhase != g_phase) {
        g_sync->clear();
        g_syncPhase = g_phase;
    }
    auto r = g_sync->emplace(p, Sync{});
    return r.first->second;
}
static void acquire(Thread *t, const void *p) {
    Sync &s = syncOf(p);
    for (int i = 0; i < MaxThreads; ++i) t->vc[i] = std::max(t->vc[i], s.vc[i]);
}
static void release(Thread *t, const void *p) {
    Sync &s = syncOf(p);
    for (int i = 0; i < MaxThreads; ++i) s.vc[i] = std::max(t->vc[i], s.vc[i]);
    ++t->vc[t->id];
}

static Cell *cellOf(u64 a) {
    if (a - ArenaBase < ArenaSize) return &g_arenaCells[(a - ArenaBase) / Step];
    if (a - StackBase < StackSpan) return &g_stackCells[(a - StackBase) / Step];
    if (a - g_globalLo < g_globalHi - g_globalLo)
        return &g_globalCells[(a - g_globalLo) / Step];
    return nullptr;
}

static const char *where(u64 a) {
    static char b[96];
    if (a - ArenaBase < ArenaSize)
        snprintf(b, sizeof b, "heap+0x%llx", (unsigned long long) (a - ArenaBase));
    else if (a - StackBase < StackSpan)
        snprintf(b, sizeof b, "stack%d+0x%llx", int((a - StackBase) / StackStride),
                 (unsigned long long) ((a - StackBase) % StackStride));
    else
        snprintf(b, sizeof b, "global 0x%llx", (unsigned long long) a);
    return b;
}

static void raceCheck(Thread *t, u64 a, unsigned size, bool write, void *pc) {
    while (size) {
        unsigned off = unsigned(a & 7), n = std::min(size, 8 - off);
        u8 mask = u8(((1u << n) - 1) << off);
        Cell *c = cellOf(a);
        if (c) {
            if (c->phase != g_phase) {
                *c = Cell{};
                c->phase = g_phase;
            }
            if ((c->wmask & mask) && c->wtid != t->id && c->wclk > t->vc[c->wtid])
                violation("data-race",
                          fmt("%s of %s by thread %d (pc %p) unordered with a write by "
                              "thread %d",
                              write ? "write" : "read", where(a), t->id, pc, c->wtid));
            if (write) {
                for (int i = 0; i < g_nthr; ++i)
                    if (i != t->id && (c->rmask[i] & mask) && c->rclk[i] > t->vc[i])
                        violation("data-race",
                                  fmt("write of %s by thread %d (pc %p) unordered with a "
                                      "read by thread %d",
                                      where(a), t->id, pc, i));
                c->wclk = t->vc[t->id];
                c->wtid = u8(t->id);
                c->wmask = mask;
            } else {
                if (c->rclk[t->id] == t->vc[t->id])
                    c->rmask[t->id] |= mask;
                else
                    c->rmask[t->id] = mask;
                c->rclk[t->id] = t->vc[t->id];
            }
        }
        a += n;
        size -= n;
    }
}

static void heapBad(Thread *, u64 a, unsigned size, bool write, void *pc, u8 st) {
    violation(st == Freed ? "use-after-free" : "heap-out-of-bounds",
              fmt("%s of %u bytes at %s, which is %s (pc %p)", write ? "write" : "read", size,
                  where(a), st == Freed ? "freed" : "not allocated", pc));
}

static inline void access(void *p, unsigned size, bool write, void *pc) {
    Thread *t = tls_self;
    if (__builtin_expect(!t || !t->under || t->inRt, 0)) return;
    u64 a = reinterpret_cast<u64>(p);
    if (a - ArenaBase < ArenaSize) {
        u64 lo = (a - ArenaBase) / Step, hi = (a + size - 1 - ArenaBase) / Step;
        for (u64 i = lo; i <= hi; ++i)
            if (__builtin_expect(g_state[i] != Live, 0))
                heapBad(t, a, size, write, pc, g_state[i]);
    } else {
        u64 sb = StackBase + u64(t->id) * StackStride;
        if (a - sb < StackSize &&
            a + size <= reinterpret_cast<u64>(__builtin_frame_address(0)))
            violation("use-after-return",
                      fmt("%s of %u bytes in a dead stack frame (pc %p)",
                          write ? "write" : "read", size, pc));
        if (a < 65536)
            violation("null-access", fmt("%s at %p (pc %p)", write ? "write" : "read", p, pc));
    }
    tick(t, false);
    if (g_multi) raceCheck(t, a, size, write, pc);
}

// ------------------------------------------------------------------ simulated heap
struct Heap {
    std::map<u64, u64> live;                          // address -> size
    std::unordered_map<u64, u64> serial;              // address -> serial number
    u64 nextSerial = 0;
    std::unordered_map<u64, std::vector<u64>> freeBySize;  // reuse mode
    std::unordered_map<u64, std::deque<u64>> bigFree;      // recycled large blocks
    u64 up = ArenaBase + (1 << 20), down = ArenaBase + ArenaSize / 2;
    u64 bytes = 0, peak = 0;
};
static Heap *g_h;

static Heap &H() {
    if (!g_h) {
        RtGuard g;
        g_h = new Heap;
    }
    return *g_h;
}

static u64 roundSize(u64 n) { return (n + 15) & ~u64(15); }

static void setState(u64 a, u64 n, u8 st) {
    memset(g_state + (a - ArenaBase) / Step, st, (n + Step - 1) / Step);
}

static bool rangeFree(u64 a, u64 n) {
    for (u64 i = (a - 16 - ArenaBase) / Step; i <= (a + n + 15 - ArenaBase) / Step; ++i)
        if (g_state[i] == Live) return false;
    return true;
}

static const char *const faultName[] = {"fault.none", "fault.alloc_once", "fault.alloc_sticky",
                                        "fault.alloc_every", "fault.heap_full"};

static void *arenaAlloc(Thread *t, size_t size, size_t align) {
    RtGuard g;
    u64 n = roundSize(size ? size : 1), al = std::max<u64>(align, 16);
    ++t->allocs;
    ++g_nAlloc;
    bool fail = false;
    switch (t->fault) {
        case FaultNone: break;
        case FaultOnce: fail = t->allocs == t->faultAt; break;
        case FaultSticky: fail = t->allocs >= t->faultAt; break;
        case FaultEvery: fail = t->faultAt && t->allocs % t->faultAt == 0; break;
        case FaultBudget: break;
    }
    if (t->fault == FaultBudget && H().bytes + n > t->faultBytes + t->faultAt) fail = true;
    if (fail) {
        t->fired = true;
        mix(0xFA11);
        count(faultName[t->fault]);
        return nullptr;
    }
    Heap &h = H();
    u64 a = 0;
    const bool big = n >= 1024;
    if (big && al == 16) {
        auto &q = h.bigFree[n];
        if (q.size() > (g_knobs.heap_mode == HeapReuse ? 0u : 6u)) {
            a = q.front();
            q.pop_front();
            count("heap.address_reused");
        }
    }
    if (!a && g_knobs.heap_mode == HeapReuse && al == 16) {
        auto it = h.freeBySize.find(n);
        if (it != h.freeBySize.end() && !it->second.empty()) {
            a = it->second.back();
            it->second.pop_back();
            count("heap.address_reused");
        }
    }
    if (!a && g_knobs.heap_mode == HeapRandom && !big) {
        for (int k = 0; k < 64 && !a; ++k) {
            u64 c = ArenaBase + 4096 + g_heap.below((1 << 19) / al) * al;
            if (rangeFree(c, n)) a = c;
        }
    }
    if (!a && g_knobs.heap_mode == HeapDown) {
        h.down = (h.down - n - 32) & ~(al - 1);
        a = h.down;
    }
    if (!a) {
        h.up = (h.up + 32 + al - 1) & ~(al - 1);
        a = h.up;
        h.up += n;
    }
    if (a + n > ArenaBase + ArenaSize) harnessError("simulated heap exhausted");
    h.live[a] = n;
    h.serial[a] = ++h.nextSerial;
    h.bytes += n;
    h.peak = std::max(h.peak, h.bytes);
    setState(a, (size + 7) & ~u64(7), Live);
    if (n > ((size + 7) & ~u64(7))) setState(a + ((size + 7) & ~u64(7)), n - ((size + 7) & ~u64(7)), Never);
    u64 *q = reinterpret_cast<u64 *>(a);
    for (u64 i = 0; i < n / 8; ++i) q[i] = junk(0xfff4dead00000000ull, i);
    if (g_multi)
        for (u64 i = 0; i < n / 8; ++i) g_arenaCells[(a - ArenaBase) / Step + i].phase = 0;
    mix(a - ArenaBase);
    return reinterpret_cast<void *>(a);
}

static void arenaFree(Thread *t, void *p) {
    RtGuard g;
    Heap &h = H();
    u64 a = reinterpret_cast<u64>(p);
    auto it = h.live.find(a);
    if (it == h.live.end()) {
        if (g_state[(a - ArenaBase) / Step] == Freed)
            violation("double-free", fmt("free of %s, which is already free", where(a)));
        violation("bad-free", fmt("free of %s, which is not an allocated block", where(a)));
    }
    u64 n = it->second;
    if (t && t->under && g_multi) {
        // releasing memory conflicts with any unordered access to it
        raceCheck(t, a, unsigned(n), true, __builtin_return_address(0));
    }
    h.live.erase(it);
    h.bytes -= n;
    setState(a, n, Freed);
    u64 *q = reinterpret_cast<u64 *>(a);
    for (u64 i = 0; i < n / 8; ++i) q[i] = junk(0xfff4f4eed0000000ull, i);
    if (n >= 1024)
        h.bigFree[n].push_back(a);
    else if (g_knobs.heap_mode == HeapReuse)
        h.freeBySize[n].push_back(a);
    mix(a - ArenaBase + 1);
}

bool inArena(const void *p) { return reinterpret_cast<u64>(p) - ArenaBase < ArenaSize; }
bool isLive(const void *p, size_t n) {
    if (!inArena(p)) return true;
    u64 a = reinterpret_cast<u64>(p) - ArenaBase;
    for (u64 i = a / Step; i <= (a + n - 1) / Step; ++i)
        if (g_state[i] != Live) return false;
    return true;
}
u64 blockSerial(const void *p) {
    Heap &h = H();
    u64 a = reinterpret_cast<u64>(p);
    auto it = h.live.upper_bound(a);
    if (it == h.live.begin()) return 0;
    --it;
    if (a >= it->first + it->second) return 0;
    return h.serial[it->first];
}
u64 liveBlocks() { return H().live.size(); }
u64 liveBytes() { return H().bytes; }
u64 peakBytes() { return H().peak; }
std::vector<std::pair<const void *, u64>> liveList(size_t max) {
    RtGuard g;
    std::vector<std::pair<const void *, u64>> v;
    for (auto &x : H().live) {
        if (v.size() >= max) break;
        v.push_back({reinterpret_cast<const void *>(x.first), x.second});
    }
    return v;
}

void armFault(FaultKind k, u32 kth) {
    Thread *t = tls_self;
    if (!t) harnessError("armFault outside a simulated thread");
    t->fault = k;
    t->faultAt = kth;
    t->faultBytes = H().bytes;
    t->allocs = 0;
    t->fired = false;
}
bool disarmFault() {
    Thread *t = tls_self;
    t->fault = FaultNone;
    return t->fired;
}
u32 allocsInOp() { return tls_self ? tls_self->allocs : 0; }

// ------------------------------------------------------------------ regions and threads
Under::Under() {
    if (tls_self) ++tls_self->under;
}
Under::~Under() {
    if (tls_self) --tls_self->under;
}
Harness::Harness() : saved{0} {
    if (tls_self) {
        saved = tls_self->under;
        tls_self->under = 0;
    }
}
Harness::~Harness() {
    if (tls_self) tls_self->under = saved;
}
int self() { return tls_self ? tls_self->id : -1; }

void opBegin(u32 op) {
    Thread *t = tls_self;
    if (!t) return;
    t->op = op;
    t->step = 0;
    t->allocs = 0;
    t->fault = FaultNone;
    t->fired = false;
    t->under = 0;
}
void stepPoint() {
    Thread *t = tls_self;
    if (t) tick(t, true);
}

void setReplaySwitches(const std::vector<Switch> &sw) {
    g_replay = true;
    g_replaySw.clear();
    for (auto &w : sw) g_replaySw[std::make_tuple(w.phase, w.tid, w.op, w.step)] = w.to;
}
const std::vector<Switch> &switchesTaken() { return g_taken; }

static void crashHandler(int sig) {
    // async-signal context, but this process is about to end: report and leave
    if (sig == SIGVTALRM || sig == SIGALRM) {
        char b[256];
        int n = snprintf(b, sizeof b, "V hang cpu-time limit reached [%s] tag=%s\n",
                         g_context.c_str(), g_tag);
        writeAll(b, size_t(n));
        _exit(42);
    }
    if (tls_self) {
        tls_self->under = 0;
        tls_self->inRt = true;
    }
    char b[64];
    snprintf(b, sizeof b, "signal %d", sig);
    violation(sig == SIGABRT ? "abort" : "crash", b);
}
static void onTerminate() {
    if (tls_self) tls_self->under = 0;
    std::string what = "std::terminate called";
    if (auto e = std::current_exception()) {
        try {
            std::rethrow_exception(e);
        } catch (const std::exception &x) {
            what += std::string(" with uncaught ") + x.what();
        } catch (...) {
        }
    }
    violation("terminate", what);
}

static void *threadMain(void *arg) {
    Thread *t = static_cast<Thread *>(arg);
    futexWait(t->go);
    static char alt[MaxThreads][65536];
    stack_t ss{};
    ss.ss_sp = alt[t->id];
    ss.ss_size = sizeof alt[0];
    sigaltstack(&ss, nullptr);
    tls_self = t;
    (*t->fn)(t->id);
    tls_self = nullptr;
    t->status = Done;
    g_finished = t->id;
    // The controller joins this thread (so that its thread-local destructors have run)
    // before anyone else continues.
    futexWake(g_controllerGo);
    return nullptr;
}

void runPhase(int n, const std::function<void(int)> &f) {
    if (n < 1 || n > MaxThreads) harnessError("bad thread count");
    if (tls_self) harnessError("runPhase from a simulated thread");
    ++g_phase;
    g_nthr = n;
    g_multi = n > 1;
    for (int i = 0; i < MaxThreads; ++i) g_thr[i].status = Unused;
    for (int i = 0; i < n; ++i) {
        Thread &t = g_thr[i];
        t.id = i;
        t.under = 0;
        t.inRt = false;
        t.status = Runnable;
        t.waitOn = nullptr;
        t.op = 0;
        t.step = 0;
        t.fault = FaultNone;
        t.fn = &f;
        for (int j = 0; j < MaxThreads; ++j) t.vc[j] = 0;
        t.vc[i] = 1;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, reinterpret_cast<void *>(StackBase + u64(i) * StackStride),
                              StackSize);
        if (pthread_create(&t.pt, &at, threadMain, &t)) harnessError("pthread_create");
        pthread_attr_destroy(&at);
    }
    newGap();
    int cur = 0;
    if (n > 1) {
        int to = g_replay ? replayTarget(0, OpStart, 0) : pickOther(-1);
        cur = to < 0 ? 0 : to;
        recordSwitch(0, OpStart, 0, u32(cur));
    }
    for (;;) {
        g_current = cur;
        futexWake(g_thr[cur].go);
        futexWait(g_controllerGo);
        int fin = g_finished;
        pthread_join(g_thr[fin].pt, nullptr);
        bool anyLeft = false;
        for (int i = 0; i < n; ++i) anyLeft |= g_thr[i].status != Done;
        if (!anyLeft) break;
        int to = g_replay ? replayTarget(u32(fin), OpEnd, 0) : -1;
        if (to < 0) to = pickOther(fin);
        if (to < 0) violation("deadlock", "every unfinished thread is blocked on a lock");
        recordSwitch(u32(fin), OpEnd, 0, u32(to));
        cur = to;
    }
    g_multi = false;
}

void installKnobs(const Knobs &k) {
    g_knobs = k;
    g_sched = Rng{k.sched_seed * 3 + 1};
    g_heap = Rng{k.heap_seed * 3 + 2};
    g_entropy = Rng{k.entropy_seed * 3 + 3};
    if (k.mean_gap < 1) g_knobs.mean_gap = 1;
    // per-run CPU limit: a run that does not come back is reported as a hang
    struct itimerval tv {};
    tv.it_value.tv_sec = 40;
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    tv.it_value.tv_sec = 240;  // asleep for good, in something we do not simulate
    setitimer(ITIMER_REAL, &tv, nullptr);
}

static void *mapAt(u64 base, u64 size) {
    void *p = mmap(reinterpret_cast<void *>(base), size, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void *>(base)) {
        fprintf(stderr, "cannot map %llx\n", (unsigned long long) base);
        _exit(43);
    }
    return p;
}
static void *mapAny(u64 size) {
    void *p = mmap(nullptr, size, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        fprintf(stderr, "cannot map shadow\n");
        _exit(43);
    }
    return p;
}

void initProcess() {
    mapAt(ArenaBase, ArenaSize);
    mapAt(StackBase, StackSpan);
    g_state = static_cast<u8 *>(mapAny(ArenaSize / Step));
    g_arenaCells = static_cast<Cell *>(mapAny(ArenaSize / Step * sizeof(Cell)));
    g_stackCells = static_cast<Cell *>(mapAny(StackSpan / Step * sizeof(Cell)));
    g_globalLo = reinterpret_cast<u64>(&__data_start) & ~u64(7);
    g_globalHi = (reinterpret_cast<u64>(&_end) + 7) & ~u64(7);
    g_globalCells =
      static_cast<Cell *>(mapAny((g_globalHi - g_globalLo) / Step * sizeof(Cell) + 4096));
    static char alt[65536];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = crashHandler;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGALRM})
        sigaction(s, &sa, nullptr);
    std::set_terminate(onTerminate);
}

__attribute__((noinline)) void scrubStack() {
    volatile u64 pad[6000];
    for (unsigned i = 0; i < 6000; ++i) pad[i] = junk(0xfff4acd000000000ull, i);
    asm volatile("" ::"r"(pad) : "memory");
}

// ------------------------------------------------------------------ entropy
static u64 entropy64() {
    static u64 counter = 0;
    switch (g_knobs.entropy_mode) {
        case 1: return 0;
        case 2: return ~u64(0);
        case 3: return 0x5555555555555555ull;
        case 4: return (++counter % 3) * 0x0123456789abcdefull;
        case 5: return g_entropy.next() & 0x0101010101010101ull;
        default: return g_entropy.next();
    }
}

static bool simulated() { return tls_self && tls_self->under && !tls_self->inRt; }
static bool simMulti() { return simulated() && g_multi; }

// ------------------------------------------------------------------ locks
struct Lock {
    int owner = -1;
    int depth = 0;
    int readers = 0;
};
static std::unordered_map<const void *, Lock> *g_locks;
static Lock &lockOf(const void *p) {
    RtGuard g;
    if (!g_locks) g_locks = new std::unordered_map<const void *, Lock>;
    return (*g_locks)[p];
}

static int simLock(const void *m, bool recursive, bool tryOnly) {
    Thread *t = tls_self;
    ++g_nLock;
    tick(t, true);
    for (;;) {
        Lock &l = lockOf(m);
        if (l.owner < 0 && l.readers == 0) {
            l.owner = t->id;
            l.depth = 1;
            break;
        }
        if (l.owner == t->id && recursive) {
            ++l.depth;
            break;
        }
        if (tryOnly) return EBUSY;
        if (l.owner == t->id)
            violation("deadlock", "a thread locks a mutex it already holds");
        count("sched.lock_contended");
        blockOn(t, m);
    }
    acquire(t, m);
    return 0;
}
static int simUnlock(const void *m) {
    Thread *t = tls_self;
    Lock &l = lockOf(m);
    release(t, m);
    if (l.owner == t->id) {
        if (--l.depth == 0) {
            l.owner = -1;
            wakeWaiters(m);
        }
    } else if (l.readers > 0) {
        if (--l.readers == 0) wakeWaiters(m);
    }
    tick(t, true);
    return 0;
}
static int simCondWait(const void *c, const void *m) {
    Thread *t = tls_self;
    // release, then sleep, without a scheduling point in between
    Lock &l = lockOf(m);
    release(t, m);
    l.owner = -1;
    l.depth = 0;
    wakeWaiters(m);
    blockOn(t, c);
    return simLock(m, false, false);
}
static int simCondTimeout(const void *m) {
    simUnlock(m);
    simLock(m, false, false);
    return ETIMEDOUT;
}
static int simReadLock(const void *m, bool tryOnly) {
    Thread *t = tls_self;
    ++g_nLock;
    tick(t, true);
    for (;;) {
        Lock &l = lockOf(m);
        if (l.owner < 0) {
            ++l.readers;
            break;
        }
        if (tryOnly) return EBUSY;
        blockOn(t, m);
    }
    acquire(t, m);
    return 0;
}

template <typename F>
static F realFn(const char *name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

}  // namespace sim

using namespace sim;

// ------------------------------------------------------------------ interposed functions
extern "C" {

void *malloc(size_t n) {
    if (simulated()) {
        Thread *t = tls_self;
        tick(t, true);
        void *p = arenaAlloc(t, n, 16);
        if (!p) errno = ENOMEM;
        return p;
    }
    return __libc_malloc(n);
}
void free(void *p) {
    if (!p) return;
    if (inArena(p)) {
        Thread *t = tls_self;
        if (simulated()) tick(t, true);
        arenaFree(t, p);
        return;
    }
    __libc_free(p);
}
void *calloc(size_t a, size_t b) {
    if (simulated()) {
        if (b && a > (size_t(1) << 40) / b) return nullptr;
        void *p = malloc(a * b);
        if (p) memset(p, 0, a * b);
        return p;
    }
    return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n) {
    if (p && inArena(p)) {
        u64 old = 0;
        {
            RtGuard g;
            auto it = H().live.find(reinterpret_cast<u64>(p));
            if (it == H().live.end()) violation("bad-free", "realloc of a dead block");
            old = it->second;
        }
        void *q = malloc(n);
        if (!q) return nullptr;
        memcpy(q, p, std::min<u64>(old, n));
        free(p);
        return q;
    }
    if (simulated() && !p) return malloc(n);
    return __libc_realloc(p, n);
}
void *memalign(size_t al, size_t n) {
    if (simulated()) {
        tick(tls_self, true);
        void *p = arenaAlloc(tls_self, n, al);
        if (!p) errno = ENOMEM;
        return p;
    }
    return __libc_memalign(al, n);
}
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **out, size_t al, size_t n) {
    void *p = memalign(al, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}

int rand(void) {
    if (simulated()) tick(tls_self, true);
    return int(entropy64() >> 33) & RAND_MAX;
}
void srand(unsigned) {}
long random(void) { return rand(); }

int clock_gettime(clockid_t, struct timespec *ts) {
    if (simulated()) {  // simulated clock: one step is one microsecond
        ts->tv_sec = time_t(g_steps / 1000000);
        ts->tv_nsec = long(g_steps % 1000000) * 1000;
        return 0;
    }
    return int(syscall(SYS_clock_gettime, CLOCK_REALTIME, ts));
}

int pthread_mutex_lock(pthread_mutex_t *m) {
    if (simulated()) return simLock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, false);
    static auto real = realFn<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (simulated()) return simLock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, true);
    static auto real = realFn<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (simulated()) return simUnlock(m);
    static auto real = realFn<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    if (simulated()) return simReadLock(m, false);
    static auto real = realFn<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock");
    return real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    if (simulated()) return simLock(m, false, false);
    static auto real = realFn<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock");
    return real(m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) {
    if (simulated()) return simReadLock(m, true);
    static auto real = realFn<int (*)(pthread_rwlock_t *)>("pthread_rwlock_tryrdlock");
    return real(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) {
    if (simulated()) return simLock(m, false, true);
    static auto real = realFn<int (*)(pthread_rwlock_t *)>("pthread_rwlock_trywrlock");
    return real(m);
}
// Time stands still while a thread can run: a timed lock waits like one without timeout
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
    if (simulated()) return pthread_mutex_lock(m);
    static auto real =
      realFn<int (*)(pthread_mutex_t *, const struct timespec *)>("pthread_mutex_timedlock");
    return real(m, ts);
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
    if (simulated()) return pthread_mutex_lock(m);
    static auto real = realFn<int (*)(pthread_mutex_t *, clockid_t, const struct timespec *)>(
      "pthread_mutex_clocklock");
    return real(m, k, ts);
}
int pthread_spin_lock(pthread_spinlock_t *m) {
    if (simulated()) return simLock(const_cast<const int *>(m), false, false);
    static auto real = realFn<int (*)(pthread_spinlock_t *)>("pthread_spin_lock");
    return real(m);
}
int pthread_spin_trylock(pthread_spinlock_t *m) {
    if (simulated()) return simLock(const_cast<const int *>(m), false, true);
    static auto real = realFn<int (*)(pthread_spinlock_t *)>("pthread_spin_trylock");
    return real(m);
}
int pthread_spin_unlock(pthread_spinlock_t *m) {
    if (simulated()) return simUnlock(const_cast<const int *>(m));
    static auto real = realFn<int (*)(pthread_spinlock_t *)>("pthread_spin_unlock");
    return real(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
    if (simulated()) return simUnlock(m);
    static auto real = realFn<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
    return real(m);
}
// Condition variables: a waiter is woken by a signal, or for no reason; timeouts may expire
// at any time.
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (simulated()) return simCondWait(c, m);
    static auto real = realFn<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
    return real(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (simulated()) return simCondTimeout(m);
    static auto real = realFn<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>(
      "pthread_cond_timedwait");
    return real(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k,
                           const struct timespec *ts) {
    if (simulated()) return simCondTimeout(m);
    static auto real =
      realFn<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>(
        "pthread_cond_clockwait");
    return real(c, m, k, ts);
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (simulated()) {
        tick(tls_self, true);
        wakeWaiters(c);
        return 0;
    }
    static auto real = realFn<int (*)(pthread_cond_t *)>("pthread_cond_signal");
    return real(c);
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (simulated()) {
        tick(tls_self, true);
        wakeWaiters(c);
        return 0;
    }
    static auto real = realFn<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
    return real(c);
}
int sched_yield(void) {
    if (simMulti()) {
        int to = pickOther(tls_self->id);
        ++tls_self->step;
        if (to >= 0) preempt(tls_self, to);
    }
    return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *left) {
    if (simulated()) return sched_yield();
    return int(syscall(SYS_nanosleep, ts, left));
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec *ts, struct timespec *left) {
    if (simulated()) return sched_yield();
    return syscall(SYS_clock_nanosleep, k, flags, ts, left) == 0 ? 0 : errno;
}
int pthread_once(pthread_once_t *ctl, void (*init)(void)) {
    Thread *t = tls_self;
    bool multi = simMulti();
    for (;;) {
        if (*ctl & 2) {
            if (multi) acquire(t, ctl);
            return 0;
        }
        if (*ctl == 0) break;
        if (!multi) return 0;
        blockOn(t, ctl);
    }
    *ctl = 1;
    init();
    *ctl = 2;
    if (multi) {
        release(t, ctl);
        wakeWaiters(ctl);
    }
    return 0;
}

int __cxa_guard_acquire(long long *gg) {
    u64 *g = reinterpret_cast<u64 *>(gg);
    u8 *b = reinterpret_cast<u8 *>(g);
    Thread *t = tls_self;
    bool multi = simMulti();
    if (multi) tick(t, true);
    for (;;) {
        if (b[0]) {
            if (multi) acquire(t, g);
            return 0;
        }
        if (!b[1]) {
            b[1] = 1;
            return 1;
        }
        if (!multi) violation("deadlock", "recursive static initialisation");
        blockOn(t, g);
    }
}
void __cxa_guard_release(long long *gg) {
    u64 *g = reinterpret_cast<u64 *>(gg);
    u8 *b = reinterpret_cast<u8 *>(g);
    b[1] = 0;
    b[0] = 1;
    if (simMulti()) {
        release(tls_self, g);
        wakeWaiters(g);
    }
}
void __cxa_guard_abort(long long *gg) {
    u64 *g = reinterpret_cast<u64 *>(gg);
    reinterpret_cast<u8 *>(g)[1] = 0;
    if (simMulti()) wakeWaiters(g);
}

// ---- memory accesses of instrumented code
#define ACC(name, size, write)                                \
    void __tsan_##name(void *p) {                             \
        access(p, size, write, __builtin_return_address(0)); \
    }
ACC(read1, 1, false)
ACC(read2, 2, false)
ACC(read4, 4, false)
ACC(read8, 8, false)
ACC(read16, 16, false)
ACC(write1, 1, true)
ACC(write2, 2, true)
ACC(write4, 4, true)
ACC(write8, 8, true)
ACC(write16, 16, true)
ACC(unaligned_read2, 2, false)
ACC(unaligned_read4, 4, false)
ACC(unaligned_read8, 8, false)
ACC(unaligned_read16, 16, false)
ACC(unaligned_write2, 2, true)
ACC(unaligned_write4, 4, true)
ACC(unaligned_write8, 8, true)
ACC(unaligned_write16, 16, true)
ACC(volatile_read1, 1, false)
ACC(volatile_read2, 2, false)
ACC(volatile_read4, 4, false)
ACC(volatile_read8, 8, false)
ACC(volatile_write1, 1, true)
ACC(volatile_write2, 2, true)
ACC(volatile_write4, 4, true)
ACC(volatile_write8, 8, true)
void __tsan_read_range(void *p, size_t n) {
    if (n) access(p, unsigned(n), false, __builtin_return_address(0));
}
void __tsan_write_range(void *p, size_t n) {
    if (n) access(p, unsigned(n), true, __builtin_return_address(0));
}
void __tsan_vptr_update(void **p, void *v) {
    // the value is only changed if it differs (constructors and destructors rewrite it)
    if (*p != v) access(p, 8, true, __builtin_return_address(0));
}
void __tsan_vptr_read(void **p) { access(p, 8, false, __builtin_return_address(0)); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}

// memcpy and friends called from instrumented code (linked with --wrap)
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    if (n && simulated()) {
        access(const_cast<void *>(s), unsigned(n), false, __builtin_return_address(0));
        access(d, unsigned(n), true, __builtin_return_address(0));
    }
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
    if (n && simulated()) {
        access(const_cast<void *>(s), unsigned(n), false, __builtin_return_address(0));
        access(d, unsigned(n), true, __builtin_return_address(0));
    }
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
    if (n && simulated()) access(d, unsigned(n), true, __builtin_return_address(0));
    return __real_memset(d, c, n);
}

static void atomicPoint(volatile void *p, unsigned size, int order, bool load, bool store) {
    Thread *t = tls_self;
    if (!t || !t->under || t->inRt) return;
    u64 a = reinterpret_cast<u64>(p);
    if (a - ArenaBase < ArenaSize)
        for (u64 i = (a - ArenaBase) / Step; i <= (a + size - 1 - ArenaBase) / Step; ++i)
            if (g_state[i] != Live)
                heapBad(t, a, size, store, __builtin_return_address(0), g_state[i]);
    tick(t, true);
    ++g_nAtomic;
    if (!g_multi) return;
    const void *q = const_cast<const void *>(p);
    const bool acq = order == __ATOMIC_ACQUIRE || order == __ATOMIC_ACQ_REL ||
                     order == __ATOMIC_SEQ_CST || order == __ATOMIC_CONSUME;
    const bool rel = order == __ATOMIC_RELEASE || order == __ATOMIC_ACQ_REL ||
                     order == __ATOMIC_SEQ_CST;
    if (load && acq) acquire(t, q);
    if (store && rel) release(t, q);
}

#define ATOMICS(bits, T)                                                                    \
    T __tsan_atomic##bits##_load(const volatile T *p, int mo) {                             \
        atomicPoint(const_cast<T *>(p), bits / 8, mo, true, false);                         \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                        \
    }                                                                                       \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) {                          \
        atomicPoint(p, bits / 8, mo, false, true);                                          \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                           \
    }                                                                                       \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) {                          \
        atomicPoint(p, bits / 8, mo, true, true);                                           \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                 \
    }                                                                                       \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) {                         \
        atomicPoint(p, bits / 8, mo, true, true);                                           \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                  \
    }                                                                                       \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) {                         \
        atomicPoint(p, bits / 8, mo, true, true);                                           \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                  \
    }                                                                                       \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) {                         \
        atomicPoint(p, bits / 8, mo, true, true);                                           \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                  \
    }                                                                                       \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) {                          \
        atomicPoint(p, bits / 8, mo, true, true);                                           \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                   \
    }                                                                                       \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) {                         \
        atomicPoint(p, bits / 8, mo, true, true);                                           \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                  \
    }                                                                                       \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *c, T v, int mo,     \
                                                      int) {                                \
        atomicPoint(p, bits / 8, mo, true, true);                                           \
        return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST,                \
                                           __ATOMIC_SEQ_CST);                               \
    }                                                                                       \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *c, T v, int mo,       \
                                                    int) {                                  \
        atomicPoint(p, bits / 8, mo, true, true);                                           \
        return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST,                \
                                           __ATOMIC_SEQ_CST);                               \
    }                                                                                       \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T c, T v, int mo, int) {    \
        atomicPoint(p, bits / 8, mo, true, true);                                           \
        __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);   \
        return c;                                                                           \
    }
ATOMICS(8, u8)
ATOMICS(16, uint16_t)
ATOMICS(32, u32)
ATOMICS(64, u64)
static char g_fenceToken;
void __tsan_atomic_thread_fence(int mo) {
    Thread *t = tls_self;
    if (!t || !t->under || t->inRt || !g_multi) return;
    tick(t, true);
    if (mo != __ATOMIC_RELEASE) acquire(t, &g_fenceToken);
    if (mo != __ATOMIC_ACQUIRE) release(t, &g_fenceToken);
}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"

// ---- entropy seam: the library seeds its generator from std::random_device
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() {
    if (simulated()) tick(tls_self, true);
    return result_type(entropy64());
}
std::random_device::result_type std::random_device::_M_getval_pretr1() { return _M_getval(); }
void std::random_device::_M_init_pretr1(const std::string &) {}
