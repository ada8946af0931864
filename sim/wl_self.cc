// Known-bad miniatures: the simulator must see each of them before it is believed.
#include <condition_variable>
#include <memory>
#include <mutex>
#include <new>
#include <vector>

#include "rt.h"

namespace wl {
namespace {
static int g_plain;
static std::mutex g_a, g_b;
struct Node {
    long v = 1;
    std::unique_ptr<Node> next;
};
}  // namespace
static std::shared_ptr<Node> *g_shared;
static thread_local volatile long g_sink;
static std::condition_variable g_cv;
static bool g_ready;
__attribute__((noinline)) static long *deadFrame() {
    long x[8] = {1};
    long *volatile p = x;
    g_sink = p[0];
    return p;
}

/** Runs miniature i; returns what the simulator is expected to report ("" for nothing). */
const char *miniature(int i) {
    using sim::Under;
    auto two = [](auto f) { sim::runPhase(2, [&](int t) { sim::opBegin(sim::u32(t + 1)); Under u; f(t); }); };
    auto one = [](auto f) { sim::runPhase(1, [&](int) { sim::opBegin(1); Under u; f(); }); };
    switch (i) {
        case 0:  // unordered writes
            two([](int) { ++g_plain; });
            return "data-race";
        case 1:  // ordered by a mutex
            two([](int) { for (int k = 0; k < 5; ++k) { std::lock_guard<std::mutex> l{g_a}; ++g_plain; } });
            return "";
        case 2:  // locks taken in opposite orders
            for (int k = 0; k < 50; ++k)
            two([](int t) {
                std::lock_guard<std::mutex> l{t ? g_a : g_b};
                std::lock_guard<std::mutex> m{t ? g_b : g_a};
                ++g_plain;
            });
            return "deadlock";
        case 3:
            one([] { auto *p = new Node; Node *volatile q = p; delete p; g_sink = q->v; });
            return "use-after-free";
        case 4:
            one([] { auto *p = new Node; Node *volatile q = p; delete p; operator delete(q); });
            return "double-free";
        case 5:
            one([] { g_sink = deadFrame()[0]; });
            return "use-after-return";
        case 6:
            one([] { std::vector<double> v(4); double *volatile p = v.data(); g_sink = long(p[6]); });
            return "heap-out-of-bounds";
        case 7:  // reference counts are synchronisation
            one([] { g_shared = new std::shared_ptr<Node>(new Node); });
            two([](int) { for (int k = 0; k < 4; ++k) { auto c = *g_shared; g_sink = c->v; } });
            one([] { delete g_shared; });
            return "";
        case 8:  // ... and the last owner may be either thread
            for (int k = 0; k < 20; ++k) {
                static std::shared_ptr<Node> x[2];
                one([] { x[0] = std::make_shared<Node>(); x[1] = x[0]; });
                two([](int t) { g_sink = x[t]->v; x[t] = nullptr; });
            }
            return "";
        case 9:
            two([](int t) {
                std::unique_lock<std::mutex> l{g_a};
                if (t) {
                    g_ready = true;
                    g_cv.notify_all();
                } else
                    while (!g_ready) g_cv.wait(l);
            });
            return "";
        case 10:
            one([] { g_sink = *reinterpret_cast<long *volatile>(64); });
            return "null-access";
        case 11:
            one([] {
                sim::armFault(sim::FaultOnce, 2);
                bool failed = false;
                auto p = std::make_unique<Node>();
                try {
                    p->next = std::make_unique<Node>();
                } catch (const std::bad_alloc &) {
                    failed = true;
                }
                if (!sim::disarmFault() || !failed || p->next) sim::violation("fault", "not injected");
                p->next = std::make_unique<Node>();
            });
            return "";
        case 12: {
            static Node *kept;
            one([] { kept = new Node; });
            if (sim::liveBlocks() != 1 || !sim::blockSerial(kept)) sim::violation("heap", "not accounted");
            one([] { delete kept; });
            if (sim::liveBlocks() != 0 || sim::blockSerial(kept)) sim::violation("heap", "not accounted");
            return "";
        }
        case 13:
            one([] { std::lock_guard<std::mutex> l{g_a}; g_a.lock(); });
            return "deadlock";
        case 14:
            sim::setStepLimits(50000, 200000);
            two([](int t) { for (;;) { static std::mutex m; std::lock_guard<std::mutex> l{m}; if (t > 5) break; } });
            return "livelock";
        default: return nullptr;
    }
}
}  // namespace wl
