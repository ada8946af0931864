// Driver: simulates plans in forked children; batch search, replay, minimisation.
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>

#include "plan.h"

using namespace plan;

namespace {
struct Outcome {
    int code = 0;  // 0 fine, 42 violation, 43 harness error
    std::string cls, detail;
    std::map<std::string, u64> counts;
    u64 hash = 0, ihash = 0, steps = 0;
    std::vector<sim::Switch> switches;
    std::map<u32, std::string> digest;
    std::vector<std::string> events;
    bool haveH = false;
};

double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

/** Runs f, which ends in a simulated outcome, in a process of its own. */
template <typename F>
Outcome inChild(F f, bool events = false) {
    int fd[2];
    if (pipe(fd)) {
        perror("pipe");
        _exit(43);
    }
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        _exit(43);
    }
    if (pid == 0) {
        close(fd[0]);
        sim::g_result_fd = fd[1];
        sim::g_log_events = events;
        f();
        sim::emitStats();
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char buf[65536];
    for (;;) {
        ssize_t n = read(fd[0], buf, sizeof buf);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) break;
        s.append(buf, size_t(n));
    }
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    Outcome o;
    o.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    std::istringstream in(s);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w;
        l >> w;
        if (w == "V" || w == "X") {
            l >> o.cls;
            std::getline(l, o.detail);
            if (!o.detail.empty()) o.detail.erase(0, 1);
            o.code = w == "V" ? 42 : 43;
        } else if (w == "C") {
            std::string n;
            u64 v;
            l >> n >> v;
            o.counts[n] += v;
        } else if (w == "H") {
            size_t n;
            l >> std::hex >> o.hash >> o.ihash >> std::dec >> o.steps >> n;
            o.haveH = true;
        } else if (w == "W") {
            sim::Switch x{};
            l >> x.phase >> x.tid >> x.op >> x.step >> x.to;
            o.switches.push_back(x);
        } else if (w == "D") {
            u32 op;
            std::string h;
            l >> op >> h;
            o.digest[op] = h;
        } else if (w == "E") {
            o.events.push_back(line.substr(2));
        }
    }
    if (o.code != 0 && o.code != 42 && o.code != 43) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            o.code = 43;
            o.cls = "killed";
            o.detail = "child killed from outside (memory?)";
        } else {
            o.detail = "child ended with status " + std::to_string(st);
            o.cls = "crash";
            o.code = 42;
        }
    }
    if (o.code == 0 && !o.haveH) {
        o.code = 42;
        o.cls = "crash";
        o.detail = "the process ended by itself";
    }
    return o;
}

/** One simulated run. */
Outcome runOne(const Plan &p, const sim::Knobs &k, const std::vector<sim::Switch> *sw,
               bool events = false) {
    return inChild(
      [&] {
          if (sw) sim::setReplaySwitches(*sw);
          execute(p, k);
      },
      events);
}

/** The simulator against code whose behaviour is known. */
int selfTest(int first) {
    for (int i = first;; ++i) {
        bool end = true;
        std::string want;
        u64 seen = 0, atomics = 0;
        for (u64 seed = 1; seed <= 20; ++seed) {
            sim::Knobs k;
            k.sched_seed = seed;
            k.heap_mode = int(seed % sim::HeapModes);
            k.mean_gap = 30;
            k.hot = 4;
            Outcome o = inChild([&] {
                sim::installKnobs(k);
                const char *w = wl::miniature(i);
                sim::event(w ? w : "end");
            }, true);
            if (!o.events.empty() && o.events[0] == "end") break;
            end = false;
            if (o.code == 42) ++seen;
            if (o.counts.count("sync.atomics")) atomics += o.counts["sync.atomics"];
            if (o.code == 0)
                want = o.events.empty() ? "" : o.events[0];
            else {
                static const char *expect[] = {"data-race", "", "deadlock", "use-after-free",
                                               "double-free", "use-after-return",
                                               "heap-out-of-bounds", "", "", "", "null-access",
                                               "", "", "deadlock", "livelock"};
                if (o.cls != expect[i]) {
                    printf("SELFTEST miniature %d: reported %s %s\n", i, o.cls.c_str(),
                           o.detail.c_str());
                    return 1;
                }
                want = expect[i];
            }
        }
        if (end) {
            printf("SELFTEST %d miniatures as expected\n", i);
            return i == 15 ? 0 : 1;
        }
        if (!want.empty() && !seen) {
            printf("SELFTEST miniature %d: %s never reported\n", i, want.c_str());
            return 1;
        }
        if ((i == 7 || i == 8) && !atomics) {
            printf("SELFTEST reference counts are not seen as synchronisation\n");
            return 1;
        }
    }
}

void merge(Outcome &into, const Outcome &o) {
    for (auto &c : o.counts) into.counts[c.first] += c.second;
    into.hash = (into.hash ^ o.hash) * 1099511628211ull;
    into.ihash = (into.ihash ^ o.ihash) * 1099511628211ull;
    into.steps += o.steps;
}

/** A plan, with its variants; `sw` receives the schedule of each. */
Outcome runPlan(const Plan &p, std::vector<std::vector<sim::Switch>> *sw = nullptr,
                bool events = false) {
    auto recorded = [&](size_t i) -> const std::vector<sim::Switch> * {
        static const std::vector<sim::Switch> none;
        if (!p.haveSwitches) return nullptr;
        return i < p.switches.size() ? &p.switches[i] : &none;
    };
    Outcome o = runOne(p, p.knobs, recorded(0), events);
    if (sw) sw->assign(1, o.switches);
    if (o.code) return o;
    for (size_t i = 0; i < p.variants.size(); ++i) {
        Outcome v = runOne(p, p.variants[i], recorded(i + 1), events);
        if (sw) sw->push_back(v.switches);
        if (v.code) return v;
        for (auto &d : o.digest) {
            auto it = v.digest.find(d.first);
            if (it == v.digest.end() || it->second != d.second) {
                o.code = 42;
                o.cls = "not-deterministic";
                o.detail = "op " + std::to_string(d.first) +
                           " gives different bits in variant " + std::to_string(i + 1) +
                           " (other memory addresses, other schedule)";
                break;
            }
        }
        merge(o, v);
        o.counts["check.variant_compared"] += o.digest.size();
        if (o.code) return o;
    }
    return o;
}

std::string slurp(const char *f) {
    std::ifstream in(f);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}
size_t opCount(const Plan &p) {
    size_t n = 0;
    for (auto &ph : p.phases)
        for (auto &t : ph.th) n += t.size();
    return n;
}

/** Order of switches does not matter to replay: they are looked up by (phase, thread, op,
 *  step). */
struct Minimizer {
    Plan best;
    std::string cls;
    double until;
    int tries = 0;

    bool bad(const Plan &p) {
        ++tries;
        Outcome o = runPlan(p);
        return o.code == 42 && o.cls == cls;
    }
    bool accept(const Plan &p) {
        if (now() > until) return false;
        if (!bad(p)) return false;
        best = p;
        return true;
    }
    template <typename T, typename Get>
    void ddmin(Get items) {
        // items(plan) -> pointers to lists; remove chunks of the concatenation
        size_t chunk = 0;
        auto total = [&](Plan &p) {
            size_t n = 0;
            for (auto *l : items(p)) n += l->size();
            return n;
        };
        size_t n = total(best);
        for (chunk = std::max<size_t>(1, n / 2); chunk >= 1; chunk /= 2) {
            for (size_t at = 0; at < total(best) && now() < until;) {
                Plan p = best;
                size_t pos = 0, removed = 0;
                for (auto *l : items(p)) {
                    std::vector<T> keep;
                    for (auto &x : *l) {
                        if (pos >= at && pos < at + chunk)
                            ++removed;
                        else
                            keep.push_back(x);
                        ++pos;
                    }
                    *l = keep;
                }
                if (!removed) break;
                if (!accept(p)) at += chunk;
            }
            if (chunk == 1) break;
        }
    }
    void ops() {
        ddmin<Op>([](Plan &p) {
            std::vector<std::vector<Op> *> l;
            for (auto &ph : p.phases)
                for (auto &t : ph.th) l.push_back(&t);
            return l;
        });
    }
    void run() {
        // 1. fix the schedule
        Plan p = best;
        std::vector<std::vector<sim::Switch>> sw;
        runPlan(p, &sw);
        bool multi = false;
        for (auto &ph : p.phases) multi |= ph.th.size() > 1;
        if (multi) {
            p.haveSwitches = true;
            p.switches = sw;
            accept(p);
        } else {
            p.haveSwitches = false;
            p.switches.clear();
            accept(p);
        }
        // fewer variants
        while (best.variants.size() > 1) {
            bool any = false;
            for (size_t i = 0; i < best.variants.size() && !any; ++i) {
                Plan q = best;
                q.variants.erase(q.variants.begin() + long(i));
                if (q.haveSwitches && q.switches.size() > i + 1)
                    q.switches.erase(q.switches.begin() + long(i) + 1);
                any = accept(q);
            }
            if (!any) break;
        }
        ops();
        // 2. threads one after the other, faults away, simple heap
        for (size_t i = 0; i < best.phases.size(); ++i)
            if (best.phases[i].th.size() > 1) {
                Plan q = best;
                std::vector<Op> all;
                for (auto &t : q.phases[i].th) all.insert(all.end(), t.begin(), t.end());
                q.phases[i].th.assign(1, all);
                accept(q);
            }
        for (size_t i = 0; i < best.phases.size(); ++i)
            for (size_t t = 0; t < best.phases[i].th.size(); ++t)
                for (size_t k = 0; k < best.phases[i].th[t].size(); ++k) {
                    Op &o = best.phases[i].th[t][k];
                    if (!o.fault) continue;
                    Plan q = best;
                    q.phases[i].th[t][k].fault = 0;
                    if (accept(q)) continue;
                    if (o.sweep)
                        for (u32 f = 1; f < 24; ++f) {
                            Plan z = best;
                            auto &zo = z.phases[i].th[t][k];
                            zo.sweep = 0;
                            zo.fk = zo.fault == sim::FaultBudget ? (f - 1) * 48 : f;
                            if (accept(z)) break;
                        }
                }
        if (best.variants.empty()) {
            Plan q = best;
            q.knobs.heap_mode = sim::HeapUp;
            accept(q);
        }
        // 3. the schedule
        if (best.haveSwitches) {
            Plan q = best;
            std::vector<std::vector<sim::Switch>> s2;
            runPlan(q, &s2);
            q.switches = s2;
            accept(q);
            ddmin<sim::Switch>([](Plan &z) {
                std::vector<std::vector<sim::Switch> *> l;
                for (auto &s : z.switches) l.push_back(&s);
                return l;
            });
            ops();
        }
        // empty phases
        for (size_t i = best.phases.size(); i-- > 0;) {
            bool empty = true;
            for (auto &t : best.phases[i].th) empty &= t.empty();
            if (!empty || best.haveSwitches) continue;
            Plan q = best;
            q.phases.erase(q.phases.begin() + long(i));
            accept(q);
        }
        bool stillMulti = false;
        for (auto &ph : best.phases) stillMulti |= ph.th.size() > 1;
        if (!stillMulti && best.haveSwitches) {
            Plan q = best;
            q.haveSwitches = false;
            q.switches.clear();
            accept(q);
        }
    }
};

void describe(const Outcome &o) {
    printf("class %s\ndetail %s\nhash %016llx\nsteps %llu\n", o.cls.c_str(), o.detail.c_str(),
           (unsigned long long) o.hash, (unsigned long long) o.steps);
}

const char *arg(int c, char **v, const char *name, const char *def) {
    for (int i = 2; i + 1 < c; ++i)
        if (!strcmp(v[i], name)) return v[i + 1];
    return def;
}

int batch(int argc, char **argv) {
    std::string prof = argv[2];
    u64 from = strtoull(arg(argc, argv, "--from", "1"), nullptr, 10);
    u64 step = strtoull(arg(argc, argv, "--step", "1"), nullptr, 10);
    u64 count = strtoull(arg(argc, argv, "--count", "1000"), nullptr, 10);
    double limit = atof(arg(argc, argv, "--time", "60"));
    u64 twice = strtoull(arg(argc, argv, "--twice", "50"), nullptr, 10);
    u64 maxBad = strtoull(arg(argc, argv, "--max-bad", "1"), nullptr, 10);
    std::string hashes = arg(argc, argv, "--hashes", "");
    double t0 = now();
    std::map<std::string, u64> total;
    std::map<std::string, u64> faultRuns;
    u64 runs = 0, steps = 0, nbad = 0, nontrivial = 0, switched = 0, threads[5] = {};
    u64 heapModes[8] = {}, ops = 0, same = 0;
    std::vector<u64> hs, is;
    u64 i = 0;
    for (; i < count && now() - t0 < limit; ++i) {
        u64 seed = from + i * step;
        Plan p = generate(prof, seed);
        std::vector<std::vector<sim::Switch>> sw;
        Outcome o = runPlan(p, &sw);
        ++runs;
        steps += o.steps;
        ops += opCount(p);
        size_t mt = 1;
        for (auto &ph : p.phases) mt = std::max(mt, ph.th.size());
        ++threads[mt];
        ++heapModes[p.knobs.heap_mode];
        for (auto &c : o.counts) {
            if (c.first == "peak_bytes")
                total[c.first] = std::max(total[c.first], c.second);
            else
                total[c.first] += c.second;
        }
        size_t nsw = 0;
        for (auto &s : sw) nsw += s.size();
        total["switches"] += nsw;
        if (nsw > 1) ++switched;
        u64 checks = 0, fired = 0;
        for (auto &c : o.counts) {
            if (c.first.compare(0, 6, "check.") == 0) checks += c.second;
            if (c.first == "fault.op_failed") fired += c.second;
        }
        bool nt = (checks >= 3 || (p.flags & FDig)) &&
                  (mt == 1 || nsw > 1) &&
                  (!(p.flags & FAtom) || fired > 0);
        if (nt) {
            ++nontrivial;
            hs.push_back(o.hash);
        }
        if (mt > 1) is.push_back(o.ihash);
        if (o.code == 43) {
            printf("HARNESS-ERROR seed %llu %s %s\n", (unsigned long long) seed, o.cls.c_str(),
                   o.detail.c_str());
            return 43;
        }
        if (o.code == 42) {
            printf("BAD %llu %s %s\n", (unsigned long long) seed, o.cls.c_str(),
                   o.detail.c_str());
            fflush(stdout);
            if (++nbad >= maxBad) {
                ++i;
                break;
            }
            continue;
        }
        if (twice && i % twice == 0) {
            Outcome q = runPlan(p);
            if (q.code != o.code || q.hash != o.hash || q.ihash != o.ihash ||
                q.steps != o.steps || q.digest != o.digest || q.counts != o.counts) {
                printf("HARNESS-ERROR seed %llu not repeatable\n", (unsigned long long) seed);
                return 43;
            }
            ++same;
        }
    }
    auto uniq = [](std::vector<u64> &v) {
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
    };
    uniq(hs);
    uniq(is);
    if (!hashes.empty()) {
        std::ofstream out(hashes, std::ios::binary);
        u64 n = hs.size();
        out.write(reinterpret_cast<char *>(&n), 8);
        out.write(reinterpret_cast<char *>(hs.data()), long(8 * hs.size()));
        out.write(reinterpret_cast<char *>(is.data()), long(8 * is.size()));
    }
    printf("STAT runs %llu\nSTAT plan_ops %llu\nSTAT steps %llu\nSTAT nontrivial %llu\n"
           "STAT switched %llu\nSTAT repeated_identically %llu\nSTAT bad %llu\nSTAT last %llu\n",
           (unsigned long long) runs, (unsigned long long) ops, (unsigned long long) steps,
           (unsigned long long) nontrivial, (unsigned long long) switched,
           (unsigned long long) same, (unsigned long long) nbad,
           (unsigned long long) (from + (i ? i - 1 : 0) * step));
    for (int t = 1; t < 5; ++t)
        printf("STAT threads_%d %llu\n", t, (unsigned long long) threads[t]);
    for (int t = 0; t < sim::HeapModes; ++t)
        printf("STAT heap_mode_%d %llu\n", t, (unsigned long long) heapModes[t]);
    for (auto &c : total)
        printf("COUNT %s %llu\n", c.first.c_str(), (unsigned long long) c.second);
    return nbad ? 42 : 0;
}
}  // namespace

int main(int argc, char **argv) {
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("WGSIM_REEXEC")) {
        setenv("WGSIM_REEXEC", "1", 1);
        if (personality(unsigned(pers) | ADDR_NO_RANDOMIZE) >= 0)
            execv("/proc/self/exe", argv);
    }
    if (argc < 3) {
        fprintf(stderr, "usage: wgsim batch|gen|run|replay|minimize|names ...\n");
        return 2;
    }
    std::string mode = argv[1];
    sim::initProcess();
    wl::initTables();
    if (mode == "names") {
        std::set<std::string> seen;
        for (auto &f : wl::frags()) {
            printf("%s\n", f.name.c_str());
            if (!seen.insert(f.name).second) {
                printf("DUPLICATE\n");
                return 1;
            }
        }
        printf("%zu fragments, %zu factors\n", wl::frags().size(), wl::factors().size());
        return 0;
    }
    if (mode == "selftest") return selfTest(argc > 2 ? atoi(argv[2]) : 0);
    if (mode == "batch") return batch(argc, argv);
    if (mode == "gen" || mode == "run") {
        Plan p = generate(argv[2], strtoull(argv[3], nullptr, 10));
        if (mode == "gen") {
            fputs(write(p).c_str(), stdout);
            return 0;
        }
        Outcome o = runPlan(p, nullptr, true);
        for (auto &e : o.events) printf("  %s\n", e.c_str());
        for (auto &c : o.counts)
            printf("  %s %llu\n", c.first.c_str(), (unsigned long long) c.second);
        describe(o);
        return o.code;
    }
    Plan p;
    std::string expect;
    if (!read(slurp(argv[2]), p, expect)) {
        fprintf(stderr, "cannot read %s\n", argv[2]);
        return 2;
    }
    if (mode == "replay") {
        Outcome o = runPlan(p, nullptr, true);
        for (auto &e : o.events) printf("  %s\n", e.c_str());
        describe(o);
        return o.code;
    }
    if (mode == "minimize") {
        Outcome o = runPlan(p);
        if (o.code != 42) {
            fprintf(stderr, "does not fail\n");
            return 1;
        }
        Minimizer m;
        m.best = p;
        m.cls = o.cls;
        m.until = now() + atof(arg(argc, argv, "--time", "60"));
        m.run();
        Outcome e = runPlan(m.best);
        char h[32];
        snprintf(h, sizeof h, "%016llx", (unsigned long long) e.hash);
        std::ofstream out(argv[3]);
        out << write(m.best) << "expect " << e.cls << "\n# " << e.detail << "\n# hash " << h
            << "\n";
        printf("minimized to %zu ops in %d tries\n", opCount(m.best), m.tries);
        describe(e);
        return e.code == 42 ? 0 : 1;
    }
    return 2;
}
