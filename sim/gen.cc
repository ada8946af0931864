// Generates plans: which objects, which history of operations, which threads, which faults.
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <sstream>

#include "plan.h"

namespace plan {
using sim::Rng;
using wl::Frag;
using wl::LT;

const char *const kName[NK] = {"V",  "M",  "LP", "LF", "B",  "BA", "HC", "HM", "HA",
                               "HX", "HL", "HD", "EV", "JV", "JH", "JM", "RV", "DY",
                               "S",  "SC", "SM", "SD", "SE", "SJ", "SR", "D",  "AS",
                               "BK", "FN", "FC", "FE", "FJ", "FV", "FD", "RN",
                               "DC", "DD", "DE", "RP", "RA", "RX", "RE", "RJ", "RR", "HR",
                               "KP", "KD"};

namespace {
// ------------------------------------------------------------------ profiles
struct Prof {
    const char *name;
    u32 flags;
    double w[NK];       // weight of each kind of operation
    double pPar;        // probability of a concurrent phase
    bool shareExpr;     // expressions made earlier may be used by several threads
    bool shareVars;     // variables not assigned meanwhile may be
    bool giveHandles;   // handles copied to a thread before the phase
    double pFault;      // probability that an operation meets allocation faults
    double pSweep;      // ... at every allocation in turn
    double pNumeric;    // numerical Jacobians
    int opsLo, opsHi;
    int variants;
    bool entropy;       // arbitrary entropy
    bool statics;       // uses leaf types which only static expressions support
    double pDeep;       // larger expressions
    char about = 0;     // 'c': compounds in every run; 'm': leaves mapped onto user buffers
};

constexpr double N = 0;
//                          V    M    LP   LF   B    BA   HC   HM   HA   HX   HL   HD
//                          EV   JV   JH   JM   RV   DY
//                          S    SC   SM   SD   SE   SJ   SR   D    AS   BK
//                          FN   FC   FE   FJ   FV   FD   RN
const Prof profs[] = {
  {"C01", FVal | FJac,
   {1, 8, 1, 1, 6, 3, 1, .3, 2, .5, 1, .7, 10, 5, 4, 1, 4, .5, 2, .3, .3, .3, 3, 2, 1, .5, 3, .5,
    N, N, N, N, N, N, .2},
   0.05, true, true, false, 0, 0, 0, 20, 60, 0, false, false, .2},
  {"C02", FJac | FNum,
   {.7, 3, 1, 1, 8, 1.5, .5, .1, 1, .1, .5, .3, 1, 8, 6, 3, 6, .4, 3, .2, .2, .2, .5, 5, 3, N, 1,
    .2, N, N, N, N, N, N, N},
   0, false, false, false, 0, 0, .12, 15, 45, 0, false, true, .5},
  {"C03", FLive | FLeak,
   {.5, 1, 2, 1, 8, 4, 5, 4, 5, 4, 3, 6, 2, 1, 1, .2, 1.5, .5, 2.5, 2, 2, 2, 1, .5, .5, .5, 1, N,
    N, N, N, N, N, N, N},
   .5, true, true, true, .05, .02, 0, 20, 70, 0, false, false, .2},
  {"C04", FVal | FBind,
   {.5, 2, 2, 1, 5, 6, 4, 2, 7, 4, 4, 2, 8, 1, 1, .2, 1, .5, 1.5, .5, .5, .5, 3, .5, .3, .5, 1, N,
    N, N, N, N, N, N, N},
   0.1, true, true, true, 0, 0, 0, 25, 70, 0, false, false, .3},
  {"C05", FAtom | FVal | FJac | FLive | FLeak,
   {.5, 2, 2, 2, 7, 5, 1, .5, 2, .5, 3, 1, 5, 4, 4, 2, 4, 1.5, 3, 2, .5, .5, 2, 2, 2, 2, 4, 2, 1,
    1, .3, .3, .3, .3, .3},
   0, false, false, false, .6, .5, .05, 10, 35, 0, false, true, .2},
  {"C06", FVal | FJac,
   {.5, 2, 2, 1, 6, 3, 1, .3, 1, .3, 1, 1, 6, 5, 3, 1, 4, .3, 2, .5, .3, .3, 4, 2, 2, 3, 3, .5, .4,
    .2, .5, .8, .3, .2, .7},
   1, false, true, false, 0, 0, 0, 6, 14, 0, false, true, .1},
  {"C07", FVal | FJac | FLive,
   {.3, 1.5, .7, .3, 3, 1, 2, .5, 1, .3, .5, 1, 9, 6, 4, 2, 6, .5, 1, 1, .3, .3, 4, 3, 2, 1, 1.5,
    .2, .3, .5, 1, 1, N, .2, .2},
   1, true, true, true, 0, 0, 0, 6, 14, 0, false, false, .2},
  {"C08", FAssign | FPure,
   {1, 2, .5, 1, 2, 1, .3, .2, .5, .2, .3, .2, 1, .5, .3, N, .5, .5, 2, .3, .3, .3, 1, .5, .5, .7,
    12, 8, N, N, N, N, N, N, N},
   .15, true, true, false, .15, .15, 0, 15, 50, 0, false, true, .2},
  {"C09", FVal | FJac,
   {1, 5, .5, .5, .7, .3, .2, .1, .2, .1, .2, .1, .2, .1, .1, N, .1, .5, 8, 5, 4, 3, 9, 6, 3, 6, 1,
    N, N, N, N, N, N, N, N},
   .15, true, true, false, .05, .05, 0, 20, 60, 0, false, true, .1},
  {"C10", FFac | FPure,
   {1, 4, N, N, N, N, N, N, N, N, N, N, N, N, N, N, N, N, N, N, N, N, N, N, N, N, 1, .3, 4, 4, 6,
    9, 6, 3, N},
   .3, true, true, false, .1, .2, 0, 15, 50, 0, false, false, 0},
  {"C11", FRnd,
   {1, 2, 1, N, 1, N, N, N, N, N, N, N, 1, .3, N, N, N, N, N, N, N, N, N, N, N, N, .5, N, N, N, N,
    N, N, N, 14},
   .7, true, true, false, .05, .05, 0, 10, 30, 0, true, true, 0},
  {"C12", FDig,
   {.5, 3, 1, 1, 6, 3, 1, .3, 1, .3, 1, 1, 6, 4, 3, 1.5, 6, .7, 3, .5, .3, .3, 2, 2, 3, 1, 3, 1,
    .5, .3, .5, 1, .5, .2, N},
   .5, true, true, false, .03, .03, .03, 12, 40, 3, false, true, .3},
  {"C13", FPure | FBind,
   {.7, 2, 1, 1, 6, 1.5, 1, .3, 1, .3, .5, .5, 6, 5, 4, 2, 4, .7, 3, 1, .5, .5, 4, 3, 3, 3, 3, 1,
    .5, .3, .7, 1, .5, .2, .2},
   .2, true, true, false, .1, .2, .15, 20, 50, 0, false, true, .2},
  {"C14", FVal | FJac | FAtom | FLive | FLeak,
   {.3, 1.5, 1, .7, 6, 3, 1.5, .5, 1.5, .5, 1.5, 1.5, 7, 5, 3, 1.5, 5, .3, 2, 1, .3, .3, 3, 2, 2,
    2, 2, .5, .2, .2, .3, .3, .3, .2, .3},
   1, true, true, true, .35, .15, 0, 6, 14, 0, false, false, .2},
  {"C15", FVal | FJac,
   {1, 8, 1, .5, 8, 2, .5, .2, 1, .3, 1, .3, 7, 5, 4, 1, 4, 8, 5, 1, .5, .5, 6, 4, 2, 2, 2, .5, N,
    N, N, N, N, N, N},
   .2, true, true, false, 0, 0, 0, 20, 60, 0, false, false, .2},
  {"C16", FMem | FLeak,
   {.7, 4, 1, 1, 5, 3, .5, .3, 3, .7, 1, 1, 9, 5, 4, 2, 5, .7, 3, .5, .5, .5, 5, 3, 3, 3, 3, 1, .5,
    .3, 1, 1, 1, .3, .5},
   .1, true, true, false, .1, .1, .03, 20, 60, 0, false, true, .3},
  {"C19", FVal | FJac | FNum | FAssign | FPure | FLeak,
   {1, 5, .5, .2, .2, .1, N, N, .1, N, N, N, .2, .1, N, N, N, N, 9, 3, 3, 1, 9, 7, .5, 4, 5, 3, N,
    N, N, N, N, N, N},
   .15, true, true, false, .1, .1, .1, 20, 60, 0, false, true, 0, 'c'},
  {"C20", FVal | FJac | FAssign | FPure | FLeak,
   {1, 7, .2, .2, .3, .1, N, N, .1, N, N, N, .2, .1, N, N, N, N, 8, 2, 2, .5, 9, 6, 3, 3, 8, 6, N,
    N, N, N, N, N, N},
   .25, true, true, false, .1, .1, 0, 20, 60, 0, false, true, 0, 'm'},
};

const Prof *find(const std::string &n) {
    for (auto &p : profs)
        if (n == p.name) return &p;
    return nullptr;
}

// ------------------------------------------------------------------ what the plan knows
struct GNode {
    double cost = 1;
    int depth = 0;
    std::set<int> vars;
    std::vector<std::shared_ptr<GNode>> opd;
};
using GNodeP = std::shared_ptr<GNode>;
constexpr int Shared = -1, Nobody = -2;
struct GV {
    int id;
    LT lt;
    int owner = Shared;
};
struct GH {
    int id;
    LT lt;
    GNodeP n;  // null when moved from
    int owner = Shared;
};
struct GD {
    int id;
    LT lt;
    GNodeP n;
    int owner = Shared;
    bool used = false;  // a RefProxy refers to it
    int frag = -1;
};
struct GR {  // RefProxy, or kept pointer
    int id;
    LT lt;
    GNodeP n;
    int owner = Shared;
    bool used = false;  // has to stay
};
struct GS {
    int id;
    const Frag *f;
    GNodeP n;
    std::vector<int> ops;
    int owner = Shared;
    bool moved = false;
};
struct GF {
    int id, desc, group;
    int owner = Shared;
};

struct Gen {
    Rng r;
    const Prof &pf;
    Plan p;
    std::map<int, GV> v;
    std::map<int, GH> h;
    std::map<int, GD> d;
    std::map<int, GR> rp, kp;
    std::map<int, GS> s;
    std::map<int, GF> f;
    std::set<int> pal;
    std::map<int, int> groupOwner;  // of the variables of a factor and its copies
    double w[NK];
    int next = 1;
    u32 opId = 1;
    bool par = false;
    int me = 0;
    double maxCost = 60;
    int maxDepth = 10;
    bool grow = false;  // expressions grow: by preference, in terms of the newest
    std::vector<Op> *out = nullptr;
    double famBias = 0;

    char about = 0;  // of what this run has more: c compounds, m mapped leaves, f frames, s statics
    Gen(const Prof &q, u64 seed) : r{seed}, pf(q) {}

    // ---- who may use what
    bool usableVars(const std::set<int> &vs) {
        if (!par) return true;
        for (int x : vs) {
            int o = v.at(x).owner;
            if (o != Shared && o != me) return false;
        }
        return true;
    }
    bool canRead(int owner) { return !par || owner == me || owner == Shared; }
    bool canWrite(int owner) { return !par || owner == me; }
    bool readable(const GH &x) { return x.n && canRead(x.owner) && usableVars(x.n->vars); }
    bool readable(const GR &x) { return canRead(x.owner) && usableVars(x.n->vars); }
    bool readable(const GD &x) { return canRead(x.owner) && usableVars(x.n->vars); }
    bool readable(const GS &x) {
        return !x.moved && canRead(x.owner) && usableVars(x.n->vars);
    }

    template <typename M, typename F>
    int pick(const M &m, F ok) {
        std::vector<int> c;
        for (auto &q : m)
            if (ok(q.second)) c.push_back(q.first);
        if (c.empty()) return -1;
        if (grow) {  // in terms of the newest handle, but of any variables
            if (static_cast<const void *>(&m) != &h) return c[r.below(c.size())];
            if (r.chance(.8)) return c.back();
        }
        // recent objects are favoured, so that expressions grow
        if (r.chance(.4)) return c[c.size() - 1 - r.below(std::min<size_t>(c.size(), 3))];
        return c[r.below(c.size())];
    }

    Op &emit(K k) {
        out->emplace_back();
        Op &o = out->back();
        o.id = opId++;
        o.k = k;
        o.vs = r.next() & 0xffffffffffffull;
        static const std::set<int> faulty = {LP, LF, B,  BA, HL, EV, JV, JH, JM, RV, DY, S,
                                             SC, SE, SJ, SR, D,  AS, BK, FN, FC, RN, DE, RE, RJ, RR, HR};
        if (faulty.count(k) && pf.pFault > 0 && r.chance(pf.pFault)) {
            o.fault = 1 + int(r.below(4));
            o.fk = o.fault == sim::FaultBudget ? u32(r.below(600)) : 1 + u32(r.below(12));
            if (o.fault == sim::FaultEvery) o.fk = 1 + u32(r.below(4));
            o.sweep = r.chance(pf.pSweep / pf.pFault) && o.fault != sim::FaultEvery;
        }
        return o;
    }

    // ---- operands
    bool operands(const Frag &fr, int *x, GNode &n, int avoidVar = -1, bool direct = false) {
        (void) direct;
        for (int i = 0; i < fr.nin; ++i) {
            int id = -1;
            switch (fr.kind[i]) {
                case 'L':
                case 'W':
                case 'V':
                    id = pick(v, [&](const GV &q) {
                        return q.lt == fr.in[i] && canRead(q.owner) && q.id != avoidVar;
                    });
                    if (id >= 0 && fr.kind[i] != 'V') n.vars.insert(id);
                    n.cost += 1;
                    break;
                case 'P':
                case 'X': {
                    id = pick(h, [&](const GH &q) { return q.lt == fr.in[i] && readable(q); });
                    if (id < 0) break;
                    auto &g = h.at(id).n;
                    n.opd.push_back(g);
                    n.cost += g->cost;
                    n.depth = std::max(n.depth, g->depth + 1);
                    n.vars.insert(g->vars.begin(), g->vars.end());
                    break;
                }
                default: {
                    id = pick(rp, [&](const GR &q) { return q.lt == fr.in[i] && readable(q); });
                    if (id < 0) break;
                    auto &g = rp.at(id).n;
                    n.opd.push_back(g);
                    n.cost += g->cost;
                    n.depth = std::max(n.depth, g->depth + 1);
                    n.vars.insert(g->vars.begin(), g->vars.end());
                }
            }
            if (id < 0) return false;
            x[1 + i] = id;
        }
        return n.cost <= maxCost && n.depth <= maxDepth;
    }
    template <typename F>
    int frag(F ok) {
        auto &fs = wl::frags();
        std::vector<int> c;
        std::set<int> hv, hh, hd;
        for (auto &q : v)
            if (canRead(q.second.owner)) hv.insert(q.second.lt);
        for (auto &q : h)
            if (readable(q.second)) hh.insert(q.second.lt);
        for (auto &q : rp)
            if (readable(q.second)) hd.insert(q.second.lt);
        for (size_t i = 0; i < fs.size(); ++i) {
            auto &fr = fs[i];
            if (!ok(fr)) continue;
            bool have = true;
            for (int a = 0; a < fr.nin && have; ++a) {
                char k = fr.kind[a];
                have = (k == 'L' || k == 'V' || k == 'W') ? hv.count(fr.in[a])
                       : (k == 'P' || k == 'X') ? hh.count(fr.in[a])
                                                : hd.count(fr.in[a]);
            }
            if (!have) continue;
            int wgt = 1;
            for (int a = 0; a < fr.nin; ++a) {
                if (fr.kind[a] == 'P' || fr.kind[a] == 'X') wgt += 2;
                if (fr.kind[a] == 'R' || fr.kind[a] == 'Y') wgt += 6;
            }
            auto wanted = [&](int lt) {
                return about == 'c' ? lt == wl::c || lt == wl::c5
                       : about == 'm' ? lt >= wl::mM && lt <= wl::kt
                                      : about == 'f' && lt >= wl::fQ && lt <= wl::fr;
            };
            bool want = wanted(fr.out);
            for (int a = 0; a < fr.nin; ++a) want = want || wanted(fr.in[a]);
            if (want) wgt *= 5;
            while (wgt-- > 0) c.push_back(int(i));
        }
        return c.empty() ? -1 : c[r.below(c.size())];
    }

    // ---- one operation; false if nothing suitable is there
    bool newVar(LT lt) {
        Op &o = emit(V);
        o.x[0] = next++;
        o.lt = lt;
        v[o.x[0]] = {o.x[0], lt, par ? me : Shared};
        return true;
    }
    GNodeP leafNode() {
        auto n = std::make_shared<GNode>();
        return n;
    }
    LT palLt(bool dynOnly) {
        std::vector<int> c;
        for (int q : pal)
            if (!dynOnly || q < wl::NDYN) c.push_back(q);
        if (c.empty()) return wl::t;
        return LT(c[r.below(c.size())]);
    }
    static bool isBelow(GNode *g, GNode *t) {
        std::set<GNode *> seen;
        std::vector<GNode *> st{g};
        while (!st.empty()) {
            GNode *q = st.back();
            st.pop_back();
            if (!seen.insert(q).second) continue;
            if (q == t) return true;
            for (auto &e : q->opd) st.push_back(e.get());
        }
        return false;
    }
    int someHandle() {
        return pick(h, [&](const GH &q) { return readable(q); });
    }
    bool step(K k) {
        switch (k) {
            case V: return v.size() < 30 && newVar(palLt(false));
            case M: {
                int id = pick(v, [&](const GV &q) { return canWrite(q.owner); });
                if (id < 0) return false;
                Op &o = emit(M);
                o.x[0] = id;
                o.route = int(r.below(wl::NumAssignRoutes));
                return true;
            }
            case LP: {
                if (h.size() > 40) return false;
                LT lt = palLt(true);
                Op &o = emit(LP);
                o.x[0] = next++;
                o.lt = lt;
                o.route = int(r.below(2));
                h[o.x[0]] = {o.x[0], lt, leafNode(), par ? me : Shared};
                return true;
            }
            case LF: {
                if (h.size() > 40) return false;
                int id = pick(v, [&](const GV &q) { return q.lt < wl::NDYN && canRead(q.owner); });
                if (id < 0) return false;
                Op &o = emit(LF);
                o.x[0] = next++;
                o.x[1] = id;
                h[o.x[0]] = {o.x[0], v.at(id).lt, leafNode(), par ? me : Shared};
                return true;
            }
            case B: {
                if (h.size() > 40) return false;
                const bool chain = grow && r.chance(.85);
                int fi = frag([&](const Frag &q) {
                    const auto ps = std::count(q.kind, q.kind + q.nin, 'P');
                    return q.build && (!grow || (ps > 0 && !(chain && (ps > 1 || q.nin < 2))));
                });
                if (fi < 0) return false;
                auto &fr = wl::frags()[size_t(fi)];
                int x[6] = {-1, -1, -1, -1, -1, -1};
                auto n = std::make_shared<GNode>();
                if (!operands(fr, x, *n)) return false;
                Op &o = emit(B);
                memcpy(o.x, x, sizeof x);
                o.x[0] = next++;
                o.frag = fi;
                h[o.x[0]] = {o.x[0], fr.out, n, par ? me : Shared};
                return true;
            }
            case BA: {
                int id = pick(h, [&](const GH &q) { return canWrite(q.owner); });
                if (id < 0) return false;
                LT lt = h.at(id).lt;
                int fi = frag([&](const Frag &q) { return q.build && q.out == lt; });
                if (fi < 0) return false;
                auto &fr = wl::frags()[size_t(fi)];
                int x[6] = {-1, -1, -1, -1, -1, -1};
                auto n = std::make_shared<GNode>();
                if (!operands(fr, x, *n)) return false;
                // often in terms of itself: h = h * a
                if (r.chance(.4))
                    for (int i = 0; i < fr.nin; ++i)
                        if ((fr.kind[i] == 'P' || fr.kind[i] == 'X') && fr.in[i] == lt &&
                            readable(h.at(id))) {
                            GNode m;
                            int y[6];
                            memcpy(y, x, sizeof x);
                            y[1 + i] = id;
                            // recompute cost and variables with the new operand
                            bool ok = true;
                            m.cost = 1;
                            for (int a = 0; a < fr.nin && ok; ++a) {
                                if (fr.kind[a] == 'L' || fr.kind[a] == 'W') m.vars.insert(y[1 + a]);
                                GNodeP g = (fr.kind[a] == 'P' || fr.kind[a] == 'X')
                                             ? h.at(y[1 + a]).n
                                           : (fr.kind[a] == 'R' || fr.kind[a] == 'Y')
                                             ? rp.at(y[1 + a]).n
                                                               : nullptr;
                                m.cost += g ? g->cost : 1;
                                if (g) {
                                    m.opd.push_back(g);
                                    m.depth = std::max(m.depth, g->depth + 1);
                                    m.vars.insert(g->vars.begin(), g->vars.end());
                                }
                            }
                            if (m.cost <= maxCost && m.depth <= maxDepth) {
                                memcpy(x, y, sizeof y);
                                *n = m;
                            }
                            break;
                        }
                Op &o = emit(BA);
                memcpy(o.x, x, sizeof x);
                o.x[0] = id;
                o.frag = fi;
                o.route = int(r.below(2));
                h.at(id).n = n;
                return true;
            }
            case HC:
            case HM: {
                if (h.size() > 40) return false;
                int id = pick(h, [&](const GH &q) {
                    return readable(q) && (k == HC || canWrite(q.owner));
                });
                if (id < 0) return false;
                Op &o = emit(k);
                o.x[0] = next++;
                o.x[1] = id;
                h[o.x[0]] = {o.x[0], h.at(id).lt, h.at(id).n, par ? me : Shared};
                if (k == HM) h.at(id).n = nullptr;
                return true;
            }
            case HA:
            case HX: {
                int a = pick(h, [&](const GH &q) { return canWrite(q.owner); });
                if (a < 0) return false;
                int b = pick(h, [&](const GH &q) {
                    return q.lt == h.at(a).lt && readable(q) && (k == HA || canWrite(q.owner)) &&
                           (k == HA || q.id != a);
                });
                if (b < 0) return false;
                Op &o = emit(k);
                o.x[0] = a;
                o.x[1] = b;
                GNodeP n = h.at(b).n;
                if (k == HX) h.at(b).n = nullptr;
                h.at(a).n = n;
                return true;
            }
            case HL: {
                int a = pick(h, [&](const GH &q) { return canWrite(q.owner); });
                if (a < 0) return false;
                Op &o = emit(HL);
                o.x[0] = a;
                h.at(a).n = leafNode();
                return true;
            }
            case HD: {
                if (h.size() < 2) return false;
                int a = pick(h, [&](const GH &q) { return canWrite(q.owner); });
                if (a < 0) return false;
                emit(HD).x[0] = a;
                h.erase(a);
                return true;
            }
            case EV: {
                int a = someHandle();
                if (a < 0) return false;
                Op &o = emit(EV);
                o.x[0] = a;
                o.route = int(r.below(wl::NumEvalRoutes));
                return true;
            }
            case JV: {
                int a = someHandle();
                if (a < 0) return false;
                bool num = r.chance(pf.pNumeric);
                auto &vs = h.at(a).n->vars;
                int b = pick(v, [&](const GV &q) {
                    return q.lt < wl::NDYN && canRead(q.owner) && (!num || canWrite(q.owner)) &&
                           (vs.count(q.id) || r.chance(.07));
                });
                if (b < 0) return false;
                Op &o = emit(JV);
                o.x[0] = a;
                o.x[1] = b;
                o.route = num ? 4 : int(r.below(4));
                return true;
            }
            case JH:
            case JM: {
                int a = someHandle();
                if (a < 0) return false;
                std::set<GNode *> below;
                std::vector<GNode *> st{h.at(a).n.get()};
                while (!st.empty()) {
                    GNode *g = st.back();
                    st.pop_back();
                    if (!below.insert(g).second) continue;
                    for (auto &q : g->opd) st.push_back(q.get());
                }
                if (k == JH) {
                    int b = pick(h, [&](const GH &q) {
                        return readable(q) && (below.count(q.n.get()) || r.chance(.06));
                    });
                    if (b < 0) return false;
                    Op &o = emit(JH);
                    o.x[0] = a;
                    o.x[1] = b;
                    o.route = int(r.below(wl::NumNodeRoutes));
                    return true;
                }
                auto &vs = h.at(a).n->vars;
                auto readV = [&](const GV &q) { return q.lt < wl::NDYN && canRead(q.owner); };
                int b = pick(v, [&](const GV &q) {
                    return readV(q) && (vs.count(q.id) || r.chance(.1));
                });
                if (b < 0) return false;
                LT lt = v.at(b).lt;
                int c = pick(v, [&](const GV &q) {
                    return readV(q) && q.lt == lt && (vs.count(q.id) || r.chance(.2));
                });
                int e = pick(h, [&](const GH &q) {
                    return readable(q) && q.lt == lt &&
                           (below.count(q.n.get()) || r.chance(.2));
                });
                if (c < 0 || e < 0) return false;
                Op &o = emit(JM);
                o.x[0] = a;
                o.x[1] = b;
                o.x[2] = c;
                o.x[3] = e;
                return true;
            }
            case RV: {
                int a = someHandle();
                if (a < 0) return false;
                emit(RV).x[0] = a;
                return true;
            }
            case DY: {
                if (d.size() > 10) return false;
                int fi = frag([](const Frag &q) { return !!q.dyn; });
                if (fi < 0) return false;
                auto &fr = wl::frags()[size_t(fi)];
                int x[6] = {-1, -1, -1, -1, -1, -1};
                auto n = std::make_shared<GNode>();
                if (!operands(fr, x, *n)) return false;
                Op &o = emit(DY);
                memcpy(o.x, x, sizeof x);
                o.x[0] = next++;
                o.frag = fi;
                d[o.x[0]] = {o.x[0], fr.out, n, par ? me : Shared, false, fi};
                return true;
            }
            case DC: {
                if (d.size() > 10) return false;
                int a = pick(d, [&](const GD &q) { return readable(q); });
                if (a < 0) return false;
                bool move = !d.at(a).used && canWrite(d.at(a).owner) && r.chance(.5);
                Op &o = emit(DC);
                o.x[0] = next++;
                o.x[1] = a;
                o.route = move;
                GD q = d.at(a);
                q.id = o.x[0];
                q.used = false;
                q.owner = par ? me : Shared;
                if (move) d.erase(a);
                d[q.id] = q;
                return true;
            }
            case DD: {
                int a = pick(d, [&](const GD &q) { return !q.used && canWrite(q.owner); });
                if (a < 0) return false;
                emit(DD).x[0] = a;
                d.erase(a);
                return true;
            }
            case DE: {
                int a = pick(d, [&](const GD &q) { return readable(q); });
                if (a < 0) return false;
                Op &o = emit(DE);
                o.x[0] = a;
                o.route = int(r.below(3));
                return true;
            }
            case RP:
            case RA: {
                if (k == RP && rp.size() > 14) return false;
                int a = -1;
                if (k == RA) {
                    a = pick(rp, [&](const GR &q) { return canWrite(q.owner); });
                    if (a < 0) return false;
                }
                auto fits = [&](LT lt) { return a < 0 || rp.at(a).lt == lt; };
                int route = r.chance(.65) ? 0 : 1 + int(r.below(2)), b = -1;
                GNodeP n;
                LT lt = wl::t;
                if (route == 0) {
                    b = pick(d, [&](const GD &q) { return fits(q.lt) && readable(q); });
                    if (b < 0) return false;
                    d.at(b).used = true;
                    n = d.at(b).n;
                    lt = d.at(b).lt;
                } else {
                    auto &m = route == 1 ? kp : rp;
                    b = pick(m, [&](const GR &q) { return fits(q.lt) && readable(q); });
                    if (b < 0) return false;
                    n = m.at(b).n;
                    lt = m.at(b).lt;
                    m.at(b).used = true;
                }
                Op &o = emit(k);
                o.x[0] = a < 0 ? next++ : a;
                o.x[1] = b;
                o.route = route;
                if (a < 0)
                    rp[o.x[0]] = {o.x[0], lt, n, par ? me : Shared};
                else
                    rp.at(a).n = n;
                return true;
            }
            case RX: {
                int a = pick(rp, [&](const GR &q) { return canWrite(q.owner); });
                if (a < 0) return false;
                emit(RX).x[0] = a;
                rp.erase(a);
                return true;
            }
            case RE:
            case RR: {
                int a = pick(rp, [&](const GR &q) { return readable(q); });
                if (a < 0) return false;
                Op &o = emit(k);
                o.x[0] = a;
                if (k == RE) o.route = int(r.below(wl::NumRefEvalRoutes));
                return true;
            }
            case RJ: {
                int a = pick(rp, [&](const GR &q) { return readable(q); });
                if (a < 0) return false;
                auto &vs = rp.at(a).n->vars;
                int b = pick(v, [&](const GV &q) {
                    return q.lt < wl::NDYN && canRead(q.owner) && (vs.count(q.id) || r.chance(.07));
                });
                if (b < 0) return false;
                Op &o = emit(RJ);
                o.x[0] = a;
                o.x[1] = b;
                o.route = int(r.below(wl::NumRefJacRoutes));
                return true;
            }
            case HR: {
                // expressions over RefProxies are rare: start from the RefProxy
                int b = pick(rp, [&](const GR &q) { return readable(q); });
                if (b < 0) return false;
                GNode *t = rp.at(b).n.get();
                int a = pick(h, [&](const GH &q) {
                    return readable(q) && (isBelow(q.n.get(), t) || r.chance(.05));
                });
                if (a < 0) return false;
                Op &o = emit(HR);
                o.x[0] = a;
                o.x[1] = b;
                o.route = int(r.below(wl::NumJacRefRoutes));
                return true;
            }
            case KP: {
                if (kp.size() > 8) return false;
                int a = someHandle();
                if (a < 0) return false;
                Op &o = emit(KP);
                o.x[0] = next++;
                o.x[1] = a;
                kp[o.x[0]] = {o.x[0], h.at(a).lt, h.at(a).n, par ? me : Shared};
                return true;
            }
            case KD: {
                int a = pick(kp, [&](const GR &q) { return !q.used && canWrite(q.owner); });
                if (a < 0) return false;
                emit(KD).x[0] = a;
                kp.erase(a);
                return true;
            }
            case S: {
                if (s.size() > 16) return false;
                int fi = frag([](const Frag &q) { return !!q.hold; });
                if (fi < 0) return false;
                auto &fr = wl::frags()[size_t(fi)];
                int x[6] = {-1, -1, -1, -1, -1, -1};
                auto n = std::make_shared<GNode>();
                if (!operands(fr, x, *n)) return false;
                Op &o = emit(S);
                memcpy(o.x, x, sizeof x);
                o.x[0] = next++;
                o.frag = fi;
                GS q{o.x[0], &fr, n, {}, par ? me : Shared, false};
                for (int i = 0; i < fr.nin; ++i) q.ops.push_back(x[1 + i]);
                s[o.x[0]] = q;
                return true;
            }
            case SC:
            case SM: {
                if (s.size() > 16) return false;
                int a = pick(s, [&](const GS &q) {
                    return readable(q) && (k == SC || canWrite(q.owner));
                });
                if (a < 0) return false;
                Op &o = emit(k);
                o.x[0] = next++;
                o.x[1] = a;
                GS q = s.at(a);
                q.id = o.x[0];
                q.owner = par ? me : Shared;
                s[q.id] = q;
                if (k == SM) s.at(a).moved = true;
                return true;
            }
            case SD: {
                int a = pick(s, [&](const GS &q) { return canWrite(q.owner); });
                if (a < 0) return false;
                emit(SD).x[0] = a;
                s.erase(a);
                return true;
            }
            case SE:
            case SR: {
                int a = pick(s, [&](const GS &q) { return readable(q); });
                if (a < 0) return false;
                Op &o = emit(k);
                o.x[0] = a;
                o.route = int(r.below(wl::NumHolderEvalRoutes));
                return true;
            }
            case SJ: {
                int a = pick(s, [&](const GS &q) { return readable(q); });
                if (a < 0) return false;
                auto &q = s.at(a);
                int i = int(r.below(u64(q.f->nin)));
                bool num = r.chance(pf.pNumeric);
                char kd = q.f->kind[i];
                if (num && (kd != 'L' || !canWrite(v.at(q.ops[size_t(i)]).owner))) num = false;
                if (kd == 'R' || kd == 'Y') {
                    auto it = rp.find(q.ops[size_t(i)]);
                    if (it == rp.end() || !readable(it->second)) return false;
                }
                if (kd == 'P' || kd == 'X') {
                    auto it = h.find(q.ops[size_t(i)]);
                    if (it == h.end() || !readable(it->second)) return false;
                }
                Op &o = emit(SJ);
                o.x[0] = a;
                o.x[1] = i;
                o.route = num ? 6 : int(r.below(wl::NumHolderJacRoutes));
                if (kd == 'V' || kd == 'W') o.route = 4;
                if (kd != 'L' && kd != 'V' && kd != 'W' && !num) o.route = 1 + int(r.below(2));
                return true;
            }
            case D: {
                int fi = frag([](const Frag &q) { return !!q.direct; });
                if (fi < 0) return false;
                auto &fr = wl::frags()[size_t(fi)];
                int x[6] = {-1, -1, -1, -1, -1, -1};
                GNode n;
                if (!operands(fr, x, n)) return false;
                Op &o = emit(D);
                memcpy(o.x, x, sizeof x);
                o.x[0] = -1;
                o.frag = fi;
                o.route = int(r.below(3));
                return true;
            }
            case AS:
            case BK: {
                int id = pick(v, [&](const GV &q) { return canWrite(q.owner); });
                if (id < 0) return false;
                LT lt = v.at(id).lt;
                int fi = frag([&](const Frag &q) {
                    return q.assignVar && (k == BK ? q.block && q.blockOf == lt
                                                   : !q.block && q.out == lt);
                });
                if (fi < 0) return false;
                auto &fr = wl::frags()[size_t(fi)];
                int x[6] = {-1, -1, -1, -1, -1, -1};
                GNode n;
                if (!operands(fr, x, n)) return false;
                if (r.chance(.5))  // x = x * ...
                    for (int i = 0; i < fr.nin; ++i)
                        if ((fr.kind[i] == 'L' || fr.kind[i] == 'V' || fr.kind[i] == 'W') &&
                            fr.in[i] == lt &&
                            r.chance(.7))
                            x[1 + i] = id;
                Op &o = emit(k);
                memcpy(o.x, x, sizeof x);
                o.x[0] = id;
                o.frag = fi;
                o.route = int(r.below(2));
                return true;
            }
            case FN: {
                if (f.size() > 10) return false;
                Op &o = emit(FN);
                o.x[0] = next++;
                o.frag = int(r.below(wl::factors().size()));
                f[o.x[0]] = {o.x[0], o.frag, o.x[0], par ? me : Shared};
                groupOwner[o.x[0]] = par ? me : Shared;
                return true;
            }
            case FC: {
                if (f.size() > 10) return false;
                int a = pick(f, [&](const GF &q) { return canRead(q.owner); });
                if (a < 0) return false;
                Op &o = emit(FC);
                o.x[0] = next++;
                o.x[1] = a;
                GF q = f.at(a);
                q.id = o.x[0];
                q.owner = par ? me : Shared;
                f[q.id] = q;
                return true;
            }
            case FD: {
                int a = pick(f, [&](const GF &q) { return canWrite(q.owner); });
                if (a < 0) return false;
                emit(FD).x[0] = a;
                f.erase(a);
                return true;
            }
            case FV: {
                // a variable is shared by the copies of a factor: in a concurrent phase only
                // factors made in it are written
                int a = pick(f, [&](const GF &q) {
                    return !par || groupOwner.at(q.group) == me;
                });
                if (a < 0) return false;
                Op &o = emit(FV);
                o.x[0] = a;
                o.x[1] = int(r.below(u64(wl::factors()[size_t(f.at(a).desc)].nparam)));
                return true;
            }
            case FE:
            case FJ: {
                int a = pick(f, [&](const GF &q) { return canRead(q.owner); });
                if (a < 0) return false;
                auto &dsc = wl::factors()[size_t(f.at(a).desc)];
                int x[6] = {a, -1, -1, -1, -1, -1};
                for (int i = 0; i < dsc.nparam; ++i) {
                    if (r.chance(.35)) continue;  // its own variable
                    int id = pick(v, [&](const GV &q) {
                        if (q.lt != dsc.in[i] || !canRead(q.owner)) return false;
                        for (int b = 0; b < i; ++b)
                            if (x[1 + b] == q.id) return false;
                        return true;
                    });
                    x[1 + i] = id;
                }
                Op &o = emit(k);
                memcpy(o.x, x, sizeof x);
                return true;
            }
            case RN: {
                Op &o = emit(RN);
                o.lt = r.chance(.5) ? int(r.below(wl::NLT)) : int(palLt(false));
                o.route = int(r.below(2));
                for (int i = 0; i < 20 && !wl::leafOps(LT(o.lt)).random; ++i)
                    o.lt = int(r.below(wl::NLT));
                return true;
            }
            default: return false;
        }
    }
    void some(int n) {
        double tot = 0;
        for (double q : w) tot += q;
        for (int i = 0, tries = 0; i < n && tries < n * 6; ++tries) {
            double u = r.unit() * tot;
            int k = 0;
            while (k < NK - 1 && u >= w[k]) u -= w[k++];
            if (w[k] > 0 && step(K(k))) ++i;
        }
    }

    /** the kinds of operations on references and kept pointers follow those they resemble */
    double weight(int k) {
        switch (k) {
            case DC: return .5 * pf.w[DY];
            case DD: return .3 * pf.w[DY];
            case DE: return .5 * pf.w[DY];
            case RP: return 1.5 * pf.w[DY];
            case RA: return (pf.flags & FBind ? 2 : 1) * pf.w[DY];
            case RX: return .3 * pf.w[DY];
            case RE: return .3 * std::min(pf.w[EV], 3 * pf.w[DY]);
            case RJ: return .3 * std::min(pf.w[JV], 3 * pf.w[DY]);
            case RR: return .3 * std::min(pf.w[RV], 3 * pf.w[DY]);
            case HR: return .5 * std::min(pf.w[JH], 2 * pf.w[DY]);
            case KP: return .25 * pf.w[HC];
            case KD: return .2 * pf.w[HD];
            default: return pf.w[k];
        }
    }
    sim::Knobs knobs() {
        sim::Knobs k;
        k.sched_seed = r.next() >> 8;
        k.heap_seed = r.next() >> 8;
        k.entropy_seed = r.next() >> 8;
        k.heap_mode = int(r.below(sim::HeapModes));
        k.mean_gap = std::floor(std::exp(r.real(1.4, 8)));
        k.hot = u32(1) << r.below(7);
        return k;
    }

    Plan go(u64 seed) {
        p.profile = pf.name;
        p.seed = seed;
        p.flags = pf.flags;
        p.knobs = knobs();
        if (pf.entropy && r.chance(.5)) p.knobs.entropy_mode = 1 + int(r.below(5));
        p.endSeed = r.next() >> 8;
        maxCost = r.chance(pf.pDeep) ? (r.chance(.2) ? 250 : 120) : 40;
        // swarm: every run has its own mix of operations
        for (int i = 0; i < NK; ++i) {
            static const double mult[] = {0, .3, 1, 1, 1, 3};
            w[i] = weight(i) * mult[r.below(6)];
        }
        if (pf.w[RN] > 5) w[RN] = std::max(w[RN], 5.0);
        about = pf.about;
        if (!about && pf.statics && pf.w[SE] > 0 && r.chance(.35)) {
            about = "ccmfsss"[r.below(7)];
            for (int k : {S, SE, SJ, SR, D, SC, SM})
                w[k] = std::max(w[k], (k == SC || k == SM ? .3 : 1) * (pf.pPar >= 1 ? 2 : 4) * r.real(.3, 1));
        }
        // and its own leaf types
        static const std::vector<std::vector<int>> families = {
          {wl::M, wl::t, wl::r}, {wl::Q, wl::t, wl::r}, {wl::M, wl::Q, wl::A, wl::r},
          {wl::t, wl::s, wl::p}, {wl::T, wl::t, wl::w}, {wl::U, wl::t, wl::T},
          {wl::Q, wl::M, wl::T}, {wl::r, wl::w, wl::s}, {wl::A, wl::t, wl::M},
          {wl::T, wl::U, wl::M, wl::t}};
        int nf = 1 + int(r.below(3));
        for (int i = 0; i < nf; ++i)
            for (int q : families[r.below(families.size())]) pal.insert(q);
        static const std::vector<std::vector<int>> framed = {
          {wl::fQ, wl::ft}, {wl::fU, wl::ft}, {wl::fQ, wl::fr}};
        static const std::vector<std::vector<int>> mapped = {
          {wl::mM, wl::mt, wl::M}, {wl::mQ, wl::mt, wl::t}, {wl::mr, wl::mM}, {wl::ms, wl::s, wl::t},
          {wl::sM, wl::st, wl::M, wl::t}, {wl::sT, wl::st, wl::T, wl::t}, {wl::sU, wl::mt, wl::U},
          {wl::sw, wl::T, wl::w}, {wl::sp, wl::p, wl::t}, {wl::kM, wl::kt, wl::sM}, {wl::sT, wl::sU, wl::sM, wl::st}};
        static const std::vector<std::vector<int>> compound = {
          {wl::c, wl::M, wl::r, wl::t}, {wl::c, wl::T, wl::r, wl::t}, {wl::c, wl::Q, wl::t}, {wl::c5, wl::s, wl::t}, {wl::c5, wl::t, wl::M}};
        auto more = [&](const std::vector<std::vector<int>> &f) {
            for (int q : f[r.below(f.size())]) pal.insert(q);
        };
        if (pf.about) pal.clear();
        if (pf.about == 'm')
            for (int n = 1 + int(r.below(3)); n > 0; --n) more(mapped);
        else if (pf.about == 'c')
            for (int n = 1 + int(r.below(2)); n > 0; --n) more(compound);
        else if (about == 'c' || about == 'm' || about == 'f')
            more(about == 'c' ? compound : about == 'm' ? mapped : framed);
        else if (pf.statics && r.chance(.4))
            more(r.chance(.4) ? framed : r.chance(.6) ? mapped : compound);
        if (pf.w[FN] >= 1)  // factors take transforms, rotations and translations
            for (auto &dsc : wl::factors())
                if (r.chance(.6))
                    for (int i = 0; i < dsc.nparam; ++i) pal.insert(dsc.in[i]);

        // first: some objects
        p.phases.emplace_back();
        p.phases.back().th.resize(1);
        out = &p.phases.back().th[0];
        for (int lt : pal) {
            int n = 1 + int(r.below(lt < wl::NDYN ? 3 : 2));
            while (n-- > 0) newVar(LT(lt));
        }
        if (pf.w[LP] > 0)
            for (int i = 0, n = 1 + int(r.below(4)); i < n; ++i) step(r.chance(.5) ? LP : LF);
        if (pf.w[B] > 1)
            for (int i = 0, n = 2 + int(r.below(5)); i < n; ++i) step(B);
        if (pf.w[B] > 1 && r.chance(.07)) {
            // a long expression with many leaves
            for (int lt : pal)
                if (lt < wl::NDYN)
                    for (int i = int(r.below(8)); i > 0; --i) newVar(LT(lt));
            maxDepth = 60;
            maxCost = 250;
            grow = true;
            for (int i = 8 + int(r.below(40)); i > 0; --i) step(B);
            grow = false;
        }
        if (pf.w[DY] >= 1.5)
            for (int i = 0, n = int(r.below(4)); i < n; ++i) {
                step(DY);
                step(RP);
            }
        if (pf.w[S] >= 2)
            for (int i = 0, n = int(r.below(4)); i < n; ++i) step(S);
        if (pf.w[FN] >= 1)
            for (int i = 0, n = 1 + int(r.below(3)); i < n; ++i) {
                step(FN);
                step(FV);
            }
        bool parRun = r.chance(pf.pPar);
        int n = r.range(pf.opsLo, pf.opsHi);
        if (r.chance(.03)) n *= 5;  // now and then a long history
        if (pf.pPar >= 1) {
            some(r.range(3, 12));
        } else {
            some(parRun ? n / 2 : n);
        }
        int rounds = parRun ? 1 + int(r.below(2)) + int(r.chance(.2)) : 0;
        for (int q = 0; q < rounds; ++q) {
            concurrent(pf.pPar >= 1 ? n : r.range(4, 10));
            p.phases.emplace_back();
            p.phases.back().th.resize(1);
            out = &p.phases.back().th[0];
            some(r.range(1, q + 1 < rounds ? 8 : 12));
        }
        for (int i = 0; i < pf.variants; ++i) {
            sim::Knobs k = knobs();
            k.heap_mode = (p.knobs.heap_mode + 1 + i) % sim::HeapModes;
            k.entropy_seed = p.knobs.entropy_seed;
            p.variants.push_back(k);
        }
        return std::move(p);
    }

    void concurrent(int n) {
        static const double nThr[] = {2, 2, 3, 3, 4};
        int T = int(nThr[r.below(5)]);
        // copies handed to a thread before it starts
        if (pf.giveHandles) {
            std::vector<int> give;
            for (int i = 0, k = int(r.below(u64(T * 2 + 1))); i < k; ++i) {
                int a = pick(h, [&](const GH &q) { return bool(q.n); });
                if (a < 0) break;
                Op &o = emit(HC);
                o.x[0] = next++;
                o.x[1] = a;
                h[o.x[0]] = {o.x[0], h.at(a).lt, h.at(a).n, Shared};
                give.push_back(o.x[0]);
            }
            for (auto &q : h) q.second.owner = Shared;
            for (int id : give) h.at(id).owner = int(r.below(u64(T)));
            // now and then an original goes away while copies are in use
            for (auto &q : h)
                if (q.second.owner == Shared && r.chance(.25)) q.second.owner = int(r.below(u64(T)));
        }
        double own = pf.shareVars ? r.real(0, .6) : 1;
        for (auto &q : v) q.second.owner = r.chance(own) ? int(r.below(u64(T))) : Shared;
        if (!pf.shareExpr) {
            for (auto &q : h) q.second.owner = Nobody;
            for (auto &q : d) q.second.owner = Nobody;
            for (auto &q : s) q.second.owner = Nobody;
            for (auto &q : rp) q.second.owner = Nobody;
            for (auto &q : kp) q.second.owner = Nobody;
            // an expression may have one user at most, and nobody else may use its parts
            claim(T);
        } else {
            if (!pf.giveHandles)
                for (auto &q : h) q.second.owner = r.chance(.15) ? int(r.below(u64(T))) : Shared;
            for (auto &q : s) q.second.owner = r.chance(.15) ? int(r.below(u64(T))) : Shared;
            for (auto &q : rp) q.second.owner = r.chance(.3) ? int(r.below(u64(T))) : Shared;
            for (auto &q : kp) q.second.owner = r.chance(.4) ? int(r.below(u64(T))) : Shared;
            for (auto &q : d)
                q.second.owner = !q.second.used && r.chance(.3) ? int(r.below(u64(T))) : Shared;
        }
        for (auto &q : groupOwner) q.second = r.chance(.3) ? int(r.below(u64(T))) : Shared;
        for (auto &q : f) q.second.owner = groupOwner.at(q.second.group);
        // handles which were moved from belong to nobody or to one thread
        for (auto &q : h)
            if (!q.second.n && q.second.owner == Shared) q.second.owner = Nobody;
        p.phases.emplace_back();
        p.phases.back().th.resize(size_t(T));
        par = true;
        double keep[NK];
        memcpy(keep, w, sizeof w);
        std::vector<int> left;
        for (int t = 0; t < T; ++t) left.push_back(std::max(2, n - int(r.below(5))));
        bool same = r.chance(.3);  // all threads do much the same
        std::vector<int> ks;
        for (int t = 0; t < T; ++t) {
            me = t;
            out = &p.phases.back().th[size_t(t)];
            for (int i = 0; i < NK; ++i) {
                static const double mult[] = {0, .5, 1, 1, 3};
                if (!same) w[i] = keep[i] * mult[r.below(5)];
            }
            some(left[size_t(t)]);
        }
        memcpy(w, keep, sizeof w);
        par = false;
        for (auto &q : v) q.second.owner = Shared;
        for (auto &q : h) q.second.owner = Shared;
        for (auto &q : d) q.second.owner = Shared;
        for (auto &q : rp) q.second.owner = Shared;
        for (auto &q : kp) q.second.owner = Shared;
        for (auto &q : s) q.second.owner = Shared;
        for (auto &q : f) q.second.owner = Shared;
    }
    /** Distributes handles among threads so that no node is reachable from two threads. */
    void claim(int T) {
        std::map<GNode *, int> who;
        for (auto &q : h) {
            if (!q.second.n) continue;
            std::set<GNode *> below;
            std::vector<GNode *> st{q.second.n.get()};
            while (!st.empty()) {
                GNode *g = st.back();
                st.pop_back();
                if (!below.insert(g).second) continue;
                for (auto &e : g->opd) st.push_back(e.get());
            }
            int t = int(r.below(u64(T)));
            for (auto *g : below) {
                auto it = who.find(g);
                if (it != who.end()) t = it->second;
            }
            bool ok = true;
            for (auto *g : below) {
                auto it = who.find(g);
                if (it != who.end() && it->second != t) ok = false;
            }
            if (!ok) continue;
            for (auto *g : below) who[g] = t;
            q.second.owner = t;
        }
        for (auto &q : s) {
            if (q.second.moved || !q.second.n->opd.empty()) continue;
            q.second.owner = int(r.below(u64(T)));
        }
    }
};
}  // namespace

std::vector<std::string> profiles() {
    std::vector<std::string> o;
    for (auto &p : profs) o.push_back(p.name);
    return o;
}
Plan generate(const std::string &profile, u64 seed) {
    const Prof *p = find(profile);
    if (!p) return {};
    u64 hsh = 1469598103934665603ull;
    for (char c : profile) hsh = (hsh ^ u64(c)) * 1099511628211ull;
    Gen g{*p, hsh ^ (seed * 0x9E3779B97F4A7C15ull)};
    return g.go(seed);
}

// ------------------------------------------------------------------ text form
static void putKnobs(std::ostringstream &o, const char *tag, const sim::Knobs &k) {
    o << tag << ' ' << k.sched_seed << ' ' << k.heap_seed << ' ' << k.entropy_seed << ' '
      << k.heap_mode << ' ' << k.mean_gap << ' ' << k.hot << ' ' << k.entropy_mode << '\n';
}
static void getKnobs(std::istringstream &i, sim::Knobs &k) {
    i >> k.sched_seed >> k.heap_seed >> k.entropy_seed >> k.heap_mode >> k.mean_gap >> k.hot >>
      k.entropy_mode;
}
static std::string fragName(const Op &o) {
    if (o.frag < 0) return "-";
    bool factor = o.k >= FN && o.k <= FD;
    if (factor) return wl::factors()[size_t(o.frag)].name;
    return wl::frags()[size_t(o.frag)].name;
}
std::string write(const Plan &p) {
    std::ostringstream o;
    o.precision(17);
    o << "wgplan 1\nprofile " << p.profile << "\nseed " << p.seed << "\nflags " << p.flags
      << "\nend " << p.endSeed << "\n";
    putKnobs(o, "knobs", p.knobs);
    for (auto &k : p.variants) putKnobs(o, "variant", k);
    for (auto &ph : p.phases) {
        o << "phase\n";
        for (auto &t : ph.th) {
            o << "thread\n";
            for (auto &q : t) {
                o << "op " << q.id << ' ' << kName[q.k];
                for (int x : q.x) o << ' ' << x;
                o << " lt " << wl::ltName[q.lt] << " frag " << fragName(q) << " route " << q.route
                  << " fault " << q.fault << ' ' << q.fk << ' ' << q.sweep << " vs " << q.vs
                  << '\n';
            }
        }
    }
    if (p.haveSwitches)
        for (size_t i = 0; i < p.switches.size(); ++i) {
            o << "schedule " << i << '\n';
            for (auto &s : p.switches[i])
                o << "switch " << s.phase << ' ' << s.tid << ' ' << s.op << ' ' << s.step << ' '
                  << s.to << '\n';
        }
    return o.str();
}
bool read(const std::string &text, Plan &p, std::string &expect) {
    std::istringstream in(text);
    std::string line;
    if (!std::getline(in, line) || line != "wgplan 1") return false;
    std::map<std::string, int> fr, fa, kn, ln;
    for (size_t i = 0; i < wl::frags().size(); ++i)
        fr.emplace(wl::frags()[i].name, int(i));
    for (size_t i = 0; i < wl::factors().size(); ++i) fa[wl::factors()[i].name] = int(i);
    for (int i = 0; i < NK; ++i) kn[kName[i]] = i;
    for (int i = 0; i < wl::NLT; ++i) ln[wl::ltName[i]] = i;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w;
        if (!(l >> w) || w[0] == '#') continue;
        if (w == "profile") l >> p.profile;
        else if (w == "seed") l >> p.seed;
        else if (w == "flags") l >> p.flags;
        else if (w == "end") l >> p.endSeed;
        else if (w == "expect") l >> expect;
        else if (w == "knobs") getKnobs(l, p.knobs);
        else if (w == "variant") {
            p.variants.emplace_back();
            getKnobs(l, p.variants.back());
        } else if (w == "phase") p.phases.emplace_back();
        else if (w == "thread") p.phases.back().th.emplace_back();
        else if (w == "schedule") {
            p.haveSwitches = true;
            p.switches.emplace_back();
        } else if (w == "switch") {
            sim::Switch s{};
            l >> s.phase >> s.tid >> s.op >> s.step >> s.to;
            p.switches.back().push_back(s);
        } else if (w == "op") {
            Op o;
            std::string k, t, lt, f;
            l >> o.id >> k;
            for (int &x : o.x) l >> x;
            l >> t >> lt >> t >> f >> t >> o.route >> t >> o.fault >> o.fk >> o.sweep >> t >> o.vs;
            if (!l || !kn.count(k) || !ln.count(lt)) return false;
            o.k = K(kn[k]);
            o.lt = ln[lt];
            if (f != "-") {
                auto &tab = (o.k >= FN && o.k <= FD) ? fa : fr;
                if (!tab.count(f)) return false;
                o.frag = tab[f];
            }
            p.phases.back().th.back().push_back(o);
        }
    }
    return true;
}
}  // namespace plan
