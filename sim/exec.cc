// Executes a plan against the real library, checking every step against the model.
#include <algorithm>
#include <exception>
#include <memory>
#include <new>
#include <set>
#include <unordered_map>

#include "plan.h"

using namespace plan;
using model::Cond;
using model::Val;
using sim::fmt;
using sim::Rng;
using wl::Frag;
using wl::Jac;
using wl::LT;

namespace {

// ------------------------------------------------------------------ values from a seed
Val fromCanon(LT lt, const double *c) {
    Val v;
    v.k = wl::kindOf(lt);
    for (int i = 0; i < model::numOf(v.k); ++i) v.x[i] = c[i];
    return v;
}
double someReal(Rng &r, double lim) {
    switch (r.below(12)) {
        case 0: return 0;
        case 1: return 1;
        case 2: return -1;
        case 3: return r.real(-1, 1) * 1e-3;
        default: return r.real(-lim, lim);
    }
}
void makeCanon(LT lt, u64 vs, double *c) {
    Rng r{vs};
    model::Kind k = wl::kindOf(lt);
    if (r.chance(.12)) r = Rng{1000 + r.below(2)};  // equal values are different leaves
    auto vec = [&](double *o, double lim) {
        bool plain = r.chance(0.7);
        for (int i = 0; i < 3; ++i) o[i] = plain ? r.real(-lim, lim) : someReal(r, lim);
        double f = 1;
        if (r.chance(0.06)) f = std::pow(10, r.real(-9, 0));
        else if (r.chance(0.04)) f = lim < 2 ? r.real(1, 4) : r.real(1, 300);
        for (int i = 0; i < 3; ++i) o[i] *= f;
    };
    auto rot = [&](double *o) {
        model::D w[3];
        double ax[3], n = 0;
        for (auto &a : ax) {
            a = r.real(-1, 1);
            n += a * a;
        }
        n = std::sqrt(n) + 1e-9;
        double ang;
        switch (r.below(14)) {
            case 0: ang = 0; break;
            case 1: ang = r.chance(0.5) ? 1.5707963267948966 : 3.141592653589793; break;
            case 2: ang = r.real(0, 0.01); break;
            case 3: ang = std::pow(10, r.real(-9, 0)); break;
            case 4:
                ang = r.chance(.5) ? r.real(2.6, 3.1415)
                                   : 3.141592653589793 - std::pow(10, r.real(-3, -1));
                break;
            default: ang = r.real(0.05, 2.6);
        }
        if (r.chance(0.12)) {
            ax[0] = ax[1] = ax[2] = 0;
            ax[r.below(3)] = r.chance(0.5) ? 1 : -1;
            n = 1;
        }
        for (int i = 0; i < 3; ++i) w[i] = ax[i] / n * ang;
        model::D R[9];
        model::expSO3(w, R, nullptr);
        for (int i = 0; i < 9; ++i) o[i] = R[i].v;
    };
    switch (k) {
        case model::Rot: rot(c); break;
        case model::Vec: vec(c, lt == wl::r || lt == wl::fr || lt == wl::mr ? 1.4 : 3); break;
        case model::Scal: c[0] = (r.chance(0.5) ? 1 : -1) * (r.chance(0.05) ? r.real(0.01, 20) : r.real(0.3, 2));
            if (r.chance(.06)) c[0] = double(int(r.below(4))) - 1;
            break;
        case model::RT:
            rot(c);
            vec(c + 9, 3);
            break;
        case model::Five:
            vec(c, 1);
            c[4] = c[0];
            c[0] = r.real(-2, 2);
            vec(c + 1, 2);
            break;
        case model::Tw:
            vec(c, 1.2);
            vec(c + 3, 2);
            break;
    }
}

// ------------------------------------------------------------------ model of the world
struct MNode;
using NodeP = std::shared_ptr<MNode>;
struct Opd {
    int var = -1;
    NodeP node;
    Val val;
};
struct MNode {
    LT out;
    const char *prog;
    std::vector<Opd> opd;
    const void *lib = nullptr;
    u64 serial = 0;
    const void *innerKey = nullptr;  // address of the constant leaf it wraps, if it does
    u32 madeBy = 0;
};
struct Var {
    LT lt;
    void *slot;
    Val val;
    double raw[24];
    int nraw;
    int sinceReset = 0;
};
struct Hnd {
    LT lt;
    void *slot;
    NodeP node;  // null: moved from
};
struct Dyn {
    const Frag *f;
    void *slot;
    wl::DynObj *obj;
    NodeP node;
};
struct Ref {
    LT lt;
    void *slot;
    NodeP node;
};
struct Hold {
    const Frag *f;
    void *slot;
    wl::Holder *h;
    NodeP node;
    std::vector<int> ops;
    bool moved = false;
};
struct Fac {
    int desc;
    void *slot;
    wl::FactorObj *f;
    std::vector<double> meas, L;  // measurement, inverse square root of covariance
    // model of the variables, shared between copies of a factor
    std::shared_ptr<std::vector<Val>> vars;
    std::shared_ptr<std::vector<bool>> known;
};

struct World {
    const Plan &p;
    u32 flags;
    std::map<int, Var> vars;
    std::map<int, Hnd> hnds;
    std::map<int, Dyn> dyns;
    std::vector<int> dynOrder;
    std::map<int, Ref> refs, kept;
    std::map<int, Hold> holds;
    std::map<int, Fac> facts;
    struct Reg {
        std::weak_ptr<MNode> w;
        const void *lib;
        u64 serial;
        u32 op;
    };
    std::vector<Reg> registry;
    std::map<u32, u64> digest;
    bool multi = false;
    std::vector<std::vector<double>> randoms;
    int body = 0;

    explicit World(const Plan &pl) : p{pl}, flags{pl.flags} {}

    // ---- context of the current op, per thread
    const Op *cur[sim::MaxThreads] = {};
    const Op &op() const { return *cur[sim::self()]; }
    std::string opName() const {
        const Op &o = op();
        std::string s = fmt("op %u %s", o.id, kName[o.k]);
        bool factor = o.k >= FN && o.k <= FD;
        if (o.frag >= 0) s += " " + (factor ? std::string(wl::factors()[size_t(o.frag)].name) : wl::frags()[size_t(o.frag)].name);
        s += fmt(" route %d", o.route);
        if (o.fault) s += fmt(" fault %d/%u", o.fault, o.fk);
        return s;
    }
    [[noreturn]] void bad(const char *cls, const std::string &d) {
        sim::violation(cls, opName() + ": " + d);
    }
    void dig(const double *c, int n) {
        u64 &h = digest[op().id];
        for (int i = 0; i < n; ++i) {
            u64 u;
            double x = c[i] == 0 ? 0 : c[i];
            memcpy(&u, &x, 8);
            if (x != x) u = 0x7ff8000000000000ull;
            h = (h ^ u) * 1099511628211ull;
            h ^= h >> 31;
            sim::mix(u);
        }
    }

    // ---- model evaluation
    struct Ctx {
        int tvar = -1, dir = -1;
        const MNode *tnode = nullptr;
        Cond c;
        std::unordered_map<const MNode *, Val> memo;
    };
    Val opdVal(const Opd &o, Ctx &x) {
        if (o.node) return evalN(*o.node, x);
        if (o.var >= 0) {
            const Val &v = vars.at(o.var).val;
            return (o.var == x.tvar && x.dir >= 0) ? model::perturb(v, x.dir) : v;
        }
        return o.val;
    }
    Val evalN(const MNode &n, Ctx &x) {
        auto it = x.memo.find(&n);
        if (it != x.memo.end()) return it->second;
        Val a[4];
        for (size_t i = 0; i < n.opd.size(); ++i) a[i] = opdVal(n.opd[i], x);
        Val v = model::run(n.prog, a, x.c);
        if (&n == x.tnode && x.dir >= 0) v = model::perturb(v, x.dir);
        x.memo[&n] = v;
        return v;
    }
    static bool reaches(const MNode &n, int var, const MNode *node) {
        if (node && &n == node) return true;
        for (auto &o : n.opd) {
            if (o.node && reaches(*o.node, var, node)) return true;
            if (var >= 0 && !o.node && o.var == var) return true;
        }
        return false;
    }
    static void varsOf(const MNode &n, std::set<int> &vs, std::set<const MNode *> &ns) {
        if (!ns.insert(&n).second) return;
        for (auto &o : n.opd) {
            if (o.node)
                varsOf(*o.node, vs, ns);
            else if (o.var >= 0)
                vs.insert(o.var);
        }
    }
    Val expect(const MNode &n, Cond &c) {
        Ctx x;
        Val v = evalN(n, x);
        c = x.c;
        return v;
    }
    struct ExpJac {
        int rows, cols;
        double m[36];
        Cond c;
        bool reach;
    };
    ExpJac expectJac(const MNode &n, int var, const MNode *node) {
        ExpJac e{};
        e.rows = model::dofOf(wl::kindOf(n.out));
        e.cols = wl::dof(var >= 0 ? vars.at(var).lt : node->out);
        e.reach = reaches(n, var, node);
        if (!e.reach) {  // zero
            expect(n, e.c);
            return e;
        }
        for (int d = 0; d < e.cols; ++d) {
            Ctx x;
            x.tvar = var;
            x.tnode = node;
            x.dir = d;
            Val v = evalN(n, x);
            double t[6];
            model::tangent(v, t);
            for (int i = 0; i < e.rows; ++i) e.m[6 * i + d] = t[i];
            if (d == 0)
                e.c = x.c;
            else {
                e.c.mag = std::max(e.c.mag, x.c.mag);
                e.c.badValue |= x.c.badValue;
                e.c.badJac |= x.c.badJac;
            }
        }
        return e;
    }

    // ---- comparisons
    static std::string show(const double *a, int n) {
        std::string s;
        for (int i = 0; i < n; ++i) s += fmt("%s%.9g", i ? " " : "", a[i]);
        return s;
    }
    void checkValue(LT out, const double *got, const Val &want, const Cond &c, const char *what,
                    u32 flag = FVal) {
        int n = model::numOf(want.k);
        dig(got, n);
        if (!(flags & flag)) return;
        if (c.badValue) {
            sim::count("skip.value");
            return;
        }
        sim::count("check.value");
        double tol = 1e-8 * std::max(1.0, c.mag);
        for (int i = 0; i < n; ++i)
            if (!(std::fabs(got[i] - want.x[i].v) <= tol)) {
                double w[12];
                for (int j = 0; j < n; ++j) w[j] = want.x[j].v;
                bad("wrong-value", fmt("%s of type %s: got (%s), model says (%s)", what,
                                       wl::ltName[out], show(got, n).c_str(),
                                       show(w, n).c_str()));
            }
    }
    void checkJac(const Jac &g, const ExpJac &e, const char *what, bool numeric = false,
                  u32 flag = FJac) {
        if (g.rows * g.cols > 0 && g.rows <= 6 && g.cols <= 6)
            for (int i = 0; i < g.rows; ++i) dig(g.m + 6 * i, g.cols);
        if (!(flags & (numeric ? u32(FNum) : flag))) return;
        if (!e.reach && g.rows * g.cols == 0) {
            sim::count("check.jac_absent");
            return;
        }
        if (g.rows != e.rows || g.cols != e.cols)
            bad("wrong-jacobian", fmt("%s: shape %dx%d, expected %dx%d", what, g.rows, g.cols,
                                      e.rows, e.cols));
        if (e.reach && (e.c.badValue || e.c.badJac)) {
            sim::count("skip.jac");
            return;
        }
        double mag = std::max(1.0, e.c.mag);
        if (numeric && (mag > 100 || e.c.badValue || e.c.badJac)) {
            sim::count("skip.jac");
            return;
        }
        sim::count(numeric ? "check.jac_numeric" : "check.jac");
        double tol = numeric ? 1e-4 * mag * mag : 1e-6 * mag;
        int rows = e.rows;
        for (int i = 0; i < rows; ++i)
            for (int j = 0; j < e.cols; ++j)
                if (!(std::fabs(g.m[6 * i + j] - e.m[6 * i + j]) <= tol))
                    bad("wrong-jacobian",
                        fmt("%s: entry (%d,%d) is %.9g, model says %.9g", what, i, j,
                            g.m[6 * i + j], e.m[6 * i + j]));
    }

    // ---- invariants
    void syncVar(Var &v) {
        double c[12];
        wl::leafOps(v.lt).read(v.slot, c);
        v.val = fromCanon(v.lt, c);
        v.nraw = wl::leafOps(v.lt).raw(v.slot, v.raw);
    }
    void varsUnchanged(const char *when, const char *cls) {
        sim::count("check.unchanged");
        for (auto &q : vars) {
            double raw[24];
            int n = wl::leafOps(q.second.lt).raw(q.second.slot, raw);
            if (n != q.second.nraw || memcmp(raw, q.second.raw, sizeof(double) * size_t(n)))
                bad(cls, fmt("variable %d (%s) changed %s: was (%s), is (%s)", q.first,
                             wl::ltName[q.second.lt], when, show(q.second.raw, n).c_str(),
                             show(raw, n).c_str()));
        }
    }
    void bindings(const char *when, const char *cls) {
        sim::count("check.bindings");
        for (auto &q : hnds) {
            if (!q.second.node) continue;
            const void *n = wl::handleOps(q.second.lt).node(q.second.slot);
            if (n != q.second.node->lib)
                bad(cls, fmt("handle %d is no longer bound to what it was bound to, %s",
                             q.first, when));
        }
        for (auto &q : refs)
            if (wl::handleOps(q.second.lt).refNode(q.second.slot) != q.second.node->lib)
                bad(cls, fmt("RefProxy %d no longer refers to what it referred to, %s", q.first,
                             when));
    }
    void liveness(const char *when) {
        sim::count("check.lifetimes", registry.size());
        size_t k = 0;
        for (size_t i = 0; i < registry.size(); ++i) {
            Reg &r = registry[i];
            bool alive = !r.w.expired();
            u64 s = sim::blockSerial(r.lib);
            if (alive && s != r.serial)
                sim::violation("early-free", fmt("expression node made by op %u was released %s, "
                                                 "though it is still referred to",
                                                 r.op, when));
            if (!alive && s == r.serial)
                sim::violation("node-leak", fmt("expression node made by op %u is still "
                                                "allocated %s, though nothing refers to it",
                                                r.op, when));
            if (alive) registry[k++] = r;
        }
        registry.resize(k);
    }
    void registerNode(const NodeP &n) {
        if (n->lib && sim::inArena(n->lib)) {
            n->serial = sim::blockSerial(n->lib);
            registry.push_back({n, n->lib, n->serial, op().id});
        }
    }
    void afterOp() {
        if (multi) return;
        if (flags & FPure) varsUnchanged("without having been assigned", "operand-changed");
        if (flags & FBind) bindings("without having been assigned", "binding-changed");
        if (flags & FLive) liveness(fmt("after op %u %s", op().id, kName[op().k]).c_str());
    }

    // ---- attempts
    template <typename F>
    bool attempt(F &f, sim::FaultKind fk, u32 k, bool &fired) {
        bool ok = true;
        std::string other;
        if (fk) sim::armFault(fk, k);
        try {
            sim::Under u;
            f();
        } catch (const std::bad_alloc &) {
            ok = false;
        } catch (const std::exception &e) {
            other = e.what();
        }
        fired = fk ? sim::disarmFault() : false;
        if (!other.empty()) bad("exception", "unexpected exception " + other);
        if (!ok && !fired) bad("exception", "bad_alloc although no allocation failed");
        return ok;
    }
    /** Runs the library part of an op, first under its faults, then (if that failed) without.
     *  `creates`: the op is expected to leave memory behind when it succeeds. */
    template <typename F>
    void lib(bool creates, F f) {
        const Op &o = op();
        u64 before = sim::liveBlocks();
        if (o.fault) {
            u32 k0 = o.sweep ? 1 : o.fk, k1 = o.sweep ? (o.fault == sim::FaultBudget ? 24 : 40) : o.fk;
            for (u32 k = k0; k <= k1; ++k) {
                u32 par = (o.sweep && o.fault == sim::FaultBudget) ? (k - 1) * 48 : k;
                bool fired;
                sim::count("fault.armed");
                bool ok = attempt(f, sim::FaultKind(o.fault), par, fired);
                if (ok) {
                    // survived a failure? Then the result has to be right: it is checked next
                    if (fired) {
                        sim::count("fault.op_survived");
                        return;
                    }
                    if (!creates && (flags & FMem)) growth(before, f);
                    return;
                }
                sim::count("fault.op_failed");
                if (flags & FAtom) failedState();
                if (!multi && (flags & FAtom) && sim::liveBlocks() != before) {
                    // once more: a cache filled on the way is not a leak, a growing one is
                    u64 mid = sim::liveBlocks();
                    bool ok2 = attempt(f, sim::FaultKind(o.fault), par, fired);
                    if (ok2) return;
                    if (sim::liveBlocks() > mid)
                        bad("failed-op-leak",
                            fmt("%lld blocks more after each failed attempt (allocation %u)",
                                (long long) (sim::liveBlocks() - mid), par));
                    before = sim::liveBlocks();
                }
                // a failed assignment may be repeated: it must have had no effect
            }
        }
        bool fired;
        attempt(f, sim::FaultNone, 0, fired);
        if (!creates && (flags & FMem)) growth(before, f);
    }
    template <typename F>
    void growth(u64 before, F &f) {
        sim::count("check.memory");
        if (multi || sim::liveBlocks() <= before) return;
        bool fired;
        u64 mid = sim::liveBlocks();
        for (int i = 0; i < 3; ++i) attempt(f, sim::FaultNone, 0, fired);
        if (sim::liveBlocks() >= mid + 3)
            bad("memory-growth", fmt("%lld more blocks after repeating the operation 3 times",
                                     (long long) (sim::liveBlocks() - mid)));
    }
    void failedState() {
        if (!multi) {
            varsUnchanged("by an operation which failed", "failed-op-changed");
            bindings("after an operation which failed", "failed-op-changed");
            liveness("after an operation which failed");
        } else {
            // only what this thread owns
            const Op &o = op();
            auto it = hnds.find(o.x[0]);
            if (it != hnds.end() && it->second.node &&
                wl::handleOps(it->second.lt).node(it->second.slot) != it->second.node->lib)
                bad("failed-op-changed", "handle rebound by an operation which failed");
        }
    }

    void *newSlot(size_t size, size_t align) {
        sim::Under u;
        void *q = nullptr;
        if (posix_memalign(&q, align < 16 ? 16 : align, size)) sim::harnessError("slot");
        return q;
    }
    void freeSlot(void *q) {
        sim::Under u;
        free(q);
    }

    // ---- operands of fragments
    bool operands(const Op &o, const Frag &f, void **args, std::vector<Opd> &m) {
        for (int i = 0; i < f.nin; ++i) {
            int id = o.x[1 + i];
            Opd d;
            switch (f.kind[i]) {
                case 'L':
                case 'W':
                case 'V': {
                    auto it = vars.find(id);
                    if (it == vars.end() || it->second.lt != f.in[i]) return false;
                    args[i] = it->second.slot;
                    if (f.kind[i] != 'V')
                        d.var = id;
                    else
                        d.val = it->second.val;
                    break;
                }
                case 'P':
                case 'X': {
                    auto it = hnds.find(id);
                    if (it == hnds.end() || it->second.lt != f.in[i] || !it->second.node)
                        return false;
                    args[i] = it->second.slot;
                    d.node = it->second.node;
                    break;
                }
                default: {
                    auto it = refs.find(id);
                    if (it == refs.end() || it->second.lt != f.in[i]) return false;
                    args[i] = it->second.slot;
                    d.node = it->second.node;
                }
            }
            m.push_back(d);
        }
        return true;
    }
    NodeP composed(const Frag &f, std::vector<Opd> m) {
        auto n = std::make_shared<MNode>();
        n->out = f.out;
        n->prog = f.prog;
        n->opd = std::move(m);
        n->madeBy = op().id;
        return n;
    }
    NodeP constant(LT lt, const double *c) {
        auto n = std::make_shared<MNode>();
        n->out = lt;
        n->prog = "0";
        Opd d;
        d.val = fromCanon(lt, c);
        n->opd.push_back(d);
        n->madeBy = op().id;
        return n;
    }
    void bind(Hnd &h, NodeP n, bool isLeaf) {
        n->lib = wl::handleOps(h.lt).node(h.slot);
        if (isLeaf) n->innerKey = wl::handleOps(h.lt).innerLeaf(h.slot);
        registerNode(n);
        h.node = std::move(n);
    }

    Hnd *hnd(int id, bool bound = true) {
        auto it = hnds.find(id);
        if (it == hnds.end() || (bound && !it->second.node)) return nullptr;
        return &it->second;
    }
    Var *var(int id) {
        auto it = vars.find(id);
        return it == vars.end() ? nullptr : &it->second;
    }

    // ---- the operations
    void run(const Op &o) {
        cur[sim::self()] = &o;
        sim::opBegin(o.id);
        if (step(o)) {
            sim::count((std::string("op.") + kName[o.k]).c_str());
            if (sim::g_log_events) sim::event(fmt("t%d ", sim::self()) + opName());
        } else
            sim::count("op.skipped");
        if (!multi) sim::scrubStack();
        afterOp();
    }

    bool step(const Op &o) {
        switch (o.k) {
            case V: {
                if (vars.count(o.x[0])) return false;
                Var v;
                v.lt = LT(o.lt);
                auto &L = wl::leafOps(v.lt);
                double c[12];
                makeCanon(v.lt, o.vs, c);
                v.slot = newSlot(L.size, L.align);
                lib(true, [&] { L.create(v.slot, c); });
                syncVar(v);
                if (flags & FAssign) checkStored(v, fromCanon(v.lt, c), "a new leaf");
                vars[o.x[0]] = v;
                return true;
            }
            case M: {
                Var *v = var(o.x[0]);
                if (!v) return false;
                double c[12];
                makeCanon(v->lt, o.vs, c);
                lib(false, [&] { wl::leafOps(v->lt).assign(v->slot, c, o.route); });
                syncVar(*v);
                v->sinceReset = 0;
                if (flags & FAssign) checkStored(*v, fromCanon(v->lt, c), "an assigned leaf");
                return true;
            }
            case LP:
            case LF: {
                if (hnds.count(o.x[0])) return false;
                Hnd h;
                double c[12];
                const void *src = nullptr;
                if (o.k == LF) {
                    Var *v = var(o.x[1]);
                    if (!v || v->lt >= wl::NDYN) return false;
                    h.lt = v->lt;
                    src = v->slot;
                    for (int i = 0; i < 12; ++i) c[i] = v->val.x[i].v;
                } else {
                    h.lt = LT(o.lt);
                    makeCanon(h.lt, o.vs, c);
                }
                auto &H = wl::handleOps(h.lt);
                h.slot = newSlot(H.size, H.align);
                lib(true, [&] {
                    if (src)
                        H.fromVar(h.slot, src);
                    else
                        H.fromLeaf(h.slot, c, o.route & 1);
                });
                bind(h, constant(h.lt, c), true);
                hnds[o.x[0]] = h;
                return true;
            }
            case B:
            case BA: {
                const Frag &f = wl::frags()[size_t(o.frag)];
                void *args[4];
                std::vector<Opd> m;
                if (!f.build || !operands(o, f, args, m)) return false;
                if (o.k == B) {
                    if (hnds.count(o.x[0])) return false;
                    Hnd h;
                    h.lt = f.out;
                    auto &H = wl::handleOps(h.lt);
                    h.slot = newSlot(H.size, H.align);
                    lib(true, [&] { f.build(h.slot, args); });
                    bind(h, composed(f, std::move(m)), false);
                    hnds[o.x[0]] = h;
                } else {
                    Hnd *h = hnd(o.x[0], false);
                    if (!h || h->lt != f.out) return false;
                    lib(true, [&] { f.assignHandle(h->slot, args, o.route & 1); });
                    bind(*h, composed(f, std::move(m)), false);
                }
                return true;
            }
            case HC:
            case HM: {
                Hnd *s = hnd(o.x[1]);
                if (!s || hnds.count(o.x[0])) return false;
                Hnd h;
                h.lt = s->lt;
                auto &H = wl::handleOps(h.lt);
                h.slot = newSlot(H.size, H.align);
                if (o.k == HC) {
                    lib(true, [&] { H.copy(h.slot, s->slot); });
                    h.node = s->node;
                } else {
                    lib(true, [&] { H.move(h.slot, s->slot); });
                    h.node = std::move(s->node);
                    s->node = nullptr;
                }
                hnds[o.x[0]] = h;
                return true;
            }
            case HA:
            case HX: {
                Hnd *d = hnd(o.x[0], false), *s = hnd(o.x[1]);
                if (!d || !s || d->lt != s->lt) return false;
                auto &H = wl::handleOps(d->lt);
                if (o.k == HA) {
                    lib(false, [&] { H.assignCopy(d->slot, s->slot); });
                    d->node = s->node;
                } else {
                    if (d == s) return false;
                    lib(true, [&] { H.assignMove(d->slot, s->slot); });
                    NodeP n = std::move(s->node);
                    s->node = nullptr;
                    d->node = std::move(n);
                }
                return true;
            }
            case HL: {
                Hnd *d = hnd(o.x[0], false);
                if (!d) return false;
                double c[12];
                makeCanon(d->lt, o.vs, c);
                lib(true, [&] { wl::handleOps(d->lt).assignLeaf(d->slot, c); });
                bind(*d, constant(d->lt, c), true);
                return true;
            }
            case HD: {
                auto it = hnds.find(o.x[0]);
                if (it == hnds.end()) return false;
                Hnd h = it->second;
                hnds.erase(it);
                lib(true, [&] { wl::handleOps(h.lt).destroy(h.slot); });
                freeSlot(h.slot);
                return true;
            }
            case EV: {
                Hnd *h = hnd(o.x[0]);
                if (!h) return false;
                double c[12] = {};
                makeCanon(h->lt, o.vs, c);
                double in[12];
                memcpy(in, c, sizeof c);
                lib(false, [&] {
                    memcpy(c, in, sizeof c);
                    wl::handleOps(h->lt).eval(h->slot, c, o.route);
                });
                Cond k;
                Val w = expect(*h->node, k);
                checkValue(h->lt, c, w, k, "value");
                return true;
            }
            case JV: {
                Hnd *h = hnd(o.x[0]);
                Var *v = var(o.x[1]);
                if (!h || !v || v->lt >= wl::NDYN) return false;
                jac1(*h, v->slot, v->lt, o.x[1], nullptr);
                return true;
            }
            case JH: {
                Hnd *h = hnd(o.x[0]), *d = hnd(o.x[1]);
                if (!h || !d) return false;
                jac1(*h, d->slot, d->lt, -1, d->node.get());
                return true;
            }
            case JM: {
                Hnd *h = hnd(o.x[0]), *d = hnd(o.x[3]);
                Var *a = var(o.x[1]), *b = var(o.x[2]);
                if (!h || !d || !a || !b || a->lt >= wl::NDYN || a->lt != b->lt ||
                    d->lt != a->lt)
                    return false;
                Jac j[3];
                double c[12];
                lib(false, [&] {
                    wl::handleOps(h->lt).multi[a->lt](h->slot, a->slot, b->slot, d->slot, j, c);
                });
                Cond k;
                Val w = expect(*h->node, k);
                checkValue(h->lt, c, w, k, "value with Jacobians");
                checkJac(j[0], expectJac(*h->node, o.x[1], nullptr), "first of several Jacobians");
                checkJac(j[1], expectJac(*h->node, o.x[2], nullptr), "third of several Jacobians");
                checkJac(j[2], expectJac(*h->node, -1, d->node.get()),
                         "second of several Jacobians");
                return true;
            }
            case RV: {
                Hnd *h = hnd(o.x[0]);
                if (!h) return false;
                std::vector<const void *> keys;
                std::vector<std::pair<int, const MNode *>> what;
                keysOf(*h->node, keys, what);
                std::vector<Jac> j(keys.size() + 1);
                double c[12];
                lib(false, [&] {
                    wl::handleOps(h->lt).revAll(h->slot, keys.data(), j.data(), int(keys.size()),
                                                c);
                });
                Cond k;
                Val w = expect(*h->node, k);
                checkValue(h->lt, c, w, k, "value with reverse-mode Jacobians");
                checkRev(*h->node, keys, what, j);
                return true;
            }
            case DY: {
                const Frag &f = wl::frags()[size_t(o.frag)];
                void *args[4];
                std::vector<Opd> m;
                if (!f.dyn || dyns.count(o.x[0]) || !operands(o, f, args, m)) return false;
                Dyn d;
                d.f = &f;
                d.slot = newSlot(f.dynSize, f.dynAlign);
                lib(true, [&] { d.obj = f.dyn(d.slot, args); });
                d.node = composed(f, std::move(m));
                d.node->lib = d.obj->node();
                dyns[o.x[0]] = d;
                dynOrder.push_back(o.x[0]);
                return true;
            }
            case DC: {
                auto it = dyns.find(o.x[1]);
                if (it == dyns.end() || dyns.count(o.x[0])) return false;
                const Dyn src = it->second;
                Dyn d;
                d.f = src.f;
                d.slot = newSlot(d.f->dynSize, d.f->dynAlign);
                d.node = std::make_shared<MNode>(*src.node);
                if (o.route & 1) {
                    // the operation is moving and releasing
                    lib(true, [&] { d.obj = src.obj->moveInto(d.slot); });
                    dyns.erase(it);
                    dynOrder.erase(std::find(dynOrder.begin(), dynOrder.end(), o.x[1]));
                    lib(true, [&] { src.obj->~DynObj(); });
                    freeSlot(src.slot);
                } else
                    lib(true, [&] { d.obj = src.obj->cloneInto(d.slot); });
                d.node->lib = d.obj->node();
                dyns[o.x[0]] = d;
                dynOrder.push_back(o.x[0]);
                return true;
            }
            case DD: {
                auto it = dyns.find(o.x[0]);
                if (it == dyns.end()) return false;
                Dyn d = it->second;
                dyns.erase(it);
                dynOrder.erase(std::find(dynOrder.begin(), dynOrder.end(), o.x[0]));
                lib(true, [&] { d.obj->~DynObj(); });
                freeSlot(d.slot);
                return true;
            }
            case DE: {
                auto it = dyns.find(o.x[0]);
                if (it == dyns.end()) return false;
                double c[12];
                lib(false, [&] { it->second.obj->eval(c, o.route); });
                Cond k;
                Val w = expect(*it->second.node, k);
                checkValue(it->second.f->out, c, w, k, "value of a Dynamic object");
                return true;
            }
            case RP:
            case RA: {
                bool make = o.k == RP;
                NodeP n;
                LT lt;
                const void *src = nullptr;
                if (o.route == 0) {
                    auto it = dyns.find(o.x[1]);
                    if (it == dyns.end()) return false;
                    n = it->second.node;
                    lt = it->second.f->out;
                } else {
                    auto &m = o.route == 1 ? kept : refs;
                    auto it = m.find(o.x[1]);
                    if (it == m.end()) return false;
                    n = it->second.node;
                    lt = it->second.lt;
                    src = it->second.slot;
                }
                auto &H = wl::handleOps(lt);
                if (make) {
                    if (refs.count(o.x[0])) return false;
                    Ref q{lt, newSlot(H.refSize, 16), n};
                    lib(true, [&] {
                        if (o.route == 2)
                            H.refCopy(q.slot, src);
                        else
                            H.refNew(q.slot, n->lib);
                    });
                    refs[o.x[0]] = q;
                } else {
                    auto it = refs.find(o.x[0]);
                    if (it == refs.end() || it->second.lt != lt) return false;
                    lib(false, [&] {
                        if (o.route == 2)
                            H.refAssign(it->second.slot, src);
                        else
                            H.refRebind(it->second.slot, n->lib);
                    });
                    it->second.node = n;
                }
                return true;
            }
            case RX:
            case KD: {
                auto &m = o.k == RX ? refs : kept;
                auto it = m.find(o.x[0]);
                if (it == m.end()) return false;
                Ref q = it->second;
                m.erase(it);
                auto &H = wl::handleOps(q.lt);
                lib(true, [&] { (o.k == RX ? H.refDestroy : H.keepDrop)(q.slot); });
                freeSlot(q.slot);
                return true;
            }
            case RE: {
                auto it = refs.find(o.x[0]);
                if (it == refs.end()) return false;
                Ref &q = it->second;
                double c[12] = {}, in[12] = {};
                makeCanon(q.lt, o.vs, in);
                lib(false, [&] {
                    memcpy(c, in, sizeof c);
                    wl::handleOps(q.lt).refEval(q.slot, c, o.route);
                });
                Cond k;
                Val w = expect(*q.node, k);
                checkValue(q.lt, c, w, k, "value through a RefProxy");
                return true;
            }
            case RJ: {
                auto it = refs.find(o.x[0]);
                Var *v = var(o.x[1]);
                if (it == refs.end() || !v || v->lt >= wl::NDYN) return false;
                jacAny(it->second.lt, it->second.slot, *it->second.node,
                       wl::handleOps(it->second.lt).refJac[v->lt], v->slot, o.x[1], nullptr);
                return true;
            }
            case HR: {
                Hnd *h = hnd(o.x[0]);
                auto it = refs.find(o.x[1]);
                if (!h || it == refs.end()) return false;
                jacAny(h->lt, h->slot, *h->node, wl::handleOps(h->lt).jacRef[it->second.lt],
                       it->second.slot, -1, it->second.node.get());
                return true;
            }
            case RR: {
                auto it = refs.find(o.x[0]);
                if (it == refs.end()) return false;
                Ref &q = it->second;
                std::vector<const void *> keys;
                std::vector<std::pair<int, const MNode *>> what;
                keysOf(*q.node, keys, what);
                std::vector<Jac> j(keys.size() + 1);
                double c[12];
                lib(false, [&] {
                    wl::handleOps(q.lt).refRev(q.slot, keys.data(), j.data(), int(keys.size()), c);
                });
                Cond k;
                Val w = expect(*q.node, k);
                checkValue(q.lt, c, w, k, "value with reverse-mode Jacobians through a RefProxy");
                checkRev(*q.node, keys, what, j);
                return true;
            }
            case KP: {
                Hnd *h = hnd(o.x[1]);
                if (!h || kept.count(o.x[0])) return false;
                auto &H = wl::handleOps(h->lt);
                Ref q{h->lt, newSlot(H.keepSize, 16), h->node};
                lib(true, [&] { H.keepNew(q.slot, h->slot); });
                kept[o.x[0]] = q;
                return true;
            }
            case S: {
                const Frag &f = wl::frags()[size_t(o.frag)];
                void *args[4];
                std::vector<Opd> m;
                if (!f.hold || holds.count(o.x[0]) || !operands(o, f, args, m)) return false;
                Hold h;
                h.f = &f;
                h.slot = newSlot(f.holderSize, f.holderAlign);
                for (int i = 0; i < f.nin; ++i) h.ops.push_back(o.x[1 + i]);
                lib(true, [&] { h.h = f.hold(h.slot, args); });
                h.node = composed(f, std::move(m));
                holds[o.x[0]] = h;
                return true;
            }
            case SC:
            case SM: {
                auto it = holds.find(o.x[1]);
                if (it == holds.end() || it->second.moved || holds.count(o.x[0])) return false;
                Hold h = it->second;
                h.slot = newSlot(h.f->holderSize, h.f->holderAlign);
                wl::Holder *src = it->second.h;
                if (o.k == SC)
                    lib(true, [&] { h.h = src->cloneInto(h.slot); });
                else {
                    lib(true, [&] { h.h = src->moveInto(h.slot); });
                    it->second.moved = true;
                    it->second.node = nullptr;
                }
                holds[o.x[0]] = h;
                return true;
            }
            case SD: {
                auto it = holds.find(o.x[0]);
                if (it == holds.end()) return false;
                Hold h = it->second;
                holds.erase(it);
                lib(true, [&] { h.h->~Holder(); });
                freeSlot(h.slot);
                return true;
            }
            case SE: {
                Hold *h = hold(o.x[0]);
                if (!h) return false;
                double c[12];
                lib(false, [&] { h->h->eval(c, o.route); });
                Cond k;
                Val w = expect(*h->node, k);
                checkValue(h->f->out, c, w, k, "value of a stored expression");
                return true;
            }
            case SJ: {
                Hold *h = hold(o.x[0]);
                int i = o.x[1];
                if (!h || i < 0 || i >= h->f->nin) return false;
                return holderJac(*h, i);
            }
            case SR: {
                Hold *h = hold(o.x[0]);
                if (!h) return false;
                std::vector<const void *> keys;
                std::vector<std::pair<int, const MNode *>> what;
                keysOf(*h->node, keys, what);
                std::vector<Jac> j(keys.size() + 1);
                bool ok = false;
                lib(false, [&] { ok = h->h->revAll(keys.data(), j.data(), int(keys.size())); });
                if (ok) checkRev(*h->node, keys, what, j);
                return ok;
            }
            case D: {
                const Frag &f = wl::frags()[size_t(o.frag)];
                void *args[4];
                std::vector<Opd> m;
                if (!f.direct || !operands(o, f, args, m)) return false;
                double c[12];
                lib(false, [&] { f.direct(args, c, o.route); });
                NodeP n = composed(f, std::move(m));
                Cond k;
                Val w = expect(*n, k);
                checkValue(f.out, c, w, k, "value of a temporary expression");
                return true;
            }
            case AS:
            case BK: return assign(o);
            case FN:
            case FC:
            case FE:
            case FJ:
            case FV:
            case FD: return factorOp(o);
            case RN: return random(o);
            default: return false;
        }
    }

    Hold *hold(int id) {
        auto it = holds.find(id);
        return it == holds.end() || it->second.moved ? nullptr : &it->second;
    }

    void jac1(Hnd &h, const void *target, LT tl, int tvar, const MNode *tnode) {
        const Op &o = op();
        Jac j;
        double c[12];
        bool gotValue = false, has = true;
        const double none = -7.25e77;
        lib(false, [&] {
            c[0] = none;
            if (tnode)
                has = wl::handleOps(h.lt).jacNode[tl](h.slot, target, o.route, &j, c);
            else
                has = wl::handleOps(h.lt).jacLeaf[tl](h.slot, target, o.route, &j, c);
            gotValue = c[0] != none;
        });
        if (!has) return;
        if (gotValue) {
            Cond k;
            Val w = expect(*h.node, k);
            checkValue(h.lt, c, w, k, "value with Jacobian");
        }
        bool numeric = !tnode && o.route == 4;
        checkJac(j, expectJac(*h.node, tvar, tnode),
                 tnode ? "Jacobian wrt an expression" : "Jacobian wrt a leaf", numeric);
    }
    void keysOf(const MNode &n, std::vector<const void *> &keys,
                std::vector<std::pair<int, const MNode *>> &what) {
        std::set<int> vs;
        std::set<const MNode *> ns;
        varsOf(n, vs, ns);
        for (int v : vs) {
            keys.push_back(vars.at(v).slot);
            what.push_back({v, nullptr});
        }
        std::vector<const MNode *> inner;
        for (auto m : ns)
            if (m->innerKey) inner.push_back(m);
        std::sort(inner.begin(), inner.end(),
                  [](const MNode *a, const MNode *b) { return a->madeBy < b->madeBy; });
        for (auto m : inner) {
            keys.push_back(m->innerKey);
            what.push_back({-1, m});
        }
        // one leaf that is not part of the expression
        for (auto &v : vars)
            if (!vs.count(v.first)) {
                keys.push_back(v.second.slot);
                what.push_back({v.first, nullptr});
                break;
            }
    }
    void checkRev(const MNode &n, const std::vector<const void *> &keys,
                  const std::vector<std::pair<int, const MNode *>> &what,
                  const std::vector<Jac> &j) {
        for (size_t i = 0; i < keys.size(); ++i) {
            auto e = expectJac(n, what[i].first, what[i].second);
            if ((flags & FJac) && e.reach && j[i].rows * j[i].cols == 0)
                bad("wrong-jacobian", "reverse mode has no Jacobian for one of the leaves");
            checkJac(j[i], e, what[i].second ? "reverse-mode Jacobian wrt an owned leaf"
                                             : "reverse-mode Jacobian wrt a leaf");
        }
    }

    /** Jacobian of something by a leaf or a node, by any of its routes */
    template <typename Fn>
    void jacAny(LT lt, const void *obj, const MNode &n, Fn fn, const void *target, int v,
                const MNode *node) {
        const Op &o = op();
        Jac j;
        double c[12];
        const double none = -7.25e77;
        bool gotValue = false;
        lib(false, [&] {
            c[0] = none;
            fn(obj, target, o.route, &j, c);
            gotValue = c[0] != none;
        });
        if (gotValue) {
            Cond k;
            Val w = expect(n, k);
            checkValue(lt, c, w, k, "value with Jacobian");
        }
        checkJac(j, expectJac(n, v, node), "Jacobian");
    }
    bool holderJac(Hold &h, int i) {
        const Op &o = op();
        char kd = h.f->kind[i];
        const Opd &d = h.node->opd[size_t(i)];
        if (kd == 'P' || kd == 'X') {
            // the world's handle serves as target: it must still denote the same node
            Hnd *t = hnd(h.ops[size_t(i)]);
            if (!t || t->node != d.node) return false;
        }
        const MNode *through = d.node.get();
        if (kd == 'R' || kd == 'Y') {
            // likewise the RefProxy, which may denote something else meanwhile
            auto it = refs.find(h.ops[size_t(i)]);
            if (it == refs.end()) return false;
            through = it->second.node.get();
        }
        Jac j;
        double c[12];
        const double none = -7.25e77;
        bool has = false, gotValue = false;
        bool numeric = o.route >= 6;
        lib(false, [&] {
            c[0] = none;
            has = numeric ? h.h->numeric(i, &j) : h.h->jac(i, o.route, &j, c);
            gotValue = c[0] != none;
        });
        if (!has) return false;
        if (gotValue) {
            Cond k;
            Val w = expect(*h.node, k);
            checkValue(h.f->out, c, w, k, "value of a stored expression with Jacobian");
        }
        ExpJac e;
        if (d.node)
            e = expectJac(*h.node, -1, through);
        else if (d.var >= 0)
            e = expectJac(*h.node, d.var, nullptr);
        else
            e = constJac(*h.node, size_t(i));
        if (o.route == 4 && d.var >= 0) {
            // one Jacobian per occurrence; the leaves are of different types there, so no
            // other operand can be the same variable
        }
        checkJac(j, e, "Jacobian of a stored expression", numeric);
        return true;
    }
    ExpJac constJac(const MNode &n, size_t i) {
        // derivative wrt a leaf stored by value in the expression: give it a node of its own
        MNode tmp = n;
        auto c = std::make_shared<MNode>();
        c->out = LT(-1);
        c->prog = "0";
        c->opd.push_back(tmp.opd[i]);
        tmp.opd[i] = Opd{};
        tmp.opd[i].node = c;
        ExpJac e{};
        e.rows = model::dofOf(wl::kindOf(n.out));
        e.cols = model::dofOf(c->opd[0].val.k);
        e.reach = true;
        for (int d = 0; d < e.cols; ++d) {
            Ctx x;
            x.tnode = c.get();
            x.dir = d;
            Val v = evalN(tmp, x);
            double t[6];
            model::tangent(v, t);
            for (int q = 0; q < e.rows; ++q) e.m[6 * q + d] = t[q];
            e.c.mag = std::max(e.c.mag, x.c.mag);
            e.c.badValue |= x.c.badValue;
            e.c.badJac |= x.c.badJac;
        }
        return e;
    }

    void checkStored(const Var &v, const Val &want, const char *what) {
        sim::count("check.assign");
        int n = model::numOf(want.k);
        for (int i = 0; i < n; ++i)
            if (!(std::fabs(v.val.x[i].v - want.x[i].v) <= 1e-8)) {
                double a[12], b[12];
                for (int q = 0; q < n; ++q) {
                    a[q] = v.val.x[q].v;
                    b[q] = want.x[q].v;
                }
                bad("wrong-assignment", fmt("%s of type %s holds (%s), expected (%s)", what,
                                            wl::ltName[v.lt], show(a, n).c_str(),
                                            show(b, n).c_str()));
            }
    }
    bool assign(const Op &o) {
        const Frag &f = wl::frags()[size_t(o.frag)];
        void *args[4];
        std::vector<Opd> m;
        Var *v = var(o.x[0]);
        if (!v || !f.assignVar || !operands(o, f, args, m)) return false;
        if (o.k == BK ? (!f.block || f.blockOf != v->lt) : (f.block || f.out != v->lt))
            return false;
        if (v->sinceReset > 3) return false;  // keep rounding and drift out of it
        Val a[5];
        Ctx x;
        Cond c;
        int n = 0;
        if (o.k == BK) a[n++] = v->val;
        for (auto &d : m) a[n++] = opdVal(d, x);
        c = x.c;
        Val w = model::run(f.prog, a, c);
        if (c.badValue || c.mag > 1e3) return false;
        ++v->sinceReset;
        const double *got;
        lib(false, [&] { f.assignVar(v->slot, args, o.route & 1); });
        syncVar(*v);
        double g[12];
        for (int i = 0; i < 12; ++i) g[i] = v->val.x[i].v;
        got = g;
        checkValue(v->lt, got, w, c, "variable assigned from an expression", FAssign);
        // the model goes on from what is stored
        return true;
    }

    // ---- factors
    bool factorOp(const Op &o) {
        switch (o.k) {
            case FN: {
                if (facts.count(o.x[0])) return false;
                auto &d = wl::factors()[size_t(o.frag)];
                Fac f;
                f.desc = o.frag;
                Rng r{o.vs};
                for (int i = 0; i < d.nres; ++i) f.meas.push_back(r.real(-2, 2));
                double noise[36], sd[6], Q[6][6];
                // some noises span scales, with small but telling correlations
                const bool wide = r.chance(.5);
                for (auto &q : sd) q = wide ? std::pow(10, r.real(-1.7, 0.7)) : r.real(0.1, 3);
                int n = d.nres;
                f.L.assign(size_t(n * n), 0.0);
                if (!d.full) {
                    for (int i = 0; i < n; ++i) {
                        noise[i] = sd[i];
                        f.L[size_t(i * n + i)] = 1 / sd[i];
                    }
                } else {
                    // principal axes: the images of the coordinate axes in a plane mirror
                    double m[6], mm = 0;
                    for (int i = 0; i < n; ++i)
                        m[i] = (wide ? std::pow(10, r.real(-5, -0.3)) : r.real(0.2, 1)) *
                               (r.chance(.5) ? 1 : -1);
                    if (wide) m[r.below(u64(n))] = 1;
                    for (int i = 0; i < n; ++i) mm += m[i] * m[i];
                    for (int i = 0; i < n; ++i)
                        for (int q = 0; q < n; ++q) Q[i][q] = (i == q) - 2 * m[i] * m[q] / mm;
                    for (int i = 0; i < n; ++i)
                        for (int q = 0; q < n; ++q) {
                            double s = 0, l = 0;
                            for (int k = 0; k < n; ++k) {
                                s += Q[i][k] * sd[k] * sd[k] * Q[q][k];
                                l += Q[i][k] / sd[k] * Q[q][k];
                            }
                            noise[n * i + q] = s;
                            f.L[size_t(n * i + q)] = l;
                        }
                }
                f.slot = newSlot(d.size, d.align);
                lib(true, [&] { f.f = d.make(f.slot, f.meas.data(), noise); });
                f.vars = std::make_shared<std::vector<Val>>(size_t(d.nparam));
                f.known = std::make_shared<std::vector<bool>>(size_t(d.nparam), false);
                facts[o.x[0]] = f;
                return true;
            }
            case FC: {
                auto it = facts.find(o.x[1]);
                if (it == facts.end() || facts.count(o.x[0])) return false;
                Fac f = it->second;
                auto &d = wl::factors()[size_t(f.desc)];
                f.slot = newSlot(d.size, d.align);
                lib(true, [&] { f.f = it->second.f->cloneInto(f.slot); });
                facts[o.x[0]] = f;
                return true;
            }
            case FD: {
                auto it = facts.find(o.x[0]);
                if (it == facts.end()) return false;
                Fac f = it->second;
                facts.erase(it);
                lib(true, [&] { f.f->~FactorObj(); });
                freeSlot(f.slot);
                return true;
            }
            case FV: {
                auto it = facts.find(o.x[0]);
                if (it == facts.end()) return false;
                Fac &f = it->second;
                auto &d = wl::factors()[size_t(f.desc)];
                if (o.x[1] < 0 || o.x[1] >= d.nparam) return false;
                double c[12], g[12];
                makeCanon(d.in[o.x[1]], o.vs, c);
                bool ok = true;
                lib(false, [&] {
                    ok = f.f->setVariable(o.x[1], c);
                    f.f->variableValue(o.x[1], g);
                });
                if ((flags & FFac) && !ok)
                    bad("wrong-factor", "a variable's value does not follow its data");
                Val w = fromCanon(d.in[o.x[1]], c);
                Cond k;
                checkValue(d.in[o.x[1]], g, w, k, "value of a factor's variable", FFac);
                (*f.vars)[size_t(o.x[1])] = fromCanon(d.in[o.x[1]], g);
                (*f.known)[size_t(o.x[1])] = true;
                if ((flags & FFac) && !multi) {
                    long users = 0;
                    for (auto &q : facts)
                        if (q.second.vars == f.vars) ++users;
                    if (f.f->variableUse(o.x[1]) != users)
                        bad("wrong-factor", fmt("variable shared by %ld factors has %ld owners",
                                                users, f.f->variableUse(o.x[1])));
                    if (f.f->arity() != size_t(d.nparam))
                        bad("wrong-factor", "wrong number of variables");
                    if (!f.f->consistent())
                        bad("wrong-factor", "it misreports its variables or its noise");
                }
                return true;
            }
            default: break;
        }
        auto it = facts.find(o.x[0]);
        if (it == facts.end()) return false;
        Fac &f = it->second;
        auto &d = wl::factors()[size_t(f.desc)];
        void *ps[5];
        Val vals[5];
        for (int i = 0; i < d.nparam; ++i) {
            if (o.x[1 + i] < 0) {
                if (!(*f.known)[size_t(i)]) return false;
                ps[i] = f.f->variableLeaf(i);
                vals[i] = (*f.vars)[size_t(i)];
            } else {
                Var *v = var(o.x[1 + i]);
                if (!v || v->lt != d.in[i]) return false;
                ps[i] = v->slot;
                vals[i] = v->val;
            }
            for (int q = 0; q < i; ++q)
                if (ps[q] == ps[i]) return false;
        }
        double res[6];
        Jac j[5];
        lib(false, [&] {
            if (o.k == FE)
                f.f->evaluate(ps, res);
            else
                f.f->evaluateJ(ps, res, j);
        });
        double pred[6], pj[5][36] = {};
        Cond c;
        int row = 0;
        for (int b = 0; b < d.nblock; ++b) {
            Val v = model::run(d.prog[b], vals, c);
            int rows = model::dofOf(v.k);
            for (int i = 0; i < rows; ++i) pred[row + i] = v.x[i].v;
            for (int q = 0; q < d.nparam; ++q)
                for (int dir = 0; dir < wl::dof(d.in[q]); ++dir) {
                    Val a[5];
                    std::copy(vals, vals + 5, a);
                    a[q] = model::perturb(a[q], dir);
                    Val pv = model::run(d.prog[b], a, c);
                    double t[6];
                    model::tangent(pv, t);
                    for (int i = 0; i < rows; ++i) pj[q][6 * (row + i) + dir] = t[i];
                }
            row += rows;
        }
        dig(res, d.nres);
        if (!(flags & FFac) || c.badValue) return true;
        for (int i = 0; i < d.nres; ++i) {
            double s = 0, gain = 1;
            for (int q = 0; q < d.nres; ++q) {
                const double l = f.L[size_t(i * d.nres + q)];
                s += l * (pred[q] - f.meas[size_t(q)]);
                gain = std::max(gain, std::fabs(l));
            }
            if (!(std::fabs(s - res[i]) <= 1e-7 * std::max(1.0, c.mag) * gain))
                bad("wrong-factor", fmt("residual %d of %s is %.9g, model says %.9g", i, d.name,
                                        res[i], s));
        }
        sim::count("check.residual");
        if (o.k == FJ)
            for (int q = 0; q < d.nparam; ++q) {
                ExpJac e{};
                e.rows = d.nres;
                e.cols = wl::dof(d.in[q]);
                e.reach = true;
                e.c = c;
                memcpy(e.m, pj[q], sizeof e.m);
                checkJac(j[q], e, "Jacobian of a factor", false, FFac);
            }
        return true;
    }

    // ---- random elements
    bool random(const Op &o) {
        auto &L = wl::leafOps(LT(o.lt));
        if (!L.random) return false;
        double c[12];
        lib(false, [&] { L.random(c, o.route & 1); });
        if (!(flags & FRnd)) return true;
        sim::count("check.random");
        model::Kind k = wl::kindOf(LT(o.lt));
        int n = model::numOf(k);
        for (int i = 0; i < n; ++i)
            if (!(std::fabs(c[i]) < 1e6)) bad("bad-random", "not finite: " + show(c, n));
        if (k == model::Rot || k == model::RT) {
            for (int a = 0; a < 3; ++a)
                for (int b = 0; b < 3; ++b) {
                    double s = 0;
                    for (int i = 0; i < 3; ++i) s += c[3 * i + a] * c[3 * i + b];
                    if (!(std::fabs(s - (a == b)) < 1e-8))
                        bad("bad-random", "not a rotation: " + show(c, 9));
                }
            double det = c[0] * (c[4] * c[8] - c[5] * c[7]) - c[1] * (c[3] * c[8] - c[5] * c[6]) +
                         c[2] * (c[3] * c[7] - c[4] * c[6]);
            if (!(std::fabs(det - 1) < 1e-8)) bad("bad-random", "not a proper rotation");
        }
        if (p.knobs.entropy_mode == 0) {
            // with real entropy, no two elements ever coincide
            std::vector<double> v(c, c + n);
            for (auto &w : randoms)
                if (w == v) bad("bad-random", "an element came up twice: " + show(c, n));
            randoms.push_back(v);
        }
        return true;
    }

    // ---- the end: everything is released, in a seeded order
    void teardown() {
        static Op end;
        end.id = 0xfffffff0u;
        end.k = HD;
        cur[0] = &end;
        sim::opBegin(end.id);
        Rng r{p.endSeed};
        std::vector<std::pair<int, int>> order;
        for (auto &h : hnds) order.push_back({0, h.first});
        for (auto &h : holds) order.push_back({1, h.first});
        for (auto &h : facts) order.push_back({2, h.first});
        for (auto &h : refs) order.push_back({3, h.first});
        for (size_t i = order.size(); i > 1; --i)
            std::swap(order[i - 1], order[r.below(i)]);
        for (auto &o : order) {
            void *slot;
            if (o.first == 0) {
                Hnd h = hnds.at(o.second);
                hnds.erase(o.second);
                slot = h.slot;
                sim::Under u;
                wl::handleOps(h.lt).destroy(h.slot);
            } else if (o.first == 1) {
                Hold h = holds.at(o.second);
                holds.erase(o.second);
                slot = h.slot;
                sim::Under u;
                h.h->~Holder();
            } else if (o.first == 3) {
                Ref q = refs.at(o.second);
                refs.erase(o.second);
                slot = q.slot;
                sim::Under u;
                wl::handleOps(q.lt).refDestroy(slot);
            } else {
                Fac f = facts.at(o.second);
                facts.erase(o.second);
                slot = f.slot;
                sim::Under u;
                f.f->~FactorObj();
            }
            freeSlot(slot);
            if (flags & FLive) liveness("while everything is being released");
        }
        while (!dynOrder.empty()) {
            int id = dynOrder.back();
            dynOrder.pop_back();
            Dyn d = dyns.at(id);
            dyns.erase(id);
            {
                sim::Under u;
                d.obj->~DynObj();
            }
            freeSlot(d.slot);
        }
        while (!kept.empty()) {
            Ref q = kept.begin()->second;
            kept.erase(kept.begin());
            {
                sim::Under u;
                wl::handleOps(q.lt).keepDrop(q.slot);
            }
            freeSlot(q.slot);
            q.node = nullptr;
        }
        if (flags & FLive) liveness("at the end");
        for (auto &v : vars) {
            {
                sim::Under u;
                wl::leafOps(v.second.lt).destroy(v.second.slot);
            }
            freeSlot(v.second.slot);
        }
        vars.clear();
    }

    void phases() {
        for (auto &ph : p.phases) {
            int n = int(ph.th.size());
            multi = n > 1;
            sim::runPhase(n, [&](int t) {
                for (auto &o : ph.th[size_t(t)]) run(o);
            });
            if (n > 1) {
                multi = false;
                sim::runPhase(1, [&](int) {
                    static Op join;
                    join.id = 0xffffffe0u;
                    join.k = NK;
                    join.k = EV;
                    cur[0] = &join;
                    sim::opBegin(join.id);
                    if (flags & (FPure | FAtom))
                        varsUnchanged("during a concurrent phase", "operand-changed");
                    if (flags & (FBind | FAtom))
                        bindings("during a concurrent phase", "binding-changed");
                    if (flags & FLive) liveness("after a concurrent phase");
                });
            }
        }
        sim::runPhase(1, [&](int) { teardown(); });
    }
};
}  // namespace

void execute(const Plan &p, const sim::Knobs &k) {
    sim::installKnobs(k);
    u64 l0 = sim::liveBlocks();
    {
        World w{p};
        w.phases();
        if (p.flags & FDig)
            for (auto &d : w.digest) sim::result(d.first, d.second);
    }
    if (p.flags & FLeak) {
        u64 l1 = sim::liveBlocks();
        if (l1 > l0) {
            // something allocated once and kept is not a leak; something that grows is
            World w{p};
            w.body = 1;
            w.phases();
            if (sim::liveBlocks() > l1)
                sim::violation("leak", fmt("%llu blocks more after all objects are gone, each time "
                                           "the same work is done",
                                           (unsigned long long) (sim::liveBlocks() - l1)));
        }
    }
    sim::count("peak_bytes", sim::peakBytes());
}
