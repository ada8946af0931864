// Leaf variables: creation, assignment, reading, random generation.
#include "wlimpl.h"

#include <algorithm>

namespace wl {
const char *const ltName[NLT] = {"M", "Q", "A", "T", "U", "t", "p", "r", "w", "s",
                                 "fQ", "fU", "ft", "fr", "mM", "mQ", "mt", "mr", "ms", "sM", "st", "sT", "sU", "sw",
                                 "sp", "kM", "kt", "c", "c5"};
model::Kind kindOf(LT l) {
    switch (l) {
        case M: case Q: case A: case fQ: case mM: case mQ: case sM: case kM:
            return model::Rot;
        case T: case U: case fU: case sT: case sU: return model::RT;
        case w: case sw: case c: return model::Tw;
        case c5: return model::Five;
        case s: case ms: return model::Scal;
        default: return model::Vec;
    }
}
std::vector<Frag> &frags() {
    static std::vector<Frag> v;
    return v;
}
std::vector<FactorDesc> &factors() {
    static std::vector<FactorDesc> v;
    return v;
}
static std::vector<void (*)()> &regs() {
    static std::vector<void (*)()> v;
    return v;
}
Registrar::Registrar(void (*f)()) { regs().push_back(f); }

static LeafOps ops[NLT];
const LeafOps &leafOps(LT l) { return ops[l]; }

template <int l>
void assignLeaf(void *x, const double *c, int route) {
    using L = Leaf<l>;
    L &v = *static_cast<L *>(x);
    switch (route) {
        case 0: v = Make<l>::leaf(c); break;
        case 1: {
            const L y = Make<l>::leaf(c);
            v = y;
            break;
        }
        case 2: {
            L y = Make<l>::leaf(c);
            if constexpr (l == wl::c5) {
                v.template get<2>().value() = y.template get<2>().value();
                v.template get<1>() = y.template get<1>();
                v.template get<0>() = c[0];
            } else if constexpr (l == wl::c) {
                v.template get<0>() = y.template get<0>();
                v.template get<1>().value() = y.template get<1>().value();
            } else {
                v.value() = y.value();
            }
            break;
        }
        default: {  // in place, through the library's assignment from an expression
            const L y = Make<l>::leaf(c);
            if constexpr (l == t || l == r || l == w || l == s || l == ft || l == fr)
                v = 1.0 * y;
            else if constexpr (l == p || l == wl::c || l == wl::c5)
                v = (y - y) + y;
            else
                v = inverse(inverse(y));
        }
    }
}
template <int l>
void leaf() {
    using L = Leaf<l>;
    LeafOps &o = ops[l];
    o.size = sizeof(L);
    o.align = alignof(L);
    o.create = [](void *slot, const double *c) { new (slot) L(Make<l>::leaf(c)); };
    o.destroy = [](void *x) { static_cast<L *>(x)->~L(); };
    o.assign = assignLeaf<l>;
    o.read = [](const void *x, double *c) { readCanon(*static_cast<const L *>(x), c); };
    o.raw = [](const void *x, double *c) { return Canon<L>::raw(*static_cast<const L *>(x), c); };
    if constexpr (l != s && l != wl::c && l != wl::c5)
        o.random = [](double *c, int route) {
            if (route == 0)
                readCanon(L::Random(), c);
            else {
                L x{L::Random()};
                readCanon(x, c);
            }
            return true;
        };
}
// leaves mapped onto a user's buffer
template <int l>
struct Layout {  // N doubles, of which the coefficients are at at(i); the others stay as they are
    static constexpr int N = l == sM ? 15 : l == sT ? 20 : l == sU ? 7 : l == sw ? 12 : l == st || l == sp ? 6
                             : l == mM || l == kM ? 9 : l == mQ ? 4 : l == ms ? 1 : 3;
    static constexpr int Coeffs = l == sM ? 9 : l == sT ? 16 : l == sw ? 6 : l == st || l == sp ? 3 : N;
    static constexpr int at(int i) {
        return l == sM ? i / 3 * 5 + i % 3 : l == sT ? i / 4 * 5 + i % 4
               : l == sw || l == st || l == sp ? 2 * i : i;
    }
};
template <int l>
struct Mapped {
    using Lay = Layout<l>;
    Leaf<l> leaf;
    double buf[Lay::N];
    explicit Mapped(const double *c) : leaf{make<Leaf<l>>(buf)} {
        for (int i = 0; i < Lay::N; ++i) buf[i] = gap(i);
        set(c);
    }
    static double gap(int i) { return -7.25 - i; }
    template <typename Lf>
    static Lf make(double *b) {
        if constexpr (l == ms)
            return Lf{*b};
        else if constexpr (l == sU)
            return Lf{QuatMap{b}, VecMap{b + 4}};
        else
            return Lf{std::decay_t<decltype(std::declval<const Lf &>().value())>{b}};
    }
    void put(int i, double x) { buf[Lay::at(i)] = x; }
    void set(const double *c) {
        if constexpr (Lay::Coeffs == 9) {
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) put(3 * j + i, c[3 * i + j]);
        } else if constexpr (l == sT) {
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) put(4 * j + i, c[3 * i + j]);
            for (int i = 0; i < 3; ++i) put(12 + i, c[9 + i]), put(4 * i + 3, 0);
            put(15, 1);
        } else if constexpr (l == mQ || l == sU) {
            Eigen::Quaterniond q{canonR(c)};
            for (int i = 0; i < 4; ++i) put(i, q.coeffs()[i]);
            if constexpr (l == sU)
                for (int i = 0; i < 3; ++i) put(4 + i, c[9 + i]);
        } else {
            for (int i = 0; i < Lay::Coeffs; ++i) put(i, c[i]);
        }
    }
    bool gapsIntact() const {
        bool mine[Lay::N] = {};
        for (int i = 0; i < Lay::Coeffs; ++i) mine[Lay::at(i)] = true;
        for (int i = 0; i < Lay::N; ++i)
            if (!mine[i] && buf[i] != gap(i)) return false;
        return true;
    }
};
template <int l>
void mapped() {
    using W = Mapped<l>;
    LeafOps &o = ops[l];
    o.size = sizeof(W);
    o.align = alignof(W) < 16 ? 16 : alignof(W);
    o.create = [](void *slot, const double *c) { new (slot) W(c); };
    o.destroy = [](void *x) { static_cast<W *>(x)->~W(); };
    o.assign = [](void *x, const double *c, int route) {
        W &v = *static_cast<W *>(x);
        if constexpr (l != ms && l != kM && l != kt && l != sU)
            if (route == 0) {
                v.leaf.value() = Canon<Leaf<l>>::impl(c);
                return;
            }
        if constexpr (l == sU || l == sT)
            if (route == 0) {
                v.leaf = Make<l == sU ? U : T>::leaf(c);
                return;
            }
        v.set(c);  // the user writes the buffer
    };
    o.read = [](const void *x, double *c) {
        readCanon(static_cast<const W *>(x)->leaf, c);
        if (!static_cast<const W *>(x)->gapsIntact()) c[0] = std::nan("");
    };
    o.raw = [](const void *x, double *c) {
        for (int i = 0; i < Layout<l>::N; ++i) c[i] = static_cast<const W *>(x)->buf[i];
        return Layout<l>::N;
    };
    o.random = nullptr;
}

void initHandles();
void initTables() {
    leaf<M>();
    leaf<Q>();
    leaf<A>();
    leaf<T>();
    leaf<U>();
    leaf<t>();
    leaf<p>();
    leaf<r>();
    leaf<w>();
    leaf<s>();
    leaf<fQ>();
    leaf<fU>();
    leaf<ft>();
    leaf<fr>();
    leaf<c>();
    leaf<c5>();
    mapped<mM>();
    mapped<mQ>();
    mapped<mt>();
    mapped<mr>();
    mapped<ms>();
    mapped<sM>();
    mapped<st>();
    mapped<sT>();
    mapped<sU>();
    mapped<sw>();
    mapped<sp>();
    mapped<kM>();
    mapped<kt>();
    initHandles();
    for (auto f : regs()) f();
    std::sort(frags().begin(), frags().end(),
              [](const Frag &a, const Frag &b) { return a.name < b.name; });
}
}  // namespace wl
