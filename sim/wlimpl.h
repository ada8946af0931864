// Instantiation machinery shared by the wl_*.cc files: real library code behind wl.h tables.
#pragma once
#include <new>
#include <type_traits>
#include <utility>

#include <wave/geometry/dynamic.hpp>
#include <wave/geometry/estimation.hpp>
#include <wave/geometry/geometry.hpp>

#include "wl.h"

namespace wl {
// A compound of vectors, as a user of the library would write one
template <typename RotExpr = wave::RelativeRotationd, typename TransExpr = wave::Translationd>
struct Both : wave::CompoundVectorBase<Both<RotExpr, TransExpr>>,
              wave::NaryStorage<Both<RotExpr, TransExpr>, RotExpr, TransExpr> {
    using Storage = wave::NaryStorage<Both<RotExpr, TransExpr>, RotExpr, TransExpr>;
    using Storage::Storage;
    using Storage::operator=;
};
// Another one, of scalars too
template <typename S1 = wave::Scalar<double>,
          typename T = wave::Translationd,
          typename S2 = wave::Scalar<double>>
struct Tri : wave::CompoundVectorBase<Tri<S1, T, S2>>,
             wave::NaryStorage<Tri<S1, T, S2>, S1, T, S2> {
    using Storage = wave::NaryStorage<Tri<S1, T, S2>, S1, T, S2>;
    using Storage::Storage;
    using Storage::operator=;
};
}  // namespace wl
namespace wave {
namespace internal {
template <typename R, typename T>
struct traits<wl::Both<R, T>> : compound_vector_traits_base<wl::Both<R, T>, R, T>,
                                frameable_vector_traits {};
template <typename S1, typename T, typename S2>
struct traits<wl::Tri<S1, T, S2>> : compound_vector_traits_base<wl::Tri<S1, T, S2>, S1, T, S2>,
                                    frameable_vector_traits {};
}  // namespace internal
}  // namespace wave

namespace wl {

// ---------------------------------------------------------------- leaf types
struct FA;
struct FB;
template <int l>
struct LeafT;
#define LEAF(l, ...)              \
    template <>                   \
    struct LeafT<l> {             \
        using type = __VA_ARGS__; \
    };                            \
    template <>                   \
    struct LtOf<__VA_ARGS__> : std::integral_constant<int, l> {};
template <typename X>
struct LtOf;
LEAF(M, wave::RotationMd)
LEAF(Q, wave::RotationQd)
LEAF(A, wave::RotationAd)
LEAF(T, wave::RigidTransformMd)
LEAF(U, wave::RigidTransformQd)
LEAF(t, wave::Translationd)
LEAF(p, wave::Pointd)
LEAF(r, wave::RelativeRotationd)
LEAF(w, wave::Twistd)
LEAF(s, wave::Scalar<double>)
LEAF(fQ, wave::RotationQFd<FA, FA>)
LEAF(fU, wave::RigidTransformQFd<FA, FA>)
LEAF(ft, wave::TranslationFd<FA, FA, FA>)
LEAF(fr, wave::RelativeRotationFd<FA, FA, FA>)
using MatMap = Eigen::Map<Eigen::Matrix3d>;
using QuatMap = Eigen::Map<Eigen::Quaterniond>;
using VecMap = Eigen::Map<Eigen::Vector3d>;
LEAF(mM, wave::MatrixRotation<MatMap>)
LEAF(mQ, wave::QuaternionRotation<QuatMap>)
LEAF(mt, wave::Translation<VecMap>)
LEAF(mr, wave::RelativeRotation<VecMap>)
LEAF(ms, wave::Scalar<double &>)
// (a block of a larger matrix, a row, a coefficient array with gaps)
using BlkMap = Eigen::Map<Eigen::Matrix3d, 0, Eigen::OuterStride<5>>;
using Blk4Map = Eigen::Map<Eigen::Matrix4d, 0, Eigen::OuterStride<5>>;
using Vec2Map = Eigen::Map<Eigen::Vector3d, 0, Eigen::InnerStride<2>>;
using Vec6Map = Eigen::Map<Eigen::Matrix<double, 6, 1>, 0, Eigen::InnerStride<2>>;
LEAF(sM, wave::MatrixRotation<BlkMap>)
LEAF(st, wave::Translation<Vec2Map>)
LEAF(sT, wave::MatrixRigidTransform<Blk4Map>)
LEAF(sU, wave::CompactRigidTransform<QuatMap, VecMap>)
LEAF(sw, wave::Twist<Vec6Map>)
LEAF(sp, wave::Point<Vec2Map>)
LEAF(kM, wave::MatrixRotation<Eigen::Map<const Eigen::Matrix3d>>)
LEAF(kt, wave::Translation<Eigen::Map<const Eigen::Vector3d>>)
LEAF(c, Both<>)
LEAF(c5, Tri<>)
// the natural result type of transposing a matrix rotation
template <>
struct LtOf<wave::MatrixRotation<Eigen::Matrix<double, 3, 3, Eigen::RowMajor>>>
    : std::integral_constant<int, M> {};
template <>
struct LtOf<wave::QuaternionRotation<Eigen::Quaternion<double, 2>>>
    : std::integral_constant<int, Q> {};
template <int l>
using Leaf = typename LeafT<l>::type;

// ---------------------------------------------------------------- canonical form
using Mat3R = Eigen::Matrix<double, 3, 3, Eigen::RowMajor>;
inline Eigen::Matrix3d canonR(const double *c) { return Eigen::Map<const Mat3R>{c}; }
inline void putR(const Eigen::Matrix3d &m, double *c) {
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) c[3 * i + j] = m(i, j);
}

// Reading goes through the stored value only: it must not depend on library evaluation.
template <typename X>
struct Canon;

template <typename I>
struct Canon<wave::MatrixRotation<I>> {
    template <typename L>
    static void read(const L &x, double *c) {
        putR(x.value(), c);
    }
    template <typename L>
    static int raw(const L &x, double *c) {
        putR(x.value(), c);
        return 9;
    }
    static Eigen::Matrix3d impl(const double *c) { return canonR(c); }
};
template <typename I>
struct Canon<wave::QuaternionRotation<I>> {
    template <typename L>
    static void read(const L &x, double *c) {
        putR(x.value().toRotationMatrix(), c);
    }
    template <typename L>
    static int raw(const L &x, double *c) {
        const auto &q = x.value();
        c[0] = q.w();
        c[1] = q.x();
        c[2] = q.y();
        c[3] = q.z();
        return 4;
    }
    static Eigen::Quaterniond impl(const double *c) { return Eigen::Quaterniond{canonR(c)}; }
};
template <typename I>
struct Canon<wave::AngleAxisRotation<I>> {
    template <typename L>
    static void read(const L &x, double *c) {
        putR(x.value().toRotationMatrix(), c);
    }
    template <typename L>
    static int raw(const L &x, double *c) {
        const auto &q = x.value();
        c[0] = q.angle();
        c[1] = q.axis().x();
        c[2] = q.axis().y();
        c[3] = q.axis().z();
        return 4;
    }
    static Eigen::AngleAxisd impl(const double *c) { return Eigen::AngleAxisd{canonR(c)}; }
};
template <typename I>
struct Canon<wave::MatrixRigidTransform<I>> {
    template <typename L>
    static void read(const L &x, double *c) {
        Eigen::Matrix4d m = x.value();
        putR(m.topLeftCorner<3, 3>(), c);
        for (int i = 0; i < 3; ++i) c[9 + i] = m(i, 3);
    }
    template <typename L>
    static int raw(const L &x, double *c) {
        Eigen::Matrix4d m = x.value();
        for (int i = 0; i < 16; ++i) c[i] = m(i % 4, i / 4);
        return 16;
    }
    static Eigen::Matrix4d impl(const double *c) {
        Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
        m.topLeftCorner<3, 3>() = canonR(c);
        for (int i = 0; i < 3; ++i) m(i, 3) = c[9 + i];
        return m;
    }
};
template <typename R, typename V>
struct Canon<wave::CompactRigidTransform<R, V>> {
    template <typename L>
    static void read(const L &x, double *c) {
        const auto &v = x.value();
        putR(std::get<0>(v).value().toRotationMatrix(), c);
        for (int i = 0; i < 3; ++i) c[9 + i] = std::get<1>(v).value()[i];
    }
    template <typename L>
    static int raw(const L &x, double *c) {
        const auto &q = std::get<0>(x.value()).value();
        c[0] = q.w();
        c[1] = q.x();
        c[2] = q.y();
        c[3] = q.z();
        for (int i = 0; i < 3; ++i) c[4 + i] = std::get<1>(x.value()).value()[i];
        return 7;
    }
};
template <int N>
struct CanonVec {
    template <typename L>
    static void read(const L &x, double *c) {
        for (int i = 0; i < N; ++i) c[i] = x.value()[i];
    }
    template <typename L>
    static int raw(const L &x, double *c) {
        read(x, c);
        return N;
    }
    static Eigen::Matrix<double, N, 1> impl(const double *c) {
        return Eigen::Map<const Eigen::Matrix<double, N, 1>>{c};
    }
};
template <typename I>
struct Canon<wave::Translation<I>> : CanonVec<3> {};
template <typename I>
struct Canon<wave::Point<I>> : CanonVec<3> {};
template <typename I>
struct Canon<wave::RelativeRotation<I>> : CanonVec<3> {};
template <typename I>
struct Canon<wave::Twist<I>> : CanonVec<6> {};
template <typename D>
struct Canon<wave::Scalar<D>> {
    template <typename L>
    static void read(const L &x, double *c) {
        c[0] = double(x.value());
    }
    template <typename L>
    static int raw(const L &x, double *c) {
        c[0] = double(x.value());
        return 1;
    }
};
template <>
struct Canon<wave::Scalar<double &>> {
    template <typename L>
    static void read(const L &x, double *c) {
        c[0] = x.rhs();
    }
    template <typename L>
    static int raw(const L &x, double *c) {
        c[0] = x.rhs();
        return 1;
    }
};
template <typename RE, typename TE>
struct Canon<Both<RE, TE>> {
    template <typename L>
    static void read(const L &x, double *c) {
        for (int i = 0; i < 3; ++i) c[i] = x.template get<0>().value()[i];
        for (int i = 0; i < 3; ++i) c[3 + i] = x.template get<1>().value()[i];
    }
    template <typename L>
    static int raw(const L &x, double *c) {
        read(x, c);
        return 6;
    }
};
template <typename S1, typename TE, typename S2>
struct Canon<Tri<S1, TE, S2>> {
    template <typename L>
    static void read(const L &x, double *c) {
        c[0] = x.template get<0>().value();
        for (int i = 0; i < 3; ++i) c[1 + i] = x.template get<1>().value()[i];
        c[4] = x.template get<2>().value();
    }
    template <typename L>
    static int raw(const L &x, double *c) {
        read(x, c);
        return 5;
    }
};
template <typename L, typename... F>
struct Canon<wave::Framed<L, F...>> : Canon<L> {};

template <typename L>
void readCanon(const L &x, double *c) {
    Canon<std::remove_cv_t<L>>::read(x, c);
}
/** Result of an evaluation: convert to canonical form whatever leaf type it is. */
template <typename E>
void readResult(const E &x, double *c) {
    readCanon(x, c);
}
inline void readResult(const double &x, double *c) { c[0] = x; }

template <typename X>
struct UnFrame {
    using type = X;
};
template <typename L, typename... F>
struct UnFrame<wave::Framed<L, F...>> {
    using type = L;
};

template <int l, typename Enable = void>
struct Make {
    static Leaf<l> leaf(const double *c) { return Leaf<l>{Canon<Leaf<l>>::impl(c)}; }
};
template <int l>
struct Make<l, std::enable_if_t<l == s>> {
    static Leaf<l> leaf(const double *c) { return Leaf<l>{c[0]}; }
};
template <int l>
struct Make<l, std::enable_if_t<l == U || l == fU>> {
    static Leaf<l> leaf(const double *c) {
        Eigen::Quaterniond q{canonR(c)};
        Eigen::Vector3d v{c[9], c[10], c[11]};
        return Leaf<l>{q, v};
    }
};

template <int l>
struct Make<l, std::enable_if_t<l == c>> {
    static Leaf<l> leaf(const double *x) {
        return Leaf<l>{wave::RelativeRotationd{x[0], x[1], x[2]},
                       wave::Translationd{x[3], x[4], x[5]}};
    }
};

template <int l>
struct Make<l, std::enable_if_t<l == c5>> {
    static Leaf<l> leaf(const double *x) {
        return Leaf<l>{
          wave::Scalar<double>{x[0]}, wave::Translationd{x[1], x[2], x[3]}, wave::Scalar<double>{x[4]}};
    }
};

// ---------------------------------------------------------------- predicates
/** Is an expression approximately what it evaluates to, and not something else? */
template <typename E, typename Out>
auto predicates(const E &e, const Out &x, int)
  -> decltype(e.isApprox(x, 1e-7), x.isApprox(e, 1e-7), bool{}) {
    return e.isApprox(x, 1e-7) && x.isApprox(e, 1e-7);
}
template <typename E, typename Out>
bool predicates(const E &, const Out &, long) {
    return true;
}
template <typename E, typename Out>
auto differs(const E &e, const Out &x, int)
  -> decltype(e.isApprox(x, 1e-7), x.isApprox(e, 1e-7), bool{}) {
    return !e.isApprox(x, 1e-7) && !x.isApprox(e, 1e-7);
}
template <typename E, typename Out>
bool differs(const E &, const Out &, long) {
    return true;
}
/** Moves a canonical value by far more than any tolerance: one element in turn */
template <int l>
void perturb(double *q, unsigned pick) {
    constexpr bool rot = l == M || l == Q || l == A || l == fQ || l == mM || l == mQ || l == sM || l == kM;
    constexpr bool rt = l == T || l == U || l == fU || l == sT || l == sU;
    if (rot || (rt && pick % 2 == 0)) {
        const Eigen::Matrix3d R =
          Eigen::AngleAxisd{0.3, Eigen::Vector3d::Unit(pick / 2 % 3)}.matrix() * canonR(q);
        for (int i = 0; i < 9; ++i) q[i] = R(i / 3, i % 3);
    } else if (rt) {
        q[9 + pick / 2 % 3] += 1 + std::fabs(q[9 + pick / 2 % 3]);
    } else {
        double &x = q[pick % unsigned(dof(LT(l)))];
        x = x == 0 ? 1 : x + std::copysign(1 + std::fabs(x), x);
    }
}
template <int l, typename E>
void readIfApprox(const E &e, double *c) {
    const auto x = e.eval();
    readResult(x, c);
    double b[12] = {};
    readResult(x, b);
    bool fair = true;  // nothing is approximately infinite or undefined
    for (double q : b) fair = fair && std::fabs(q) < 1e2;
    if (fair && !predicates(e, x, 0)) c[0] = std::nan("");
    // must not be approximately anything else
    unsigned pick = 0;
    for (double q : b) pick = pick * 31 + unsigned(std::fabs(q) * 1e4);
    perturb<l>(b, pick >> 3);
    if (fair && differs(e, Make<l>::leaf(b), 0) == 0) c[0] = std::nan("");
}

// ---------------------------------------------------------------- Jacobians
template <typename D>
void putJac(const Eigen::EigenBase<D> &m, Jac *o) {
    Eigen::MatrixXd d = m.derived();
    o->rows = int(d.rows());
    o->cols = int(d.cols());
    for (int i = 0; i < o->rows && i < 6; ++i)
        for (int j = 0; j < o->cols && j < 6; ++j) o->m[6 * i + j] = d(i, j);
}
template <typename D>
void putJac(const Eigen::MatrixBase<D> &d, Jac *o) {
    o->rows = int(d.rows());
    o->cols = int(d.cols());
    for (int i = 0; i < o->rows && i < 6; ++i)
        for (int j = 0; j < o->cols && j < 6; ++j) o->m[6 * i + j] = d.derived().coeff(i, j);
}

// ---------------------------------------------------------------- operands
template <char K, int l>
struct O {
    static constexpr char kind = K;
    static constexpr int lt = l;
};
template <typename Op>
struct Get;
template <int l>
struct Get<O<'L', l>> {
    static const Leaf<l> &get(void *a) { return *static_cast<const Leaf<l> *>(a); }
};
template <int l>
struct Get<O<'V', l>> {
    static Leaf<l> get(void *a) { return Leaf<l>{*static_cast<const Leaf<l> *>(a)}; }
};
template <int l>
struct Get<O<'W', l>> : Get<O<'V', l>> {};
template <int l>
struct Get<O<'P', l>> {
    static wave::Proxy<Leaf<l>> &get(void *a) {
        return *static_cast<wave::Proxy<Leaf<l>> *>(a);
    }
};
template <int l>
struct Get<O<'X', l>> {
    static wave::Proxy<Leaf<l>> get(void *a) {
        return wave::Proxy<Leaf<l>>{*static_cast<const wave::Proxy<Leaf<l>> *>(a)};
    }
};
template <int l>
struct Get<O<'R', l>> {
    static wave::RefProxy<Leaf<l>> &get(void *a) {
        return *static_cast<wave::RefProxy<Leaf<l>> *>(a);
    }
};
template <int l>
struct Get<O<'Y', l>> {
    static wave::RefProxy<Leaf<l>> get(void *a) {
        return wave::ref(static_cast<wave::RefProxy<Leaf<l>> *>(a)->follow());
    }
};

template <typename F, typename... Ops, size_t... I>
decltype(auto) callMake(void *const *a, std::index_sequence<I...>) {
    return F::make(Get<Ops>::get(a[I])...);
}
template <typename F, typename... Ops>
decltype(auto) doMake(void *const *a) {
    return callMake<F, Ops...>(a, std::make_index_sequence<sizeof...(Ops)>{});
}
template <typename F, typename... Ops>
using MadeT = decltype(doMake<F, Ops...>(nullptr));
template <typename F, typename... Ops>
using OutT = wave::internal::plain_output_t<std::decay_t<MadeT<F, Ops...>>>;

template <typename F, typename... Ops>
Frag &addFrag(const char *how, const char *name, const char *prog) {
    frags().emplace_back();
    Frag &f = frags().back();
    f.prog = prog;
    f.nin = int(sizeof...(Ops));
    int lts[] = {Ops::lt..., 0};
    char ks[] = {Ops::kind..., 0};
    f.name = how;
    f.name += ":";
    f.name += name;
    f.name += ".";
    for (int i = 0; i < f.nin; ++i) {
        f.in[i] = LT(lts[i]);
        f.kind[i] = ks[i];
        f.name += ks[i];
        f.name += ltName[lts[i]];
    }
    f.kind[f.nin] = 0;
    return f;
}

// ---- dynamic: behind a Proxy, or makeDynamic()/ref()
template <typename E, typename Out>
struct DynObjT final : DynObj {
    E e;
    template <typename F, typename... Ops>
    struct Tag {};
    template <typename F, typename... Ops>
    DynObjT(Tag<F, Ops...>, void *const *a) : e{wave::makeDynamic(doMake<F, Ops...>(a))} {}
    DynObjT(const DynObjT &o) : e(o.e) {}
    DynObjT(DynObjT &&o) : e(std::move(o.e)) {}
    DynObj *cloneInto(void *slot) const override { return new (slot) DynObjT(*this); }
    DynObj *moveInto(void *slot) override { return new (slot) DynObjT(std::move(*this)); }
    void eval(double *c, int route) const override {
        switch (route) {
            case 0: readResult(e.eval(), c); break;
            case 1: {
                Out x{e};
                readResult(x, c);
                break;
            }
            default: readResult(wave::ref(e).eval(), c);
        }
    }
    const void *node() const override {
        return static_cast<const wave::DynamicBase<Out> *>(&e);
    }
    static void *operator new(size_t, void *p) { return p; }
};

template <typename F, typename... Ops>
void dyn(const char *name, const char *prog) {
    using Out = OutT<F, Ops...>;
    using H = wave::Proxy<Out>;
    static_assert(std::is_same<Out, Leaf<LtOf<Out>::value>>::value, "no such handle type");
    Frag &f = addFrag<F, Ops...>("d", name, prog);
    f.out = LT(LtOf<Out>::value);
    f.build = [](void *slot, void *const *a) {
        new (slot) H(wave::makeProxy(doMake<F, Ops...>(a)));
    };
    f.assignHandle = [](void *h, void *const *a, int route) {
        H &handle = *static_cast<H *>(h);
        if (route == 0)
            handle = doMake<F, Ops...>(a);
        else
            handle = wave::makeProxy(doMake<F, Ops...>(a));
    };
}
template <typename F, typename... Ops>
void dynObj(const char *name, const char *prog) {
    using Out = OutT<F, Ops...>;
    Frag &f = addFrag<F, Ops...>("o", name, prog);
    f.out = LT(LtOf<Out>::value);
    using E = decltype(wave::makeDynamic(doMake<F, Ops...>(nullptr)));
    using D = DynObjT<E, Out>;
    f.dynSize = sizeof(D);
    f.dynAlign = alignof(D);
    f.dyn = [](void *slot, void *const *a) -> DynObj * {
        return new (slot) D(typename D::template Tag<F, Ops...>{}, a);
    };
}

// ---- static expressions
template <typename F, typename = void>
struct NoJac : std::false_type {};
template <typename F>
struct NoJac<F, std::void_t<decltype(F::nojac)>> : std::true_type {};
template <typename F, typename = void>
struct NoRev : NoJac<F> {};
template <typename F>
struct NoRev<F, std::void_t<decltype(F::norev)>> : std::true_type {};

// An object in heap memory of its own, so that any use after its end is seen
template <typename T>
struct Boxed {
    struct Raw {
        alignas(T) unsigned char mem[sizeof(T)];
    };
    Raw *raw = new Raw;
    T *obj = nullptr;
    template <typename U>
    explicit Boxed(U &&u) {
        struct Undo {
            Raw *r;
            ~Undo() { delete r; }
        } undo{raw};
        obj = ::new (static_cast<void *>(raw->mem)) T(std::forward<U>(u));
        undo.r = nullptr;
    }
    Boxed(const Boxed &) = delete;
    ~Boxed() { end(); }
    void end() {
        if (obj) {
            obj->~T();
            obj = nullptr;
            delete raw;
        }
    }
};
// Evaluates an expression made anew from the operands of another, which is gone by then
template <typename E, typename Out>
void readFromParts(const E &e, double *c) {
    if constexpr (wave::internal::is_binary_expression<E>::value) {
        Boxed<E> b{e};
        auto &&lhs = std::move(*b.obj).lhs();
        auto &&rhs = std::move(*b.obj).rhs();
        b.end();
        const E again{std::forward<decltype(lhs)>(lhs), std::forward<decltype(rhs)>(rhs)};
        readResult(again.eval(), c);
    } else if constexpr (wave::internal::is_unary_expression<E>::value) {
        Boxed<E> b{e};
        auto &&rhs = std::move(*b.obj).rhs();
        b.end();
        if constexpr (std::is_constructible<E, decltype(rhs)>::value) {
            const E again{std::forward<decltype(rhs)>(rhs)};
            readResult(again.eval(), c);
        } else {
            readResult(e.eval(), c);
        }
    } else {
        readResult(e.eval(), c);
    }
}
// Reads the stored value of a result which is gone by then
template <typename Out, typename E, typename = void>
struct ReadValue {
    static void read(const E &e, double *c) { readResult(e.eval(), c); }
};
template <typename Out, typename E>
struct ReadValue<Out, E,
                 std::void_t<decltype(std::declval<Out &>().value() = std::declval<Out>().value())>> {
    static void read(const E &e, double *c) {
        Boxed<Out> b{e.eval()};
        auto &&v = std::move(*b.obj).value();
        b.end();
        Out x{};
        x.value() = v;
        readResult(x, c);
    }
};

template <typename F, typename... Ops>
struct HolderT final : Holder {
    using E = std::decay_t<MadeT<F, Ops...>>;
    using Out = OutT<F, Ops...>;
    using OutL = Leaf<LtOf<Out>::value>;
    static constexpr bool Unique = wave::internal::unique_leaves_t<E>::value;
    E e;
    void *args[4];
    explicit HolderT(void *const *a) : e(doMake<F, Ops...>(a)) {
        for (size_t i = 0; i < sizeof...(Ops); ++i) args[i] = a[i];
    }
    HolderT(const HolderT &o) : e(o.e) {
        for (size_t i = 0; i < sizeof...(Ops); ++i) args[i] = o.args[i];
    }
    HolderT(HolderT &&o) : e(std::move(o.e)) {
        for (size_t i = 0; i < sizeof...(Ops); ++i) args[i] = o.args[i];
    }
    static void *operator new(size_t, void *p) { return p; }
    size_t size() const override { return sizeof(HolderT); }
    Holder *cloneInto(void *slot) const override { return new (slot) HolderT(*this); }
    Holder *moveInto(void *slot) override { return new (slot) HolderT(std::move(*this)); }

    void eval(double *c, int route) override {
        switch (route) {
            case 0: readResult(static_cast<const E &>(e).eval(), c); break;
            case 1: {
                OutL x{e};
                readResult(x, c);
                break;
            }
            case 2: readResult(wave::eval(e), c); break;
            case 3: readResult(E{e}.eval(), c); break;
            case 4: readIfApprox<LtOf<Out>::value>(static_cast<const E &>(e), c); break;
            case 6: readFromParts<E, Out>(e, c); break;
            case 7: ReadValue<OutL, E>::read(e, c); break;
            default: {
                auto &&alias = e;
                readResult(alias.eval(), c);
            }
        }
    }
    // Jacobians of compounds are not made from the types of their leaves
    template <typename Op>
    static constexpr bool Typed = !NoRev<F>{} || (int(Ops::lt == Op::lt) + ...) > 1;

    template <int i, typename Op>
    bool jacOne(int route, Jac *o, double *v) {
        if constexpr (Op::kind == 'L' && !NoJac<F>{} && Op::lt != ms) {
            const auto &x = *static_cast<const Leaf<Op::lt> *>(args[i]);
            switch (route) {
                case 0:
                    if constexpr (!NoRev<F>{}) {
                        putJac(e.jacobian(x), o);
                        return true;
                    }
                    return false;
                case 1:
                    if constexpr (Typed<Op>) {
                        auto tup = e.evalWithJacobians(x);
                        readResult(std::get<0>(tup), v);
                        putJac(std::get<1>(tup), o);
                        return true;
                    }
                    return false;
                case 2: putJac(wave::internal::evaluateJacobian(e, x), o); return true;
                case 3: putJac(wave::internal::evaluateDynamicJacobian(e, x), o); return true;
                case 5:
                    if constexpr (Typed<Op>) {
                        auto tup = e.evalWithJacobians(x, x);
                        readResult(std::get<0>(tup), v);
                        putJac(std::get<2>(tup), o);
                        return true;
                    }
                    return false;
                default: break;
            }
        }
        if constexpr ((Op::kind == 'P' || Op::kind == 'X') && !NoJac<F>{}) {
            const auto &x = *static_cast<const wave::Proxy<Leaf<Op::lt>> *>(args[i]);
            if constexpr (Typed<Op>) if (route == 1) {
                auto tup = e.evalWithJacobians(x);
                readResult(std::get<0>(tup), v);
                putJac(std::get<1>(tup), o);
                return true;
            }
            if (route == 2) {
                putJac(wave::internal::evaluateJacobian(e, x), o);
                return true;
            }
        }
        if constexpr ((Op::kind == 'R' || Op::kind == 'Y') && !NoJac<F>{}) {
            const auto &x = *static_cast<const wave::RefProxy<Leaf<Op::lt>> *>(args[i]);
            if constexpr (Typed<Op>) if (route == 1) {
                auto tup = e.evalWithJacobians(x);
                readResult(std::get<0>(tup), v);
                putJac(std::get<1>(tup), o);
                return true;
            }
            if (route == 2) {
                putJac(wave::internal::evaluateJacobian(e, x), o);
                return true;
            }
        }
        if constexpr (Unique && !NoRev<F>{} && ((Ops::lt != ms) && ...)) {
            if (route == 4) {
                // (a literal in the expression is a leaf too: those fragments are left out)
                auto tup = e.evalWithJacobians();
                if constexpr (std::tuple_size<decltype(tup)>::value == sizeof...(Ops) + 1) {
                    readResult(std::get<0>(tup), v);
                    putJac(std::get<i + 1>(tup), o);
                    return true;
                }
            }
        }
        return false;
    }
    template <size_t... I>
    bool jacIdx(int k, int route, Jac *o, double *v, std::index_sequence<I...>) {
        bool ok = false;
        int dummy[] = {(int(I) == k ? (ok = jacOne<int(I), Ops>(route, o, v), 0) : 0)...};
        (void) dummy;
        return ok;
    }
    bool jac(int k, int route, Jac *o, double *v) override {
        return jacIdx(k, route, o, v, std::make_index_sequence<sizeof...(Ops)>{});
    }
    template <int i, typename Op>
    bool numOne(Jac *o) {
        if constexpr (Op::kind == 'L' && !NoJac<F>{} && Op::lt != ms) {
            const auto &x = *static_cast<const Leaf<Op::lt> *>(args[i]);
            putJac(wave::evaluateNumericalJacobian(e, x), o);
            return true;
        }
        (void) o;
        return false;
    }
    template <size_t... I>
    bool numIdx(int k, Jac *o, std::index_sequence<I...>) {
        bool ok = false;
        int dummy[] = {(int(I) == k ? (ok = numOne<int(I), Ops>(o), 0) : 0)...};
        (void) dummy;
        return ok;
    }
    bool numeric(int k, Jac *o) override {
        return numIdx(k, o, std::make_index_sequence<sizeof...(Ops)>{});
    }
    bool revAll(const void *const *keys, Jac *o, int n) override {
        if constexpr (!NoRev<F>{} && ((Ops::lt != ms && Ops::kind != 'W') && ...)) {
            auto res = wave::internal::evaluateWithDynamicReverseJacobians(e);
            for (int i = 0; i < n; ++i) {
                o[i].rows = o[i].cols = 0;
                if (res.second.count(keys[i])) putJac(res.second.at(keys[i]), &o[i]);
            }
            return true;
        }
        (void) keys, (void) o, (void) n;
        return false;
    }
};

template <typename F, typename... Ops>
void stat(const char *name, const char *prog) {
    using Out = OutT<F, Ops...>;
    Frag &f = addFrag<F, Ops...>("s", name, prog);
    f.out = LT(LtOf<Out>::value);
    using OutL = Leaf<LtOf<Out>::value>;
    using Hd = HolderT<F, Ops...>;
    f.holderSize = sizeof(Hd);
    f.holderAlign = alignof(Hd);
    f.hold = [](void *slot, void *const *a) -> Holder * { return new (slot) Hd(a); };
    f.direct = [](void *const *a, double *c, int route) {
        if (route == 0)
            readResult(doMake<F, Ops...>(a).eval(), c);
        else if (route == 1) {
            OutL x{doMake<F, Ops...>(a)};
            readResult(x, c);
        } else {
            auto x = wave::eval(doMake<F, Ops...>(a));
            readResult(x, c);
        }
    };
    f.assignVar = [](void *x, void *const *a, int route) {
        OutL &o = *static_cast<OutL *>(x);
        if (route == 0)
            o = doMake<F, Ops...>(a);
        else {
            auto &&e = doMake<F, Ops...>(a);
            o = e;
        }
    };
}
/** assignment into part of (or onto) a leaf: F::run(x, operands...) */
template <typename F, int l, typename... Ops>
void block(const char *name, const char *prog) {
    Frag &f = addFrag<F, Ops...>("b", name, prog);
    f.name += "->";
    f.name += ltName[l];
    f.block = true;
    f.blockOf = LT(l);
    f.out = LT(l);
    f.assignVar = [](void *x, void *const *a, int) {
        F::template run<Leaf<l>, Ops...>(*static_cast<Leaf<l> *>(x), a);
    };
}

// ---------------------------------------------------------------- common functors
#define FW(x) std::forward<decltype(x)>(x)
#define FUN1(Name, body)                 \
    struct Name {                        \
        template <typename X>            \
        static decltype(auto) make(X &&a) { \
            return body;                 \
        }                                \
    };
#define FUN2(Name, body)                         \
    struct Name {                                \
        template <typename X, typename Y>        \
        static decltype(auto) make(X &&a, Y &&b) {   \
            return body;                         \
        }                                        \
    };
#define FUN3(Name, body)                                     \
    struct Name {                                            \
        template <typename X, typename Y, typename Z>        \
        static decltype(auto) make(X &&a, Y &&b, Z &&c) {        \
            return body;                                     \
        }                                                    \
    };
#define FUN4(Name, body)                                                  \
    struct Name {                                                         \
        template <typename X, typename Y, typename Z, typename W>         \
        static decltype(auto) make(X &&a, Y &&b, Z &&c, W &&d) {              \
            return body;                                                  \
        }                                                                 \
    };

struct Registrar {
    explicit Registrar(void (*f)());
};
#define REGISTER(tag) \
    static void reg_##tag(); \
    static Registrar registrar_##tag{reg_##tag}; \
    static void reg_##tag()
}  // namespace wl
