// Factors: residuals with measurement noise, and their Jacobians.
#include <memory>

#include "wl_fun.h"

// Functors and compound measurement as a user of the library would write them (the same as
// the examples in the library's own test suite).
namespace example {
struct Distance {
    template <typename T, typename U>
    auto operator()(const wave::TranslationBase<T> &a, const wave::TranslationBase<U> &b) const {
        return (a.derived() - b.derived()).norm();
    }
};
struct RelTranslation {  // position of b seen from pose a
    template <typename T, typename U>
    auto operator()(const wave::RigidTransformBase<T> &a, const wave::TranslationBase<U> &b) const {
        return inverse(a.derived()) * b.derived();
    }
};
struct RotationError {
    template <typename A, typename B>
    auto operator()(const wave::RotationBase<A> &a, const wave::RotationBase<B> &b) const {
        return log(a.derived() * inverse(b.derived()));
    }
};
struct ThreePoints {
    template <typename A, typename B, typename C>
    auto operator()(const wave::RotationBase<A> &a,
                    const wave::TranslationBase<B> &b,
                    const wave::TranslationBase<C> &c) const {
        return a.derived() * (b.derived() - c.derived());
    }
};
struct OtherRotationError {  // the same, with the parameters the other way around
    template <typename A, typename B>
    auto operator()(const wave::RotationBase<A> &a, const wave::RotationBase<B> &b) const {
        return log(inverse(b.derived()) * a.derived());
    }
};
struct Seen {  // the translation comes first
    template <typename A, typename B>
    auto operator()(const wave::TranslationBase<A> &a, const wave::RotationBase<B> &b) const {
        return b.derived() * a.derived();
    }
};
struct Opposite {
    template <typename A>
    auto operator()(const wave::TranslationBase<A> &a) const {
        return -a.derived();
    }
};
struct Attitude {
    template <typename A>
    auto operator()(const wave::RotationBase<A> &a) const {
        return log(inverse(a.derived()));
    }
};
struct RelMotion {
    template <typename A, typename B>
    auto operator()(const wave::RigidTransformBase<A> &a,
                    const wave::RigidTransformBase<B> &b) const {
        return log(inverse(a.derived()) * b.derived());
    }
};
struct FourWay {
    template <typename A, typename B, typename C, typename D>
    auto operator()(const wave::TranslationBase<A> &a,
                    const wave::RotationBase<B> &b,
                    const wave::TranslationBase<C> &c,
                    const wave::RotationBase<D> &d) const {
        return d.derived() * a.derived() - b.derived() * c.derived();
    }
};
struct FiveWay {
    template <typename A, typename B, typename C, typename D, typename E>
    auto operator()(const wave::TranslationBase<A> &a,
                    const wave::TranslationBase<B> &b,
                    const wave::RigidTransformBase<C> &c,
                    const wave::TranslationBase<D> &d,
                    const wave::RotationBase<E> &e) const {
        return inverse(c.derived()) * a.derived() - e.derived() * (b.derived() - d.derived());
    }
};
template <typename RotExpr = wave::RelativeRotationd, typename TransExpr = wave::Translationd>
struct PoseError : wave::CompoundVectorBase<PoseError<RotExpr, TransExpr>>,
                   wave::NaryStorage<PoseError<RotExpr, TransExpr>, RotExpr, TransExpr> {
    using Storage = wave::NaryStorage<PoseError<RotExpr, TransExpr>, RotExpr, TransExpr>;
    using Storage::Storage;
    using Storage::operator=;
};
struct PoseErrorFunctor {
    template <typename A, typename B, typename C>
    auto operator()(const wave::TranslationBase<A> &a,
                    const wave::RotationBase<B> &b,
                    const wave::RotationBase<C> &c) const {
        return wave::internal::makeCompound<PoseError>(log(c.derived() * inverse(b.derived())),
                                                       c.derived() * a.derived());
    }
};
template <typename RangeExpr = wave::Scalar<double>, typename BearingExpr = wave::Scalar<double>>
struct RangeBearing
    : wave::CompoundVectorBase<RangeBearing<RangeExpr, BearingExpr>>,
      wave::NaryStorage<RangeBearing<RangeExpr, BearingExpr>, RangeExpr, BearingExpr> {
    using Storage =
      wave::NaryStorage<RangeBearing<RangeExpr, BearingExpr>, RangeExpr, BearingExpr>;
    using Storage::Storage;
    using Storage::operator=;
};
using RangeBearingd = RangeBearing<>;
struct RangeBearingFunctor {
    template <typename A, typename B>
    auto operator()(const wave::RigidTransformBase<A> &a, const wave::TranslationBase<B> &b) const {
        const auto &T_WB = a.derived();
        const auto &W_v_WL = b.derived();
        auto &&B_v_Bz = wave::Translationd{0., 0., 1.};
        auto &&range = (T_WB.translation() - W_v_WL).norm();
        auto &&bearing =
          acos(dot(std::move(B_v_Bz), (inverse(T_WB) * W_v_WL.derived()).normalized()));
        return wave::internal::makeCompound<RangeBearing>(std::move(range), std::move(bearing));
    }
};
}  // namespace example
namespace wave {
namespace internal {
template <typename T1, typename T2>
struct traits<example::PoseError<T1, T2>>
    : compound_vector_traits_base<example::PoseError<T1, T2>, T1, T2>,
      frameable_vector_traits {};
template <typename T1, typename T2>
struct traits<example::RangeBearing<T1, T2>>
    : compound_vector_traits_base<example::RangeBearing<T1, T2>, T1, T2>,
      frameable_vector_traits {};
}  // namespace internal
}  // namespace wave

namespace wl {
template <typename Functor, typename MeasLeaf, template <typename> class Noise, int... ls>
struct FactorT final : FactorObj {
    using Meas = wave::Uncertain<MeasLeaf, Noise>;
    using F = wave::Factor<Functor, Meas, Leaf<ls>...>;
    F f;
    bool noiseOk;
    FactorT(const Meas &m, bool ok)
        : f{wave::makeFactor<Functor>(m, std::make_shared<wave::FactorVariable<Leaf<ls>>>()...)},
          noiseOk{ok} {}
    FactorT(const FactorT &) = default;
    static void *operator new(size_t, void *p) { return p; }
    FactorObj *cloneInto(void *slot) const override { return new (slot) FactorT(*this); }
    template <typename V>
    static void put(const V &v, double *out) {
        for (int i = 0; i < int(v.size()); ++i) out[i] = v[i];
    }
    template <size_t... I>
    void evalI(void *const *p, double *res, std::index_sequence<I...>) const {
        put(f.evaluate(*static_cast<const Leaf<ls> *>(p[I])...), res);
    }
    template <size_t... I>
    void evalJ(void *const *p, double *res, Jac *jac, std::index_sequence<I...>) const {
        auto tup = f.evaluateWithJacobians(*static_cast<const Leaf<ls> *>(p[I])...);
        put(std::get<0>(tup), res);
        int dummy[] = {(putJac(std::get<I + 1>(tup), &jac[I]), 0)...};
        (void) dummy;
    }
    void evaluate(void *const *p, double *res) const override {
        evalI(p, res, std::make_index_sequence<sizeof...(ls)>{});
    }
    void evaluateJ(void *const *p, double *res, Jac *jac) const override {
        evalJ(p, res, jac, std::make_index_sequence<sizeof...(ls)>{});
    }
    template <int l>
    bool setVar(int i, const double *canon) {
        // an optimiser writes through data(); the value must follow
        auto v = std::static_pointer_cast<wave::FactorVariable<Leaf<l>>>(*(f.begin() + i));
        const Leaf<l> src = Make<l>::leaf(canon);
        double raw[16];
        int n = int(v->size());
        v->value() = src;
        for (int k = 0; k < n; ++k) raw[k] = v->data()[k];
        v->value() = Make<l>::leaf(canon);
        for (int k = 0; k < n; ++k)
            if (!(v->data()[k] == raw[k])) return false;
        for (int k = 0; k < n; ++k) v->data()[k] = raw[k];
        return true;
    }
    template <int l>
    void readVar(int i, double *canon) const {
        auto v = std::static_pointer_cast<wave::FactorVariable<Leaf<l>>>(*(f.begin() + i));
        readCanon(v->value(), canon);
    }
    template <size_t... I>
    bool setI(int i, const double *c, std::index_sequence<I...>) {
        bool ok = true;
        int dummy[] = {(int(I) == i ? (ok = setVar<ls>(i, c), 0) : 0)...};
        (void) dummy;
        return ok;
    }
    template <size_t... I>
    void getI(int i, double *c, std::index_sequence<I...>) const {
        int dummy[] = {(int(I) == i ? (readVar<ls>(i, c), 0) : 0)...};
        (void) dummy;
    }
    bool setVariable(int i, const double *c) override {
        return setI(i, c, std::make_index_sequence<sizeof...(ls)>{});
    }
    void variableValue(int i, double *c) const override {
        getI(i, c, std::make_index_sequence<sizeof...(ls)>{});
    }
    void *variableLeaf(int i) const override {
        void *out = nullptr;
        int k = 0;
        int dummy[] = {(k++ == i ? (out = leafOf<ls>(i), 0) : 0)...};
        (void) dummy;
        return out;
    }
    template <int l>
    void *leafOf(int i) const {
        return &std::static_pointer_cast<wave::FactorVariable<Leaf<l>>>(*(f.begin() + i))->value();
    }
    long variableUse(int i) const override { return (f.begin() + i)->use_count(); }
    size_t arity() const override { return f.size(); }
    bool consistent() const override {
        const wave::FactorBase &base = f;
        size_t n = 0;
        for (auto it = base.begin(); it != base.end(); ++it) n += bool(*it);
        return noiseOk && base.size() == sizeof...(ls) && n == base.size() &&
               !base.isPerfectPrior();
    }
};
/** Does a noise model say of itself what it was made from? */
template <typename Noise>
bool noiseIs(const Noise &nz, const double *given, bool full, int n) {
    const Eigen::MatrixXd c = nz.covariance(), l = nz.inverseSqrtCov();
    const Eigen::MatrixXd c2 = Noise{nz}.covariance(), l2 = Noise{nz}.inverseSqrtCov();
    if (c.rows() != n || c != c2 || l != l2) return false;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            const double want = full ? given[n * i + j] : i == j ? given[i] * given[i] : 0;
            if (!(std::fabs(c(i, j) - want) <= 1e-12 * (1 + std::fabs(want)))) return false;
        }
    return true;
}

template <typename Functor, typename MeasLeaf, template <typename> class Noise, int... ls,
          typename MakeMeas>
void factor(const char *name, std::vector<const char *> progs, std::vector<int> kinds, int nres,
            bool full, MakeMeas) {
    FactorDesc d{};
    d.name = name;
    d.nparam = int(sizeof...(ls));
    d.nres = nres;
    int in[] = {ls...};
    for (int i = 0; i < d.nparam; ++i) d.in[i] = LT(in[i]);
    d.nblock = int(progs.size());
    for (int i = 0; i < d.nblock; ++i) {
        d.prog[i] = progs[size_t(i)];
        d.blockKind[i] = kinds[size_t(i)];
    }
    using FT = FactorT<Functor, MeasLeaf, Noise, ls...>;
    d.size = sizeof(FT);
    d.align = alignof(FT) < 16 ? 16 : alignof(FT);
    d.full = full;
    d.make = [](void *slot, const double *meas, const double *noise) -> FactorObj * {
        using Nz = Noise<MeasLeaf>;
        // The noise that is asked is another, made the same way: what a factor carries is
        // left as made, for its evaluations to be the first to use it.
        const typename FT::Meas m{MakeMeas::value(meas), MakeMeas::template noise<Nz>(noise)};
        return new (slot)
          FT(m,
             noiseIs(MakeMeas::template noise<Nz>(noise), noise, std::is_same<Nz, wave::FullNoise<MeasLeaf>>::value,
                     int(wave::internal::traits<MeasLeaf>::TangentSize)));
    };
    factors().push_back(d);
}
/** Which of the ways to make a noise model, decided by its numbers */
unsigned wayOf(const double *n) {
    unsigned long b;
    memcpy(&b, n, sizeof b);
    return unsigned((b >> 3) % 5);
}
template <int N, typename L>
struct VecMeas {
    static L value(const double *m) { return L{Eigen::Map<const Eigen::Matrix<double, N, 1>>{m}}; }
    template <typename Nz>
    static Nz noise(const double *n) {
        using Vec = Eigen::Matrix<double, N, 1>;
        using Mat = Eigen::Matrix<double, N, N>;
        const unsigned way = wayOf(n);
        if constexpr (std::is_same<Nz, wave::FullNoise<L>>::value) {
            const Eigen::Map<const Mat> map{n};
            Mat mat{map};
            const Eigen::MatrixXd any{map};
            return way == 0   ? Nz::FromCovariance(Eigen::Map<const Mat>{n})
                   : way == 1 ? Nz::FromCovariance(mat)
                   : way == 2 ? Nz::FromCovariance(std::move(mat))
                   : way == 3 ? Nz::FromCovariance(any.transpose())
                              : Nz::FromCovariance(map);
        } else {
            const Eigen::Map<const Vec> map{n};
            const Vec vec{map};
            if constexpr (N == 3)
                if (way == 0) return Nz::FromStdDev(n[0], n[1], n[2]);
            if constexpr (N == 6)
                if (way == 0) return Nz::FromStdDev(n[0], n[1], n[2], n[3], n[4], n[5]);
            return way == 1   ? Nz::FromStdDev(vec)
                   : way == 2 ? Nz::FromStdDev(map)
                   : way == 3 ? Nz::FromStdDev(vec + Vec::Zero())
                              : Nz::FromStdDev(Vec{map});
        }
    }
};
struct ScalMeas {
    static wave::Scalar<double> value(const double *m) { return wave::Scalar<double>{m[0]}; }
    template <typename Nz>
    static Nz noise(const double *n) {
        return wayOf(n) % 2 ? Nz::FromStdDev(n[0])
                            : Nz::FromStdDev(Eigen::Matrix<double, 1, 1>::Constant(n[0]));
    }
};
struct RbMeas {
    static example::RangeBearingd value(const double *m) {
        return example::RangeBearingd{m[0], m[1]};
    }
    template <typename Nz>
    static Nz noise(const double *n) {
        return wayOf(n) % 2 ? Nz::FromStdDev(n[0], n[1])
                            : Nz::FromStdDev(Eigen::Vector2d{n[0], n[1]});
    }
};
struct PoseErrorMeas {
    static example::PoseError<> value(const double *m) {
        return example::PoseError<>{wave::RelativeRotationd{m[0], m[1], m[2]},
                                    wave::Translationd{m[3], m[4], m[5]}};
    }
    template <typename Nz>
    static Nz noise(const double *n) {
        return VecMeas<6, example::PoseError<>>::noise<Nz>(n);
    }
};
REGISTER(factor) {
    using wave::DiagonalNoise;
    using wave::FullNoise;
    factor<example::Distance, wave::Scalar<double>, DiagonalNoise, t, t>(
      "distance", {"0 1 - norm"}, {model::Scal}, 1, false, ScalMeas{});
    factor<example::RelTranslation, wave::Translationd, DiagonalNoise, T, t>(
      "reltrans", {"0 inv 1 *"}, {model::Vec}, 3, false, VecMeas<3, wave::Translationd>{});
    factor<example::RelTranslation, wave::Translationd, FullNoise, T, t>(
      "reltransfull", {"0 inv 1 *"}, {model::Vec}, 3, true, VecMeas<3, wave::Translationd>{});
    factor<example::RotationError, wave::RelativeRotationd, DiagonalNoise, M, M>(
      "roterror", {"0 1 inv * log"}, {model::Vec}, 3, false,
      VecMeas<3, wave::RelativeRotationd>{});
    factor<example::ThreePoints, wave::Translationd, FullNoise, M, t, t>(
      "three", {"0 1 2 - *"}, {model::Vec}, 3, true, VecMeas<3, wave::Translationd>{});
    factor<example::RangeBearingFunctor, example::RangeBearingd, DiagonalNoise, T, t>(
      "rangebearing", {"0 trans 1 - norm", "0 inv 1 * unit zcomp acos"},
      {model::Scal, model::Scal}, 2, false, RbMeas{});
    factor<example::RotationError, wave::RelativeRotationd, FullNoise, M, M>(
      "roterrorfull", {"0 1 inv * log"}, {model::Vec}, 3, true,
      VecMeas<3, wave::RelativeRotationd>{});
    factor<example::OtherRotationError, wave::RelativeRotationd, DiagonalNoise, M, M>(
      "otherroterror", {"1 inv 0 * log"}, {model::Vec}, 3, false,
      VecMeas<3, wave::RelativeRotationd>{});
    factor<example::Seen, wave::Translationd, FullNoise, t, M>(
      "seen", {"1 0 *"}, {model::Vec}, 3, true, VecMeas<3, wave::Translationd>{});
    factor<example::Seen, wave::Translationd, DiagonalNoise, t, M>(
      "seendiag", {"1 0 *"}, {model::Vec}, 3, false, VecMeas<3, wave::Translationd>{});
    factor<example::Opposite, wave::Translationd, FullNoise, t>(
      "opposite", {"0 neg"}, {model::Vec}, 3, true, VecMeas<3, wave::Translationd>{});
    factor<example::Attitude, wave::RelativeRotationd, DiagonalNoise, M>(
      "attitude", {"0 inv log"}, {model::Vec}, 3, false, VecMeas<3, wave::RelativeRotationd>{});
    factor<example::RelMotion, wave::Twistd, FullNoise, T, T>(
      "relmotion", {"0 inv 1 * log"}, {model::Tw}, 6, true, VecMeas<6, wave::Twistd>{});
    factor<example::RelMotion, wave::Twistd, DiagonalNoise, T, T>(
      "relmotiondiag", {"0 inv 1 * log"}, {model::Tw}, 6, false, VecMeas<6, wave::Twistd>{});
    factor<example::FourWay, wave::Translationd, DiagonalNoise, t, M, t, M>(
      "four", {"3 0 * 1 2 * -"}, {model::Vec}, 3, false, VecMeas<3, wave::Translationd>{});
    factor<example::FiveWay, wave::Translationd, FullNoise, t, t, T, t, M>(
      "five", {"2 inv 0 * 4 1 3 - * -"}, {model::Vec}, 3, true, VecMeas<3, wave::Translationd>{});
    factor<example::PoseErrorFunctor, example::PoseError<>, FullNoise, t, M, M>(
      "poseerror", {"2 1 inv * log", "2 0 *"}, {model::Vec, model::Vec}, 6, true,
      PoseErrorMeas{});
}
}  // namespace wl
