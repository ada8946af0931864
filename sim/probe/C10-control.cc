// A factor. The probes must compile if this does.
#include "wave/geometry/estimation.hpp"
#include "wave/geometry/geometry.hpp"
using namespace wave;
struct Distance {
    template <typename T, typename U>
    auto operator()(const TranslationBase<T> &a, const TranslationBase<U> &b) const {
        return (a.derived() - b.derived()).norm();
    }
};
int main() {
    using Noise = DiagonalNoise<Scalar<double>>;
    auto f = makeFactor<Distance>(Uncertain<Scalar<double>, DiagonalNoise>{Scalar<double>{1.}, Noise::FromStdDev(1.)},
                                  std::make_shared<FactorVariable<Translationd>>(),
                                  std::make_shared<FactorVariable<Translationd>>());
    const auto noise = Noise::FromStdDev(2.);
    Translationd t{1., 2., 3.};
    return int(f.evaluate(t, t)[0] + noise.covariance().diagonal()[0]);
}
