// The covariance of a temporary noise model.
#include "wave/geometry/estimation.hpp"
#include "wave/geometry/geometry.hpp"
using namespace wave;
int main() {
    using D = DiagonalNoise<Translationd>;
    using F = FullNoise<Translationd>;
    const Eigen::Matrix3d c = D::FromStdDev(1., 2., 3.).covariance();
    const Eigen::Matrix3d l = D::FromStdDev(1., 2., 3.).inverseSqrtCov();
    const Eigen::Matrix3d d = F::FromCovariance(c).covariance();
    const Eigen::Matrix3d m = F::FromCovariance(c).inverseSqrtCov();
    return int(c(0, 0) + l(0, 0) + d(0, 0) + m(0, 0));
}
