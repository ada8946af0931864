// Assigning an expression to a compact rigid transform.
#include "wave/geometry/dynamic.hpp"
#include "wave/geometry/geometry.hpp"
using namespace wave;
int main() {
    RigidTransformMd T = RigidTransformMd::Random();
    RigidTransformQd U{Eigen::Quaterniond::Identity(), Eigen::Vector3d{1., 2., 3.}};
    U = inverse(T);
    U = U * T;
    return int(U.translation().eval().value()[0]);
}
