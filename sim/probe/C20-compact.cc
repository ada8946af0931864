// A compact rigid transform mapped onto the caller's memory.
#include "wave/geometry/core.hpp"
#include "wave/geometry/geometry.hpp"
int main() {
    double q[4] = {0, 0, 0, 1}, v[3] = {1, 2, 3};
    using Q = Eigen::Map<Eigen::Quaterniond>;
    using V = Eigen::Map<Eigen::Vector3d>;
    wave::CompactRigidTransform<Q, V> m{Q{q}, V{v}};
    wave::RigidTransformQd n{m * m};
    auto d = (m * n).jacobian(m);
    return int(n.translation().eval().value()[0] + d(0, 0));
}
