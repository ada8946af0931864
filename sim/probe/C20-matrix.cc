// A matrix rigid transform mapped onto the caller's memory.
#include "wave/geometry/core.hpp"
#include "wave/geometry/geometry.hpp"
int main() {
    double buf[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 1, 2, 3, 1};
    using Map = Eigen::Map<Eigen::Matrix4d>;
    wave::MatrixRigidTransform<Map> m{Map{buf}};
    wave::RigidTransformMd n{m * m};
    m = n * inverse(m);
    auto d = (m * n).jacobian(m);
    return int(n.value()(0, 3) + d(0, 0));
}
