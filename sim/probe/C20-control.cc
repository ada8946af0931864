// Transforms mapped onto the caller's memory, as far as they always worked. The probes must
// compile if this does.
#include "wave/geometry/core.hpp"
#include "wave/geometry/geometry.hpp"
int main() {
    double buf[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}, vec[3] = {1, 2, 3};
    wave::MatrixRotation<Eigen::Map<Eigen::Matrix3d>> r{Eigen::Map<Eigen::Matrix3d>{buf}};
    wave::Translation<Eigen::Map<Eigen::Vector3d>> t{Eigen::Map<Eigen::Vector3d>{vec}};
    wave::Translationd s{r * t};
    t = r * s;
    return int(s.value()[0]);
}
