// Parts of a temporary rigid transform expression.
#include "wave/geometry/dynamic.hpp"
#include "wave/geometry/geometry.hpp"
using namespace wave;
int main() {
    RigidTransformMd T = RigidTransformMd::Random();
    RotationMd R = RotationMd::Random();
    R = inverse(T).rotation();
    Translationd t{inverse(T).translation()};
    return int(R.value()(0, 0) + t.value()[0]);
}
