// Reverse-mode derivatives below the inverse of a matrix rotation.
#include "wave/geometry/dynamic.hpp"
#include "wave/geometry/geometry.hpp"
using namespace wave;
int main() {
    RotationMd R = RotationMd::Random();
    Translationd t{1., 2., 3.};
    Proxy<Translationd> p = makeProxy(R * t);
    auto e = inverse(R) * p;
    auto m = internal::evaluateWithDynamicReverseJacobians(e);
    return int(m.second.at(&R)(0, 0));
}
