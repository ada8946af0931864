// Forward derivative of a binary expression of a shared handle and a leaf.
#include "wave/geometry/dynamic.hpp"
#include "wave/geometry/geometry.hpp"
using namespace wave;
int main() {
    RotationMd R = RotationMd::Random();
    Translationd t{1., 2., 3.};
    Proxy<RotationMd> p = makeProxy(R * RotationMd{});
    auto d = internal::evaluateJacobian(p * t, R);
    auto g = internal::evaluateJacobian(p * t, t);
    return int(d(0, 0) + g(0, 0));
}
