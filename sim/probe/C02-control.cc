// Derivatives through a shared handle. The probes must compile if this does.
#include "wave/geometry/dynamic.hpp"
#include "wave/geometry/geometry.hpp"
using namespace wave;
int main() {
    RotationMd R = RotationMd::Random();
    Translationd t{1., 2., 3.};
    auto p = makeProxy(R * t);
    auto d = p.jacobian(t);
    return int(p.eval().value()[0] + d(0, 0));
}
