// Assigning expressions to leaves. The probes must compile if this does.
#include "wave/geometry/dynamic.hpp"
#include "wave/geometry/geometry.hpp"
using namespace wave;
int main() {
    RigidTransformMd T = RigidTransformMd::Random();
    T = inverse(T);
    Translationd t{1., 2., 3.};
    t = t + t;
    return int(T.value()(0, 0) + t.value()[0]);
}
