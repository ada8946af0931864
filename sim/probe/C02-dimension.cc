// Derivative of an expression of a shared handle with respect to a leaf of another dimension.
#include "wave/geometry/dynamic.hpp"
#include "wave/geometry/geometry.hpp"
using namespace wave;
int main() {
    RotationMd R = RotationMd::Random();
    Scalar<double> s{2.};
    Translationd t{1., 2., 3.};
    Proxy<Translationd> p = makeProxy(s * t);
    auto d = std::get<1>((R * p).evalWithJacobians(s));
    auto g = p.jacobian(s);
    return int(d(0, 0) + g(0, 0) + p.norm().jacobian(t)(0, 0));
}
