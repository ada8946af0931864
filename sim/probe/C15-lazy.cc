// Shared handles to expressions of which Eigen evaluates the result later.
#include "wave/geometry/dynamic.hpp"
#include "wave/geometry/geometry.hpp"
using namespace wave;
int main() {
    Translationd t{1., 2., 3.};
    Proxy<Translationd> p = makeProxy(-t);
    Proxy<Translationd> q = makeProxy(2.5 * t);
    return int(p.eval().value()[0] + q.eval().value()[0]);
}
