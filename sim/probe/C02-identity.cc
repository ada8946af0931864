// An operation whose derivative is the identity, on a shared handle, behind another.
#include "wave/geometry/dynamic.hpp"
#include "wave/geometry/geometry.hpp"
using namespace wave;
int main() {
    Translationd t{1., 2., 3.};
    Proxy<Translationd> p = makeProxy(t + t);
    Proxy<Translationd> q = makeProxy(p + t);
    auto d = q.jacobian(t);
    return int(q.eval().value()[0] + d(0, 0));
}
