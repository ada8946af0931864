// Shared handles to expressions. The probes must compile if this does.
#include "wave/geometry/dynamic.hpp"
#include "wave/geometry/geometry.hpp"
using namespace wave;
int main() {
    Translationd t{1., 2., 3.};
    Proxy<Translationd> p = makeProxy(t + t);
    return int(p.eval().value()[0]);
}
