// A user's compound of two vectors, one of which uses a leaf twice. The probes must compile
// if this does.
#include "compound.h"
int main() {
    wave::Translationd t{1., 2., 3.};
    auto s = t + t;
    auto e = Pair<decltype(s), const wave::Translationd &>{s, t};
    auto d = e.jacobian(t);
    return int(e.eval().get<0>().value()[0] + d(0, 0));
}
