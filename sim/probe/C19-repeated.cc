// The same with compounds of three.
#include "compound.h"
int main() {
    wave::Translationd t{1., 2., 3.};
    auto s = t + t;
    using T = const wave::Translationd &;
    auto e = Triple<decltype(s), T, T>{s, t, t};
    auto f = Triple<T, decltype(s), T>{t, s, t};
    auto d = e.jacobian(t);
    auto g = f.jacobian(t);
    return int(e.eval().get<0>().value()[0] + f.eval().get<1>().value()[0] + d(0, 0) + g(1, 1));
}
