// Assigning an expression to a compound of leaves.
#include "compound.h"
int main() {
    using C = Pair<wave::RelativeRotationd, wave::Translationd>;
    C a{wave::RelativeRotationd{1., 2., 3.}, wave::Translationd{1., 2., 3.}}, b = a;
    a = a - b;
    return int(a.get<0>().value()[0]);
}
