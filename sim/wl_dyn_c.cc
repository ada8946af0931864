// Dynamic fragments: vector spaces
#include "wl_fun.h"
namespace wl {
REGISTER(dyn_c) {
    dyn<Add, P<t>, P<t>>("add", "0 1 +");
    dyn<Add, P<t>, L<t>>("add", "0 1 +");
    dyn<Add, L<t>, L<t>>("add", "0 1 +");
    dyn<Sub, P<t>, P<t>>("sub", "0 1 -");
    dyn<Sub, L<t>, P<t>>("sub", "0 1 -");
    dyn<Neg, P<t>>("neg", "0 neg");
    dyn<Neg, L<t>>("neg", "0 neg");
    dyn<Times2, P<t>>("x2.5", "#2.5 0 *");
    dyn<Mul, P<s>, P<t>>("scale", "0 1 *");
    dyn<Div, P<t>, P<s>>("div", "0 1 /");
    dyn<Norm, P<t>>("norm", "0 norm");
    dyn<Norm, L<t>>("norm", "0 norm");
    dyn<SqNorm, P<t>>("sqnorm", "0 sqn");
    dyn<Unit, P<t>>("unit", "0 unit");
    dyn<Dot, P<t>, P<t>>("dot", "0 1 dot");
    dyn<DotUnit, P<t>, L<t>>("dotunit", "0 unit 1 unit dot");
    dyn<NormSub, P<t>, P<t>>("normsub", "0 1 - norm");
    dyn<Add, P<r>, P<r>>("add", "0 1 +");
    dyn<Add, P<r>, L<r>>("add", "0 1 +");
    dyn<Times2, L<r>>("x2.5", "#2.5 0 *");
    dyn<Neg, P<r>>("neg", "0 neg");
    dyn<AddScaled, P<r>, P<r>>("addscaled", "0 #0.5 1 * +");
    dyn<Add, P<p>, P<t>>("add", "0 1 +");
    dyn<Add, P<p>, L<t>>("add", "0 1 +");
    dyn<Sub, P<p>, P<p>>("sub", "0 1 -");
    dyn<Sub, L<p>, P<p>>("sub", "0 1 -");
    dyn<Add, L<p>, P<t>>("add", "0 1 +");
    dyn<Mul, P<s>, P<s>>("mul", "0 1 *");
    dyn<Mul, P<s>, L<s>>("mul", "0 1 *");
    dyn<Mul, L<s>, L<s>>("mul", "0 1 *");
    dyn<Neg, P<s>>("neg", "0 neg");
    dyn<Add, P<s>, P<s>>("add", "0 1 +");
    dyn<Sub, P<s>, L<s>>("sub", "0 1 -");
    dyn<Lerp, P<t>, P<t>, L<t>>("lerp", "0 #0.25 1 2 - * +");
    dyn<NormMulSub, P<M>, L<t>, P<t>>("normmulsub", "0 1 * 2 - norm");
    dyn<Add, R<r>, P<r>>("add", "0 1 +");
    dyn<Mul, R<s>, P<s>>("mul", "0 1 *");
    dyn<Sub, R<t>, Y<t>>("sub", "0 1 -");
}
}  // namespace wl
