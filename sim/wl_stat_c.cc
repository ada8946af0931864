// Static expressions: vector spaces and scalars
#include "wl_fun.h"
namespace wl {
REGISTER(stat_c) {
    stat<Add, L<t>, L<t>>("add", "0 1 +");
    stat<Add, V<t>, L<t>>("add", "0 1 +");
    stat<Sub, L<t>, V<t>>("sub", "0 1 -");
    stat<NegSub, L<t>, L<t>>("negsub", "0 neg 1 -");
    stat<Times2, L<t>>("x2.5", "#2.5 0 *");
    stat<Times2, V<t>>("x2.5", "#2.5 0 *");
    stat<DivC, L<t>>("div4", "0 #4 /");
    stat<Mul, L<s>, L<t>>("scale", "0 1 *");
    stat<Mul, V<s>, L<t>>("scale", "0 1 *");
    stat<Div, L<t>, L<s>>("div", "0 1 /");
    stat<Norm, L<t>>("norm", "0 norm");
    stat<NormSub, L<t>, L<t>>("normsub", "0 1 - norm");
    stat<NormNegAdd, V<t>, L<t>>("normnegadd", "0 1 + neg norm");
    stat<DotUnit, L<t>, L<t>>("dotunit", "0 unit 1 unit dot");
    stat<Dot, L<t>, V<t>>("dot", "0 1 dot");
    stat<Lerp, L<t>, V<t>, L<t>>("lerp", "0 #0.25 1 2 - * +");
    stat<Add, L<p>, L<t>>("add", "0 1 +");
    stat<Sub, L<p>, L<p>>("sub", "0 1 -");
    stat<NormSub, L<p>, L<p>>("normsub", "0 1 - norm");
    stat<Mul, L<s>, L<s>>("mul", "0 1 *");
    stat<Add, L<s>, V<s>>("add", "0 1 +");
    stat<Neg, V<s>>("neg", "0 neg");
    stat<Add, L<r>, V<r>>("add", "0 1 +");
    stat<AddScaled, L<w>, L<w>>("addscaled", "0 #0.5 1 * +");
}
}  // namespace wl
