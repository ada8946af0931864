// Static expressions: leaves mapped onto the user's memory
#include "wl_fun.h"
namespace wl {
// (the same memory may be in there twice, once as the leaf the derivative would be with respect to)
template <typename F>
struct Twice : F {
    static constexpr bool nojac = true;
};
REGISTER(stat_i) {
    stat<Mul, W<mM>, L<mt>>("mul", "0 1 *");
    stat<Mul, W<mM>, W<mt>>("mul", "0 1 *");
    stat<Twice<Mul>, L<mM>, W<mM>>("mul", "0 1 *");
    stat<MulInv, L<mM>, L<mM>>("mulinv", "0 1 inv *");
    stat<LogMulInv, L<mM>, L<M>>("logmulinv", "0 1 inv * log");
    stat<Twice<LogMulInv>, W<mQ>, L<mQ>>("logmulinv", "0 1 inv * log");
    stat<Inv, W<mQ>>("inv", "0 inv");
    stat<Log, L<mM>>("log", "0 log");
    stat<Log, W<mQ>>("log", "0 log");
    stat<Sub, L<mM>, L<mM>>("boxminus", "0 1 -");
    stat<Sub, L<M>, W<mQ>>("boxminus", "0 1 -");
    stat<Add, L<mM>, L<mr>>("boxplus", "0 1 +");
    stat<Add, W<mM>, L<r>>("boxplus", "0 1 +");
    stat<Mul, L<mQ>, L<mt>>("mul", "0 1 *");
    stat<Mul, L<T>, L<mt>>("mul", "0 1 *");
    stat<InvMul, L<T>, W<mt>>("invmul", "0 inv 1 *");
    stat<MulMinus, L<mM>, L<mt>, L<t>>("mulminus", "0 1 * 2 -");
    stat<Twice<MulPlus>, L<mQ>, W<mt>, L<mt>>("mulplus", "0 1 * 2 +");
    stat<Neg, W<mt>>("neg", "0 neg");
    stat<Norm, L<mt>>("norm", "0 norm");
    stat<Norm, W<mt>>("norm", "0 norm");
    stat<Times2, W<mt>>("x2.5", "#2.5 0 *");
    stat<Mul, L<ms>, L<mt>>("scale", "0 1 *");
    stat<DotUnit, L<mt>, L<mt>>("dotunit", "0 unit 1 unit dot");
    stat<Twice<Lerp>, W<mt>, L<mt>, L<t>>("lerp", "0 #0.25 1 2 - * +");
    stat<Twice<AddScaled>, L<mr>, W<mr>>("addscaled", "0 #0.5 1 * +");
    stat<ExpMul, L<mr>, L<mt>>("expmul", "0 exp 1 *");
    stat<ExpMul, W<mr>, L<mM>>("expmul", "0 exp 1 *");
    stat<Sub, L<mr>, L<r>>("sub", "0 1 -");
    stat<Mul, W<ms>, L<t>>("scale", "0 1 *");
    stat<Add, W<ms>, L<ms>>("add", "0 1 +");
    stat<Div, L<mt>, L<ms>>("div", "0 1 /");
    stat<Neg, W<ms>>("neg", "0 neg");
}
}  // namespace wl
