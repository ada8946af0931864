// Static expressions: leaves mapped onto parts of the user's memory, and onto constants
#include "wl_fun.h"
namespace wl {
template <typename F>
struct Twice : F {
    static constexpr bool nojac = true;
};
REGISTER(stat_l) {
    stat<Mul, L<sM>, L<st>>("mul", "0 1 *");
    stat<Mul, W<sM>, L<st>>("mul", "0 1 *");
    stat<Mul, L<sM>, L<sM>>("mul", "0 1 *");
    stat<InvMul, L<sM>, L<M>>("invmul", "0 inv 1 *");
    stat<MulInv, L<mM>, L<sM>>("mulinv", "0 1 inv *");
    stat<Log, L<sM>>("log", "0 log");
    stat<Sub, L<sM>, L<Q>>("boxminus", "0 1 -");
    stat<Add, L<sM>, L<mr>>("boxplus", "0 1 +");
    stat<MulPlus, L<sM>, L<st>, L<st>>("mulplus", "0 1 * 2 +");
    stat<Neg, L<st>>("neg", "0 neg");
    stat<NormSub, L<st>, V<t>>("normsub", "0 1 - norm");
    stat<Add, W<st>, L<t>>("add", "0 1 +");
    stat<Sub, L<st>, L<st>>("sub", "0 1 -");
    stat<Times2, L<st>>("x2.5", "#2.5 0 *");
    stat<Mul, L<ms>, L<st>>("scale", "0 1 *");
    stat<Mul, L<sT>, L<st>>("mul", "0 1 *");
    stat<Mul, L<sT>, L<T>>("mul", "0 1 *");
    stat<Mul, L<sT>, L<sT>>("mul", "0 1 *");
    stat<Mul, W<sT>, L<t>>("mul", "0 1 *");
    stat<Inv, L<sT>>("inv", "0 inv");
    stat<Log, L<sT>>("log", "0 log");
    stat<Rotation, L<sT>>("rot", "0 rot");
    stat<Transl, L<sT>>("trans", "0 trans");
    stat<Add, L<sT>, L<sw>>("boxplus", "0 1 +");
    stat<Sub, L<sT>, L<sU>>("boxminus", "0 1 -");
    stat<Mul, L<sU>, L<t>>("mul", "0 1 *");
    stat<Mul, W<sU>, L<mt>>("mul", "0 1 *");
    stat<Mul, L<sU>, L<U>>("mul", "0 1 *");
    stat<InvMulInv, L<sU>, L<sU>>("invmul", "0 1 * inv");
    stat<Log, L<sU>>("log", "0 log");
    stat<Transl, L<sU>>("trans", "0 trans");
    stat<TrDist, L<sU>, L<st>>("trdist", "0 trans 1 - norm");
    stat<Add, L<sw>, L<w>>("add", "0 1 +");
    stat<Exp, L<sw>>("exp", "0 exp");
    stat<Exp, W<sw>>("exp", "0 exp");
    stat<Neg, L<sw>>("neg", "0 neg");
    stat<Sub, L<sp>, L<p>>("sub", "0 1 -");
    stat<Add, L<sp>, L<st>>("add", "0 1 +");
    stat<Mul, L<kM>, L<kt>>("mul", "0 1 *");
    stat<Mul, W<kM>, L<st>>("mul", "0 1 *");
    stat<MulMinus, L<kM>, L<t>, L<kt>>("mulminus", "0 1 * 2 -");
    stat<LogMulInv, L<kM>, L<sM>>("logmulinv", "0 1 inv * log");
    stat<Inv, L<kM>>("inv", "0 inv");
    stat<Add, L<kt>, L<kt>>("add", "0 1 +");
    stat<Add, W<kt>, L<mt>>("add", "0 1 +");
}
}  // namespace wl
