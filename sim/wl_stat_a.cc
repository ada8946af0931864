// Static expressions: rotations
#include "wl_fun.h"
namespace wl {
REGISTER(stat_a) {
    stat<Mul, L<M>, L<M>>("mul", "0 1 *");
    stat<Mul, L<M>, L<t>>("mul", "0 1 *");
    stat<Mul, V<M>, L<t>>("mul", "0 1 *");
    stat<Mul, L<M>, V<t>>("mul", "0 1 *");
    stat<Mul3, L<M>, L<M>, L<t>>("mul3", "0 1 * 2 *");
    stat<Mul3r, L<M>, V<M>, L<t>>("mul3r", "0 1 2 * *");
    stat<MulPlus, L<M>, L<t>, L<t>>("mulplus", "0 1 * 2 +");
    stat<Inv, L<M>>("inv", "0 inv");
    stat<InvMul, L<M>, L<M>>("invmul", "0 inv 1 *");
    stat<MulInv, L<M>, V<M>>("mulinv", "0 1 inv *");
    stat<InvMulInv, L<M>, L<M>>("invmulinv", "0 1 * inv");
    stat<LogMulInv, L<M>, L<M>>("logmulinv", "0 1 inv * log");
    stat<ExpMul, L<r>, L<M>>("expmul", "0 exp 1 *");
    stat<ExpMul, V<r>, L<M>>("expmul", "0 exp 1 *");
    stat<InvInv, V<M>>("invinv", "0 inv inv");
    stat<Chain4, L<M>, L<M>, V<M>, L<t>>("chain4", "0 1 inv * 2 * 3 *");
    stat<NormMulSub, L<M>, L<t>, L<t>>("normmulsub", "0 1 * 2 - norm");
    stat<Add, L<M>, L<r>>("boxplus", "0 1 +");
    stat<Sub, L<M>, L<M>>("boxminus", "0 1 -");
}
}  // namespace wl
