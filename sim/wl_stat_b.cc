// Static expressions: quaternion and angle-axis rotations
#include "wl_fun.h"
namespace wl {
REGISTER(stat_b) {
    stat<Mul, L<Q>, L<Q>>("mul", "0 1 *");
    stat<Mul, V<Q>, V<Q>>("mul", "0 1 *");
    stat<Mul, L<Q>, L<t>>("mul", "0 1 *");
    stat<Inv, L<Q>>("inv", "0 inv");
    stat<Mul, L<Q>, L<M>>("mulQM", "0 1 *");
    stat<Mul3, L<M>, L<Q>, L<t>>("mul3", "0 1 * 2 *");
    stat<InvMul, L<Q>, V<t>>("invmul", "0 inv 1 *");
    stat<InvMulInv, L<Q>, V<Q>>("invmulinv", "0 1 * inv");
    stat<Inv, L<A>>("inv", "0 inv");
    stat<Mul, L<A>, L<t>>("mul", "0 1 *");
    stat<Mul, L<A>, L<M>>("mul", "0 1 *");
    stat<Add, L<Q>, L<r>>("boxplus", "0 1 +");
    stat<Add, L<Q>, V<r>>("boxplus", "0 1 +");
    stat<Sub, L<Q>, L<Q>>("boxminus", "0 1 -");
    stat<Sub, L<Q>, L<M>>("boxminus", "0 1 -");
    stat<Log, L<Q>>("log", "0 log");
    stat<NegLog, L<Q>>("neglog", "0 log neg");
    stat<Exp, L<r>>("exp", "0 exp");
    stat<ExpNeg, L<r>>("expneg", "0 neg exp");
    stat<InvExp, L<r>>("invexp", "0 exp inv");
    stat<ScaleLog, L<Q>, L<M>>("scalelog", "#0.5 0 log * exp 1 *");
    stat<Chain4, L<Q>, V<Q>, L<Q>, V<t>>("chain4", "0 1 inv * 2 * 3 *");
}
}  // namespace wl
