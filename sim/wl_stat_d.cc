// Static expressions: rigid transforms
#include "wl_fun.h"
namespace wl {
REGISTER(stat_d) {
    stat<Mul, L<T>, L<T>>("mul", "0 1 *");
    stat<Mul, V<T>, L<T>>("mul", "0 1 *");
    stat<Mul, L<T>, L<t>>("mul", "0 1 *");
    stat<Inv, L<T>>("inv", "0 inv");
    stat<InvMul, L<T>, L<T>>("invmul", "0 inv 1 *");
    stat<InvMul, V<T>, L<t>>("invmul", "0 inv 1 *");
    stat<MulInv, L<T>, V<T>>("mulinv", "0 1 inv *");
    stat<Rotation, L<T>>("rot", "0 rot");
    stat<Rotation, V<T>>("rot", "0 rot");
    stat<RotOfInv, L<T>>("rotofinv", "0 inv rot");
    stat<RotOfMul, L<T>, V<T>>("rotofmul", "0 1 * rot");
    stat<TransOfMul, L<T>, V<T>>("transofmul", "0 1 * trans");
    stat<Transl, L<T>>("trans", "0 trans");
    stat<TrDist, L<T>, L<t>>("trdist", "0 trans 1 - norm");
    stat<InvRotMul, L<T>, L<t>>("invrotmul", "0 rot inv 1 *");
    stat<Mul3, L<T>, L<T>, L<t>>("mul3", "0 1 * 2 *");
    stat<Exp, L<w>>("exp", "0 exp");
    stat<Log, L<T>>("log", "0 log");
    stat<ExpMul, L<w>, L<T>>("expmul", "0 exp 1 *");
    stat<Sub, L<T>, L<T>>("boxminus", "0 1 -");
    stat<Add, L<T>, L<w>>("boxplus", "0 1 +");
    stat<Mul, L<U>, L<U>>("mul", "0 1 *");
    stat<Mul, L<U>, V<U>>("mul", "0 1 *");
    stat<Mul, L<T>, L<U>>("mulTU", "0 1 *");
}
}  // namespace wl
