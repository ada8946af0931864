// Static expressions: mapped leaves; static expressions over proxies and dynamic objects
#include "wl_fun.h"
namespace wl {
REGISTER(stat_f) {
    stat<Mul, L<mM>, L<mt>>("mul", "0 1 *");
    stat<Mul, L<mM>, L<M>>("mul", "0 1 *");
    stat<Mul, L<mQ>, L<t>>("mul", "0 1 *");
    stat<Mul, L<mQ>, L<Q>>("mul", "0 1 *");
    stat<Inv, L<mM>>("inv", "0 inv");
    stat<Add, L<mt>, L<t>>("add", "0 1 +");
    stat<NormSub, L<mt>, L<mt>>("normsub", "0 1 - norm");
    stat<Exp, L<mr>>("exp", "0 exp");
    stat<Mul, P<M>, L<t>>("mul", "0 1 *");
    stat<Mul, P<M>, P<M>>("mul", "0 1 *");
    stat<Mul, X<M>, V<t>>("mul", "0 1 *");
    stat<InvMul, P<M>, L<t>>("invmul", "0 inv 1 *");
    stat<Mul, P<Q>, L<Q>>("mul", "0 1 *");
    stat<Add, P<t>, V<t>>("add", "0 1 +");
    stat<Sub, P<t>, P<t>>("sub", "0 1 -");
    stat<Mul, P<T>, L<T>>("mul", "0 1 *");
    stat<Mul, P<U>, P<t>>("mul", "0 1 *");
    stat<Add, P<Q>, P<r>>("boxplus", "0 1 +");
    stat<Log, P<M>>("log", "0 log");
    stat<Mul, R<M>, L<t>>("mul", "0 1 *");
    stat<Mul, Y<M>, R<t>>("mul", "0 1 *");
    stat<InvMul, R<Q>, L<t>>("invmul", "0 inv 1 *");
    stat<MulPlus, R<M>, L<t>, Y<t>>("mulplus", "0 1 * 2 +");
    stat<Mul, R<T>, P<T>>("mul", "0 1 *");
    stat<Sub, R<t>, R<t>>("sub", "0 1 -");
    stat<Mul, P<s>, L<s>>("mul", "0 1 *");
}
}  // namespace wl
