// Dynamic fragments: quaternion and angle-axis rotations
#include "wl_fun.h"
namespace wl {
REGISTER(dyn_b) {
    dyn<Mul, P<Q>, P<Q>>("mul", "0 1 *");
    dyn<Mul, P<Q>, L<Q>>("mul", "0 1 *");
    dyn<Mul, L<Q>, L<Q>>("mul", "0 1 *");
    dyn<Mul, L<Q>, X<Q>>("mul", "0 1 *");
    dyn<Mul, V<Q>, P<Q>>("mul", "0 1 *");
    dyn<Inv, P<Q>>("inv", "0 inv");
    dyn<Inv, L<Q>>("inv", "0 inv");
    dyn<Mul, P<Q>, P<t>>("mul", "0 1 *");
    dyn<Mul, P<Q>, L<t>>("mul", "0 1 *");
    dyn<Mul, L<Q>, P<t>>("mul", "0 1 *");
    dyn<Add, P<Q>, P<r>>("boxplus", "0 1 +");
    dyn<Mul, P<M>, L<Q>>("mulMQ", "0 1 *");
    dyn<Mul, P<Q>, P<M>>("mulQM", "0 1 *");
    dyn<Inv, P<A>>("inv", "0 inv");
    dyn<Inv, L<A>>("inv", "0 inv");
    dyn<Mul, P<A>, P<M>>("mul", "0 1 *");
    dyn<Mul, P<A>, P<A>>("mul", "0 1 *");
    dyn<Mul, L<A>, P<t>>("mul", "0 1 *");
    dyn<InvMulInv, P<Q>, P<Q>>("invmulinv", "0 1 * inv");
    dyn<ExpMul, P<r>, P<Q>>("expmul", "0 exp 1 *");
    dyn<LogMulInv, P<Q>, P<Q>>("logmulinv", "0 1 inv * log");
    dyn<Mul3, P<Q>, P<Q>, P<t>>("mul3", "0 1 * 2 *");
    dyn<Mul, R<Q>, P<Q>>("mul", "0 1 *");
    dyn<Inv, R<Q>>("inv", "0 inv");
    dyn<Mul, Y<Q>, R<Q>>("mul", "0 1 *");
}
}  // namespace wl
