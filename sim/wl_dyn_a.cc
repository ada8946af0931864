// Dynamic fragments: rotations and vectors
#include "wl_fun.h"
namespace wl {
REGISTER(dyn_a) {
    // matrix rotations
    dyn<Mul, P<M>, P<M>>("mul", "0 1 *");
    dyn<Mul, P<M>, L<M>>("mul", "0 1 *");
    dyn<Mul, L<M>, P<M>>("mul", "0 1 *");
    dyn<Mul, L<M>, L<M>>("mul", "0 1 *");
    dyn<Mul, X<M>, V<M>>("mul", "0 1 *");
    dyn<Mul, P<M>, P<t>>("mul", "0 1 *");
    dyn<Mul, P<M>, L<t>>("mul", "0 1 *");
    dyn<Mul, L<M>, P<t>>("mul", "0 1 *");
    dyn<Mul, L<M>, L<t>>("mul", "0 1 *");
    dyn<Exp, P<r>>("exp", "0 exp");
    dyn<Exp, L<r>>("exp", "0 exp");
    dyn<Log, P<M>>("log", "0 log");
    dyn<Log, L<Q>>("log", "0 log");
    dyn<Add, P<M>, L<r>>("boxplus", "0 1 +");
    dyn<Add, L<M>, P<r>>("boxplus", "0 1 +");
    dyn<Sub, P<M>, P<M>>("boxminus", "0 1 -");
    dyn<Sub, P<M>, P<Q>>("boxminus", "0 1 -");
    dyn<Sub, L<Q>, P<Q>>("boxminus", "0 1 -");
    dyn<MulInv, P<M>, P<M>>("mulinv", "0 1 inv *");
    dyn<InvMul, P<M>, P<t>>("invmul", "0 inv 1 *");
    dyn<Mul3, P<M>, L<M>, P<M>>("mul3", "0 1 * 2 *");
    dyn<Mul3r, L<M>, P<M>, P<t>>("mul3r", "0 1 2 * *");
    dyn<Chain4, P<M>, P<M>, L<M>, P<t>>("chain4", "0 1 inv * 2 * 3 *");
    // through references to Dynamic objects
    dyn<Mul, R<M>, P<M>>("mul", "0 1 *");
    dyn<Mul, Y<M>, L<t>>("mul", "0 1 *");
    dyn<Add, P<t>, R<t>>("add", "0 1 +");
    dyn<Mul, R<T>, L<t>>("mul", "0 1 *");
}
}  // namespace wl
