// Dynamic fragments: rigid transforms
#include "wl_fun.h"
namespace wl {
REGISTER(dyn_d) {
    dyn<Mul, P<T>, P<T>>("mul", "0 1 *");
    dyn<Mul, P<T>, L<T>>("mul", "0 1 *");
    dyn<Mul, L<T>, L<T>>("mul", "0 1 *");
    dyn<Mul, L<T>, P<T>>("mul", "0 1 *");
    dyn<Inv, P<T>>("inv", "0 inv");
    dyn<Inv, L<T>>("inv", "0 inv");
    dyn<Mul, P<T>, P<t>>("mul", "0 1 *");
    dyn<Mul, P<T>, L<t>>("mul", "0 1 *");
    dyn<Mul, L<T>, P<t>>("mul", "0 1 *");
    dyn<Rotation, P<T>>("rot", "0 rot");
    dyn<Transl, P<T>>("trans", "0 trans");
    dyn<Transl, L<T>>("trans", "0 trans");
    dyn<Exp, P<w>>("exp", "0 exp");
    dyn<Exp, L<w>>("exp", "0 exp");
    dyn<Log, P<T>>("log", "0 log");
    dyn<Sub, P<T>, P<T>>("boxminus", "0 1 -");
    dyn<Add, P<T>, P<w>>("boxplus", "0 1 +");
    dyn<Add, P<w>, P<w>>("add", "0 1 +");
    dyn<Neg, P<w>>("neg", "0 neg");
    dyn<Times2, P<w>>("x2.5", "#2.5 0 *");
    dyn<InvMul, P<T>, P<T>>("invmul", "0 inv 1 *");
    dyn<TrDist, P<T>, P<t>>("trdist", "0 trans 1 - norm");
}
}  // namespace wl
