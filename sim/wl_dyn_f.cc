// Shared nodes over leaves mapped onto the user's memory
#include "wl_fun.h"
namespace wl {
REGISTER(dyn_f) {
    dyn<Mul, L<mM>, L<mt>>("mul", "0 1 *");
    dyn<Mul, L<mM>, P<t>>("mul", "0 1 *");
    dyn<Mul, L<sM>, P<M>>("mul", "0 1 *");
    dyn<Inv, L<mQ>>("inv", "0 inv");
    dyn<Add, L<st>, P<t>>("add", "0 1 +");
    dyn<Add, P<t>, L<mt>>("add", "0 1 +");
    dyn<Mul, L<sT>, P<t>>("mul", "0 1 *");
    dyn<Mul, L<sU>, L<U>>("mul", "0 1 *");
    dyn<Exp, L<mr>>("exp", "0 exp");
    dyn<Add, L<T>, L<sw>>("boxplus", "0 1 +");
    dyn<Mul, L<kM>, P<t>>("mul", "0 1 *");
    dyn<Sub, L<sp>, L<p>>("sub", "0 1 -");
    dynObj<Mul, L<mM>, L<st>>("mul", "0 1 *");
    dynObj<Mul, L<sT>, L<T>>("mul", "0 1 *");
}
}  // namespace wl
