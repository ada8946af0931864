// Static expressions: compact rigid transforms; leaves with coordinate frames
#include "wl_fun.h"
namespace wl {
REGISTER(stat_e) {
    stat<Mul, L<U>, L<T>>("mulUT", "0 1 *");
    stat<Mul, L<U>, L<t>>("mul", "0 1 *");
    stat<Mul, L<U>, V<t>>("mul", "0 1 *");
    stat<Inv, L<U>>("inv", "0 inv");
    stat<InvMul, L<U>, L<t>>("invmul", "0 inv 1 *");
    stat<Rotation, L<U>>("rot", "0 rot");
    stat<Rotation, V<U>>("rot", "0 rot");
    stat<RotOfMul, V<U>, L<U>>("rotofmul", "0 1 * rot");
    stat<Transl, V<U>>("trans", "0 trans");
    stat<Log, L<U>>("log", "0 log");
    stat<Mul3, L<U>, V<U>, L<t>>("mul3", "0 1 * 2 *");
    stat<Mul, L<fQ>, L<ft>>("mul", "0 1 *");
    stat<Mul, L<fQ>, V<fQ>>("mul", "0 1 *");
    stat<InvMul, L<fQ>, V<ft>>("invmul", "0 inv 1 *");
    stat<Mul, L<fU>, L<fU>>("mul", "0 1 *");
    stat<Inv, V<fU>>("inv", "0 inv");
    stat<Add, L<ft>, L<ft>>("add", "0 1 +");
    stat<MulPlus, L<fQ>, L<ft>, V<ft>>("mulplus", "0 1 * 2 +");
    stat<Exp, V<fr>>("exp", "0 exp");
    stat<Add, L<fr>, L<fr>>("add", "0 1 +");
    stat<Sub, L<fQ>, L<fQ>>("boxminus", "0 1 -");
}
}  // namespace wl
