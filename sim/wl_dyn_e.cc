// Dynamic fragments: compact rigid transforms; Dynamic objects used by reference
#include "wl_fun.h"
namespace wl {
REGISTER(dyn_e) {
    dyn<Mul, P<U>, P<U>>("mul", "0 1 *");
    dyn<Mul, P<U>, L<U>>("mul", "0 1 *");
    dyn<Mul, L<U>, P<U>>("mul", "0 1 *");
    dyn<Mul, P<T>, L<U>>("mulTU", "0 1 *");
    dyn<Mul, P<U>, P<T>>("mulUT", "0 1 *");
    dyn<Inv, P<U>>("inv", "0 inv");
    dyn<Mul, P<U>, P<t>>("mul", "0 1 *");
    dyn<Mul, P<U>, L<t>>("mul", "0 1 *");
    dyn<Rotation, P<U>>("rot", "0 rot");
    dyn<Transl, P<U>>("trans", "0 trans");
    dyn<Log, P<U>>("log", "0 log");
    dyn<Add, P<U>, L<w>>("boxplus", "0 1 +");
    dyn<Sub, P<U>, P<U>>("boxminus", "0 1 -");
    dyn<InvMul, P<U>, P<t>>("invmul", "0 inv 1 *");
    dynObj<Mul, L<M>, L<M>>("dynobj.mul", "0 1 *");
    dynObj<Mul, P<M>, L<M>>("dynobj.mul", "0 1 *");
    dynObj<Mul, L<Q>, L<Q>>("dynobj.mul", "0 1 *");
    dynObj<Add, L<t>, L<t>>("dynobj.add", "0 1 +");
    dynObj<Mul, L<M>, L<t>>("dynobj.mul", "0 1 *");
    dynObj<Mul, R<M>, L<M>>("dynobj.mul", "0 1 *");
    dynObj<Mul, R<M>, R<t>>("dynobj.mul", "0 1 *");
    dynObj<Add, R<t>, P<t>>("dynobj.add", "0 1 +");
    dynObj<Mul, L<T>, V<T>>("dynobj.mul", "0 1 *");
    dynObj<Add, L<r>, V<r>>("dynobj.add", "0 1 +");
    dynObj<Mul, L<s>, V<s>>("dynobj.mul", "0 1 *");
    dynObj<Same, L<M>>("dynobj.leaf", "0");
    dynObj<Same, L<t>>("dynobj.leaf", "0");
    dynObj<Own, V<Q>>("dynobj.leaf", "0");
    dynObj<Inv, Y<Q>>("dynobj.inv", "0 inv");
    dynObj<InvMul, L<U>, R<t>>("dynobj.invmul", "0 inv 1 *");
    dynObj<Log, X<M>>("dynobj.log", "0 log");
    dynObj<Exp, R<r>>("dynobj.exp", "0 exp");
    dynObj<Norm, R<t>>("dynobj.norm", "0 norm");
}
}  // namespace wl
