// Assignments into parts of a leaf, including ones whose source is the leaf itself.
// Operand 0 of each program is the leaf before the assignment.
#include "wl_blockimpl.h"
namespace wl {
BLOCK1(SetRot, x.rotation() = a)
BLOCK1(SetTrans, x.translation() = a)
BLOCK2(SetRotMul, x.rotation() = a * b)
BLOCK1(SetRotInv, x.rotation() = inverse(a))
BLOCK2(SetTransMul, x.translation() = a * b)
BLOCK2(SetTransAdd, x.translation() = a + b)
BLOCK0(RotInvSelf, x.rotation() = inverse(x.rotation()))
BLOCK1(RotMulSelf, x.rotation() = x.rotation() * a)
BLOCK1(RotPreMulSelf, x.rotation() = a * x.rotation())
BLOCK0(TransRotSelf, x.translation() = x.rotation() * x.translation())
BLOCK0(TransInvRotSelf, x.translation() = inverse(x.rotation()) * x.translation())
BLOCK1(TransAddSelf, x.translation() = x.translation() + a)
BLOCK0(TransNegSelf, x.translation() = -x.translation())
BLOCK0(TransOfInverse, x.translation() = inverse(x).translation())
BLOCK0(RotOfInverse, x.rotation() = inverse(x).rotation())
BLOCK1(TwistSwap, x.rotation() = a)
BLOCK0(InvSelf, x = inverse(x))
BLOCK0(SquareSelf, x = x *x)
BLOCK0(NegSelf, x = -x)
BLOCK0(ScaleSelf, x = 0.5 * x)
BLOCK0(UnitSelf, x = x.normalized())

BLOCK2(AssignMul, x = a * b)
BLOCK2(AssignAdd, x = a + b)
BLOCK1(AssignInv, x = inverse(a))

template <int l>
void rt() {
    block<SetRot, l, L<M>>("setrot", "0 1 setrot");
    block<SetRotMul, l, L<M>, L<M>>("setrotmul", "0 1 2 * setrot");
    block<SetRotInv, l, L<M>>("setrotinv", "0 1 inv setrot");
    block<SetTrans, l, L<t>>("settrans", "0 1 settrans");
    block<SetTransMul, l, L<M>, L<t>>("settransmul", "0 1 2 * settrans");
    block<SetTransAdd, l, L<t>, L<t>>("settransadd", "0 1 2 + settrans");
    block<RotInvSelf, l>("rotinvself", "0 0 rot inv setrot");
    block<RotMulSelf, l, L<M>>("rotmulself", "0 0 rot 1 * setrot");
    block<RotPreMulSelf, l, L<M>>("rotpremulself", "0 1 0 rot * setrot");
    block<TransRotSelf, l>("transrotself", "0 0 rot 0 trans * settrans");
    block<TransInvRotSelf, l>("transinvrotself", "0 0 rot inv 0 trans * settrans");
    block<TransAddSelf, l, L<t>>("transaddself", "0 0 trans 1 + settrans");
    block<TransNegSelf, l>("transnegself", "0 0 trans neg settrans");
    block<TransOfInverse, l>("transofinverse", "0 0 inv trans settrans");
    block<RotOfInverse, l>("rotofinverse", "0 0 inv rot setrot");
    block<InvSelf, l>("invself", "0 inv");
    block<SquareSelf, l>("squareself", "0 0 *");
}
REGISTER(block) {
    rt<T>();
    rt<U>();
    block<SetRot, U, L<Q>>("setrot", "0 1 setrot");
    block<SetRotMul, U, L<Q>, L<Q>>("setrotmul", "0 1 2 * setrot");
    block<RotMulSelf, U, L<Q>>("rotmulself", "0 0 rot 1 * setrot");
    block<SetRot, w, L<r>>("settwistrot", "0 1 setrot");
    block<SetTrans, w, L<t>>("settwisttrans", "0 1 settrans");
    block<TransNegSelf, w>("twisttransneg", "0 0 trans neg settrans");
    block<NegSelf, w>("negself", "0 neg");
    block<ScaleSelf, w>("scaleself", "#0.5 0 *");
    block<InvSelf, M>("invself", "0 inv");
    block<InvSelf, Q>("invself", "0 inv");
    block<InvSelf, A>("invself", "0 inv");
    block<SquareSelf, M>("squareself", "0 0 *");
    block<SquareSelf, Q>("squareself", "0 0 *");
    block<NegSelf, t>("negself", "0 neg");
    block<ScaleSelf, t>("scaleself", "#0.5 0 *");
    block<AssignMul, mM, L<M>, L<M>>("mapassignmul", "1 2 *");
    block<AssignInv, mM, L<M>>("mapassigninv", "1 inv");
    block<InvSelf, mM>("invself", "0 inv");
    block<AssignMul, mQ, L<Q>, L<Q>>("mapassignmul", "1 2 *");
    block<InvSelf, mQ>("invself", "0 inv");
    block<AssignAdd, mt, L<t>, L<t>>("mapassignadd", "1 2 +");
    block<NegSelf, mt>("negself", "0 neg");
    block<AssignAdd, mr, L<r>, L<r>>("mapassignadd", "1 2 +");
    block<UnitSelf, t>("unitself", "0 unit");
    block<SquareSelf, s>("squareself", "0 0 *");
}
}  // namespace wl
