// Assignments which change representation; to and from mapped leaves and compounds
#include "wl_blockimpl.h"
namespace wl {
BLOCK1(Assign, x = a)
BLOCK2(AsMul, x = a *b)
BLOCK2(AsAdd, x = a + b)
BLOCK2(AsSub, x = a - b)
BLOCK1(AsInv, x = inverse(a))
BLOCK1(AsExp, x = exp(a))
BLOCK1(AsLog, x = log(a))
BLOCK1(AsMulSelf, x = a *x)
BLOCK1(AsSelfMul, x = x *a)
BLOCK1(AsAddSelf, x = a + x)
BLOCK1(AsSubSelf, x = a - x)
BLOCK2(AsMulSelfMul, x = a *x *b)
BLOCK1(Swapped, x.translation() = a.translation(); x.rotation() = a.rotation())
BLOCK1(BoxSelf, x = x + a)
BLOCK1(ByPart, {
    auto y = x;
    x.translation() = a.rotation() * y.translation();
})
BLOCK1(AsValue, x = a.eval())

REGISTER(block_b) {
#define CONV(to, from)                                        \
    block<Assign, to, L<from>>("conv_" #from, "1");           \
    block<AsMul, to, L<from>, L<from>>("convmul_" #from, "1 2 *"); \
    block<AsInv, to, L<from>>("convinv_" #from, "1 inv");
    CONV(M, Q)
    CONV(M, A)
    CONV(Q, M)
    CONV(Q, A)
    CONV(A, M)
    CONV(A, Q)
    CONV(M, mM)
    CONV(M, mQ)
    CONV(Q, mQ)
    CONV(mM, Q)
    CONV(mQ, M)
    CONV(mM, mM)
    CONV(mQ, mQ)
    block<AsMulSelf, mM, L<M>>("mulself", "1 0 *");
    block<AsSelfMul, mM, L<M>>("selfmul", "0 1 *");
    block<AsMulSelf, mM, L<mM>>("mulself", "1 0 *");
    block<AsMulSelf, mQ, L<Q>>("mulself", "1 0 *");
    block<AsMulSelfMul, mM, L<M>, L<mM>>("mulselfmul", "1 0 * 2 *");
    block<AsMulSelfMul, mQ, L<Q>, L<mQ>>("mulselfmul", "1 0 * 2 *");
    block<AsMulSelf, mt, L<M>>("mulself", "1 0 *");
    block<AsMulSelf, mt, L<mM>>("mulself", "1 0 *");
    block<AsMulSelf, mt, L<mQ>>("mulself", "1 0 *");
    block<AsMul, mt, L<T>, L<mt>>("mul", "1 2 *");
    block<AsAddSelf, mt, L<mt>>("addself", "1 0 +");
    block<AsSubSelf, mt, L<mt>>("subself", "1 0 -");
    block<AsSub, mt, L<mt>, L<t>>("sub", "1 2 -");
    block<AsAddSelf, mr, L<mr>>("addself", "1 0 +");
    block<AsLog, mr, L<mM>>("log", "1 log");
    block<AsLog, mr, L<Q>>("log", "1 log");
    block<AsLog, r, L<mM>>("log", "1 log");
    block<AsExp, mM, L<mr>>("exp", "1 exp");
    block<AsExp, mM, L<r>>("exp", "1 exp");
    block<AsMulSelf, t, L<mM>>("mulself", "1 0 *");
    block<AsMul, t, L<mM>, L<mt>>("mul", "1 2 *");
    block<Assign, t, L<mt>>("assign", "1");
    block<Assign, mt, L<t>>("assign", "1");
    block<Assign, mt, L<mt>>("assign", "1");
    block<AsValue, t, L<mt>>("value", "1");
    CONV(T, U)
    CONV(U, T)
    CONV(fQ, fQ)
    CONV(fU, fU)
    block<Swapped, T, L<T>>("swapparts", "0 1 rot setrot 1 trans settrans");
    block<Swapped, U, L<T>>("swapparts", "0 1 rot setrot 1 trans settrans");
    block<Swapped, U, L<U>>("swapparts", "0 1 rot setrot 1 trans settrans");
    block<Swapped, w, L<w>>("swapparts", "0 1 rot setrot 1 trans settrans");
    block<AsExp, M, L<r>>("exp", "1 exp");
    block<AsExp, Q, L<r>>("exp", "1 exp");
    block<AsExp, A, L<r>>("exp", "1 exp");
    block<AsExp, T, L<w>>("exp", "1 exp");
    block<AsExp, U, L<w>>("exp", "1 exp");
    block<AsLog, w, L<T>>("log", "1 log");
    block<AsLog, w, L<U>>("log", "1 log");
    block<AsSub, w, L<U>, L<T>>("boxminus", "1 2 -");
    block<AsSub, r, L<A>, L<M>>("boxminus", "1 2 -");
    block<AsAdd, U, L<T>, L<w>>("boxplus", "1 2 +");
    block<AsAdd, Q, L<M>, L<r>>("boxplus", "1 2 +");
    block<AsAddSelf, t, L<t>>("addself", "1 0 +");
    block<AsSubSelf, t, L<t>>("subself", "1 0 -");
    block<AsAddSelf, w, L<w>>("addself", "1 0 +");
    block<AsSubSelf, w, L<w>>("subself", "1 0 -");
    block<AsAddSelf, s, L<s>>("addself", "1 0 +");
    block<AsSubSelf, s, L<s>>("subself", "1 0 -");
    block<AsMulSelf, s, L<s>>("mulself", "1 0 *");
    block<AsMulSelf, M, L<M>>("mulself", "1 0 *");
    block<AsSelfMul, M, L<Q>>("selfmul", "0 1 *");
    block<AsMulSelf, Q, L<Q>>("mulself", "1 0 *");
    block<AsSelfMul, Q, L<M>>("selfmul", "0 1 *");
    block<AsMulSelf, A, L<A>>("mulself", "1 0 *");
    block<AsMulSelf, T, L<T>>("mulself", "1 0 *");
    block<AsSelfMul, T, L<U>>("selfmul", "0 1 *");
    block<AsMulSelf, U, L<U>>("mulself", "1 0 *");
    block<AsSelfMul, U, L<T>>("selfmul", "0 1 *");
    block<AsMulSelfMul, U, L<U>, L<U>>("mulselfmul", "1 0 * 2 *");
    block<AsMulSelf, t, L<M>>("mulself", "1 0 *");
    block<AsMulSelf, t, L<Q>>("mulself", "1 0 *");
    block<AsMulSelf, t, L<T>>("mulself", "1 0 *");
    block<AsMulSelf, t, L<U>>("mulself", "1 0 *");
    block<BoxSelf, M, L<r>>("boxself", "0 1 +");
    block<BoxSelf, Q, L<r>>("boxself", "0 1 +");
    block<BoxSelf, T, L<w>>("boxself", "0 1 +");
    block<BoxSelf, U, L<w>>("boxself", "0 1 +");
    block<ByPart, T, L<T>>("bypart", "0 1 rot 0 trans * settrans");
    block<ByPart, U, L<U>>("bypart", "0 1 rot 0 trans * settrans");
    block<Assign, c5, L<c5>>("assign", "1");
    block<AsAddSelf, c5, L<c5>>("addself", "1 0 +");
    block<AsSubSelf, c5, L<c5>>("subself", "1 0 -");
    block<AsAddSelf, c, L<c>>("addself", "1 0 +");
    block<AsSubSelf, c, L<c>>("subself", "1 0 -");
    block<AsSub, c, L<c>, L<c>>("sub", "1 2 -");
    block<Assign, c, L<c>>("assign", "1");
}
}  // namespace wl
