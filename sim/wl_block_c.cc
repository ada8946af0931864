// Assignments to and from leaves mapped onto parts of the user's memory
#include "wl_blockimpl.h"
namespace wl {
BLOCK1(Assign, x = a)
BLOCK2(AsMul, x = a *b)
BLOCK1(AsInv, x = inverse(a))
BLOCK1(AsExp, x = exp(a))
BLOCK1(AsLog, x = log(a))
BLOCK1(AsMulSelf, x = a *x)
BLOCK1(AsSelfMul, x = x *a)
BLOCK0(InvSelf, x = inverse(x))
BLOCK1(AsAddSelf, x = a + x)
BLOCK1(AsSubSelf, x = a - x)
BLOCK2(AsSub, x = a - b)
BLOCK1(BoxSelf, x = x + a)
BLOCK1(SetRot, x.rotation() = a)
BLOCK1(SetTrans, x.translation() = a)
BLOCK1(RotByPart, x.translation() = x.rotation() * a)
BLOCK1(Swapped, x.translation() = a.translation(); x.rotation() = a.rotation())
REGISTER(block_c) {
#define CONV(to, from)                                        \
    block<Assign, to, L<from>>("conv_" #from, "1");           \
    block<AsMul, to, L<from>, L<from>>("convmul_" #from, "1 2 *"); \
    block<AsInv, to, L<from>>("convinv_" #from, "1 inv");
    CONV(sM, M)
    CONV(sM, sM)
    CONV(sM, Q)
    CONV(M, sM)
    CONV(mM, kM)
    CONV(sT, T)
    CONV(sT, sT)
    CONV(sT, U)
    CONV(T, sT)
    CONV(sU, U)
    CONV(sU, sU)
    CONV(sU, T)
    CONV(U, sU)
    block<AsMulSelf, sM, L<M>>("mulself", "1 0 *");
    block<AsSelfMul, sM, L<mM>>("selfmul", "0 1 *");
    block<InvSelf, sM>("invself", "0 inv");
    block<AsExp, sM, L<r>>("exp", "1 exp");
    block<AsMulSelf, sT, L<T>>("mulself", "1 0 *");
    block<AsSelfMul, sT, L<sT>>("selfmul", "0 1 *");
    block<InvSelf, sT>("invself", "0 inv");
    block<BoxSelf, sT, L<sw>>("boxself", "0 1 +");
    block<SetRot, sT, L<M>>("setrot", "0 1 setrot");
    block<SetTrans, sT, L<st>>("settrans", "0 1 settrans");
    block<RotByPart, sT, L<t>>("rotbypart", "0 0 rot 1 * settrans");
    block<Swapped, sT, L<U>>("swapparts", "0 1 rot setrot 1 trans settrans");
    block<AsSelfMul, sU, L<U>>("selfmul", "0 1 *");
    block<AsMulSelf, sU, L<sU>>("mulself", "1 0 *");
    block<InvSelf, sU>("invself", "0 inv");
    block<SetRot, sU, L<mQ>>("setrot", "0 1 setrot");
    block<SetTrans, sU, L<t>>("settrans", "0 1 settrans");
    block<RotByPart, sU, L<t>>("rotbypart", "0 0 rot 1 * settrans");
    block<Assign, st, L<t>>("assign", "1");
    block<Assign, t, L<st>>("assign", "1");
    block<Assign, st, L<st>>("assign", "1");
    block<Assign, st, L<kt>>("assign", "1");
    block<AsMulSelf, st, L<M>>("mulself", "1 0 *");
    block<AsMulSelf, st, L<sT>>("mulself", "1 0 *");
    block<AsAddSelf, st, L<mt>>("addself", "1 0 +");
    block<AsSubSelf, st, L<st>>("subself", "1 0 -");
    block<AsSub, st, L<sp>, L<p>>("sub", "1 2 -");
    block<Assign, sp, L<p>>("assign", "1");
    block<Assign, sw, L<w>>("assign", "1");
    block<AsLog, sw, L<T>>("log", "1 log");
    block<AsAddSelf, sw, L<sw>>("addself", "1 0 +");
    block<SetRot, sw, L<r>>("setrot", "0 1 setrot");
    block<SetTrans, sw, L<t>>("settrans", "0 1 settrans");
}
}  // namespace wl
