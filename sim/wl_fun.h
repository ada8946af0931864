#pragma once
#include "wlimpl.h"
namespace wl {
// operations
FUN2(Mul, (FW(a) * FW(b)))
FUN2(Add, (FW(a) + FW(b)))
FUN2(Sub, (FW(a) - FW(b)))
FUN2(Div, (FW(a) / FW(b)))
FUN2(Dot, (dot(FW(a), FW(b))))
FUN1(Neg, (-FW(a)))
FUN1(Inv, (inverse(FW(a))))
FUN1(Exp, (exp(FW(a))))
FUN1(Log, (log(FW(a))))
FUN1(Rotation, (FW(a).rotation()))
FUN1(Transl, (FW(a).translation()))
FUN1(RotOfInv, (inverse(FW(a)).rotation()))
FUN2(RotOfMul, ((FW(a) * FW(b)).rotation()))
FUN2(TransOfMul, ((FW(a) * FW(b)).translation()))
FUN1(Norm, (FW(a).norm()))
FUN1(SqNorm, (FW(a).squaredNorm()))
FUN1(Unit, (FW(a).normalized()))
FUN1(Times2, (2.5 * FW(a)))
FUN1(DivC, (FW(a) / 4.0))
FUN1(Acos, (acos(FW(a))))
// compositions
FUN3(Mul3, (FW(a) * FW(b) * FW(c)))
FUN3(Mul3r, (FW(a) * (FW(b) * FW(c))))
FUN2(InvMul, (inverse(FW(a)) * FW(b)))
FUN2(MulInv, (FW(a) * inverse(FW(b))))
FUN2(InvMulInv, (inverse(FW(a) * FW(b))))
FUN2(ExpMul, (exp(FW(a)) * FW(b)))
FUN2(LogMulInv, (log(FW(a) * inverse(FW(b)))))
FUN3(MulPlus, (FW(a) * FW(b) + FW(c)))
FUN3(MulMinus, (FW(a) * FW(b) - FW(c)))
FUN4(Chain4, (FW(a) * inverse(FW(b)) * FW(c) * FW(d)))
FUN2(NormSub, ((FW(a) - FW(b)).norm()))
FUN3(NormMulSub, ((FW(a) * FW(b) - FW(c)).norm()))
FUN2(NormNegAdd, ((-(FW(a) + FW(b))).norm()))
FUN2(DotUnit, (dot(FW(a).normalized(), FW(b).normalized())))
FUN2(TrDist, ((FW(a).translation() - FW(b)).norm()))
FUN3(Lerp, (FW(a) + 0.25 * (FW(b) - FW(c))))
FUN2(InvRotMul, (inverse(FW(a).rotation()) * FW(b)))
FUN2(ScaleLog, (exp(0.5 * log(FW(a))) * FW(b)))
FUN3(ScaleDiv, ((FW(a) * FW(b)) / FW(c)))
FUN2(NegSub, (-FW(a) - FW(b)))
FUN1(ExpNeg, (exp(-FW(a))))
FUN1(InvExp, (inverse(exp(FW(a)))))
FUN1(NegLog, (-log(FW(a))))
FUN1(InvInv, (inverse(inverse(FW(a)))))
FUN2(AddScaled, (FW(a) + 0.5 * FW(b)))

// shorthands
template <int l> using L = O<'L', l>;
template <int l> using V = O<'V', l>;
template <int l> using W = O<'W', l>;  // a mapped leaf moved in: still the caller's memory
template <int l> using P = O<'P', l>;
template <int l> using X = O<'X', l>;
template <int l> using R = O<'R', l>;
template <int l> using Y = O<'Y', l>;
FUN1(Same, (FW(a)))
struct Own {
    template <typename X>
    static std::decay_t<X> make(X &&a) {
        return FW(a);
    }
};
}  // namespace wl
