// Static expressions: frame casts, and the less usual combinations of operands
#include "wl_fun.h"
namespace wl {
struct FB;
struct FC;
#define UNJ(Name, body)                     \
    struct Name {                           \
        static constexpr bool nojac = true; \
        template <typename X>               \
        static decltype(auto) make(X &&a) { \
            return body;                    \
        }                                   \
    };
#define UNJ2(Name, body)                           \
    struct Name {                                  \
        static constexpr bool nojac = true;        \
        template <typename X, typename Y>          \
        static decltype(auto) make(X &&a, Y &&b) { \
            return body;                           \
        }                                          \
    };
FUN1(CastTo, (wave::frame_cast<FA, FA>(FW(a))))
FUN1(CastTo3, (wave::frame_cast<FA, FA, FA>(FW(a))))
FUN1(CastOff, (wave::frame_cast<wave::NoFrame, wave::NoFrame>(FW(a))))
FUN1(CastOff3, (wave::frame_cast<wave::NoFrame, wave::NoFrame, wave::NoFrame>(FW(a))))
FUN1(CastTwice, (wave::frame_cast<FA, FA>(wave::frame_cast<FA, FB>(FW(a)))))
FUN2(CastMul, (wave::frame_cast<FA, FB>(FW(a)) * wave::frame_cast<FB, FA>(FW(b))))
FUN2(CastRotate, (wave::frame_cast<FA, FA, FA>(wave::frame_cast<FA, FB>(FW(a)) * wave::frame_cast<FB, FB, FA>(FW(b)))))
FUN2(CastAdd, (wave::frame_cast<FA, FA, FA>(wave::frame_cast<FA, FB, FC>(FW(a)) + wave::frame_cast<FA, FC, FB>(FW(b)))))
FUN2(CastInvMul, (wave::frame_cast<FA, FA>(inverse(wave::frame_cast<FB, FA>(FW(a))) * wave::frame_cast<FB, FC>(FW(b)))))
FUN3(CastDeep, (wave::frame_cast<FA, FA, FA>(wave::frame_cast<FB, FC>(FW(a) * FW(b)) * wave::frame_cast<FC, FC, FB>(FW(c)))))
FUN1(LogFramed, (wave::logFramed<FA>(FW(a))))
FUN1(Plus2, (FW(a) + 2.0))
FUN1(TwoPlus, (2.0 + FW(a)))
FUN1(Minus2, (FW(a) - 2.0))
FUN1(TwoMinus, (2.0 - FW(a)))
FUN1(TimesR, (FW(a) * 2.5))
FUN1(TwoOver, (2.0 / FW(a)))
FUN1(AcosDot, (acos(FW(a).norm() / 64.0)))
FUN2(Angle, (acos(dot(FW(a).normalized(), FW(b).normalized()))))
FUN3(ScaleChain, (FW(a) * FW(b) / FW(c)))
FUN2(ScaleBoth, (FW(a) * (FW(b) * FW(a))))
FUN2(NormTimes, (FW(a).norm() * FW(b)))
FUN2(TimesNorm, (FW(a) * FW(b).norm()))
FUN2(OverNorm, (FW(a) / FW(b).norm()))
FUN3(SqDiff, ((FW(a) * FW(b) - FW(c)).squaredNorm()))
UNJ(IdRotate, (wave::RotationMd::Identity() * FW(a)))
UNJ(IdTransform, (wave::RigidTransformQd::Identity() * FW(a)))
UNJ(IdIdRotate, ((wave::RotationMd::Identity() * wave::RotationMd::Identity()) * FW(a)))
UNJ(IdRotPart, (wave::RigidTransformMd::Identity().rotation() * FW(a)))
UNJ(IdTransPart, (FW(a) + wave::RigidTransformMd::Identity().translation()))
UNJ(IdLogPlus, (FW(a) + log(wave::RotationQd::Identity())))
UNJ(IdLogTwist, (FW(a) + log(wave::RigidTransformMd::Identity())))
UNJ(ZeroParts, (FW(a) + wave::Zero<wave::Twistd>{}.rotation()))
UNJ(ZeroParts2, (wave::Zero<wave::Twistd>{}.translation() + FW(a)))
UNJ(ZeroZero, (FW(a) + (wave::Zero<wave::Translationd>{} + wave::Zero<wave::Translationd>{})))
UNJ(ZeroNegBox, (FW(a) + (-wave::Zero<wave::RelativeRotationd>{})))
UNJ(InvIdId, (inverse(wave::RigidTransformMd::Identity() * wave::RigidTransformMd::Identity()) * FW(a)))
UNJ2(TwistParts, (exp(FW(a).rotation()) * FW(b)))
UNJ2(TwistParts2, (FW(a).translation() + FW(b)))
FUN1(RtParts, (FW(a).rotation() * FW(a).translation()))

REGISTER(stat_k) {
    stat<CastTo, L<Q>>("castto", "0");
    stat<CastTo, V<Q>>("castto", "0");
    stat<CastTo, L<fQ>>("castto", "0");
    stat<CastTo, P<Q>>("castto", "0");
    stat<CastTo3, L<t>>("castto3", "0");
    stat<CastTo3, V<t>>("castto3", "0");
    stat<CastTo, L<U>>("castto", "0");
    stat<CastOff, L<fQ>>("castoff", "0");
    stat<CastOff, V<fU>>("castoff", "0");
    stat<CastOff3, L<ft>>("castoff3", "0");
    stat<CastOff3, V<fr>>("castoff3", "0");
    stat<CastTwice, L<fQ>>("casttwice", "0");
    stat<CastTwice, V<fQ>>("casttwice", "0");
    stat<CastMul, L<fQ>, L<Q>>("castmul", "0 1 *");
    stat<CastMul, V<Q>, L<fQ>>("castmul", "0 1 *");
    stat<CastMul, L<U>, V<fU>>("castmul", "0 1 *");
    stat<CastRotate, L<fQ>, L<ft>>("castrotate", "0 1 *");
    stat<CastRotate, V<Q>, V<t>>("castrotate", "0 1 *");
    stat<CastRotate, L<U>, V<t>>("castrotate", "0 1 *");
    stat<CastAdd, L<ft>, V<t>>("castadd", "0 1 +");
    stat<CastInvMul, L<Q>, L<fQ>>("castinvmul", "0 inv 1 *");
    stat<CastDeep, L<Q>, V<Q>, L<t>>("castdeep", "0 1 * 2 *");
    stat<CastDeep, L<fQ>, L<fQ>, V<ft>>("castdeep", "0 1 * 2 *");
    stat<LogFramed, L<fQ>>("logframed", "0 log");
    stat<LogFramed, V<fQ>>("logframed", "0 log");
    stat<Plus2, L<s>>("plus2", "0 #2 +");
    stat<TwoPlus, V<s>>("twoplus", "#2 0 +");
    stat<Minus2, L<s>>("minus2", "0 #2 -");
    stat<TwoMinus, L<s>>("twominus", "#2 0 -");
    stat<TimesR, L<t>>("timesr", "0 #2.5 *");
    stat<TimesR, V<w>>("timesr", "0 #2.5 *");
    stat<TimesR, L<s>>("timesr", "0 #2.5 *");
    stat<TwoOver, L<s>>("twoover", "#2 0 /");
    stat<Div, L<s>, L<s>>("div", "0 1 /");
    stat<Div, L<s>, V<s>>("div", "0 1 /");
    stat<Div, V<s>, V<s>>("div", "0 1 /");
    stat<Div, L<w>, L<s>>("div", "0 1 /");
    stat<Mul, L<t>, L<s>>("scaler", "0 1 *");
    stat<Mul, V<t>, L<s>>("scaler", "0 1 *");
    stat<Mul, L<r>, V<s>>("scaler", "0 1 *");
    stat<Mul, L<w>, L<s>>("scaler", "0 1 *");
    stat<Mul, L<s>, L<w>>("scale", "0 1 *");
    stat<AcosDot, L<t>>("acosnorm", "0 norm #64 / acos");
    stat<Angle, L<t>, L<t>>("angle", "0 unit 1 unit dot acos");
    stat<Angle, V<r>, L<r>>("angle", "0 unit 1 unit dot acos");
    stat<ScaleChain, L<t>, L<s>, L<s>>("scalechain", "0 1 * 2 /");
    stat<ScaleChain, L<s>, V<s>, L<s>>("scalechain", "0 1 * 2 /");
    stat<ScaleBoth, L<s>, L<t>>("scaleboth", "0 1 0 * *");
    stat<NormTimes, L<t>, L<t>>("normtimes", "0 norm 1 *");
    stat<NormTimes, L<t>, V<w>>("normtimes", "0 norm 1 *");
    stat<TimesNorm, L<t>, L<t>>("timesnorm", "0 1 norm *");
    stat<OverNorm, L<t>, L<t>>("overnorm", "0 1 norm /");
    stat<SqDiff, L<U>, L<t>, L<t>>("sqdiff", "0 1 * 2 - sqn");
    stat<SqDiff, L<A>, L<t>, V<t>>("sqdiff", "0 1 * 2 - sqn");
    stat<Unit, L<w>>("unit", "0 unit");
    stat<SqNorm, L<w>>("sqnorm", "0 sqn");
    stat<Unit, V<t>>("unit", "0 unit");
    stat<IdRotate, L<t>>("idrotate", "0");
    stat<IdTransform, L<t>>("idtransform", "0");
    stat<IdIdRotate, V<t>>("ididrotate", "0");
    stat<IdRotPart, L<t>>("idrotpart", "0");
    stat<IdTransPart, L<t>>("idtranspart", "0");
    stat<IdLogPlus, L<Q>>("idlogplus", "0");
    stat<IdLogTwist, L<T>>("idlogtwist", "0");
    stat<ZeroParts, L<r>>("zeroparts", "0");
    stat<ZeroParts2, L<t>>("zeroparts2", "0");
    stat<ZeroZero, L<t>>("zerozero", "0");
    stat<ZeroNegBox, L<M>>("zeronegbox", "0");
    stat<InvIdId, L<T>>("invidid", "0");
    stat<TwistParts, L<w>, L<t>>("twistparts", "0 rot exp 1 *");
    stat<TwistParts2, L<w>, L<t>>("twistparts2", "0 trans 1 +");
    stat<RtParts, L<T>>("rtparts", "0 rot 0 trans *");
    stat<RtParts, L<U>>("rtparts", "0 rot 0 trans *");
    stat<Mul, L<T>, L<U>>("mul", "0 1 *");
    stat<Mul, L<U>, L<T>>("mul", "0 1 *");
    stat<Mul, L<U>, V<T>>("mul", "0 1 *");
    stat<Mul, L<Q>, L<A>>("mul", "0 1 *");
    stat<Mul, L<M>, L<A>>("mul", "0 1 *");
    stat<Mul, L<A>, V<Q>>("mul", "0 1 *");
    stat<Mul, L<A>, L<A>>("mul", "0 1 *");
    stat<Mul, L<Q>, L<M>>("mul", "0 1 *");
    stat<Add, L<A>, L<r>>("boxplus", "0 1 +");
    stat<Add, L<U>, L<w>>("boxplus", "0 1 +");
    stat<Add, V<U>, V<w>>("boxplus", "0 1 +");
    stat<Sub, L<A>, L<Q>>("boxminus", "0 1 -");
    stat<Sub, L<U>, L<U>>("boxminus", "0 1 -");
    stat<Sub, L<T>, V<U>>("boxminus", "0 1 -");
    stat<Sub, L<p>, L<t>>("sub", "0 1 -");
    stat<Log, L<A>>("log", "0 log");
    stat<Log, V<M>>("log", "0 log");
    stat<Inv, V<A>>("inv", "0 inv");
    stat<Inv, V<U>>("inv", "0 inv");
    stat<Exp, V<w>>("exp", "0 exp");
}
}  // namespace wl
