// Static expressions: neutral elements, and scalars mapped onto the user's own
#include "wl_fun.h"
namespace wl {
#define ID(x) (std::decay_t<x>::Identity())
#define ZERO(x) (wave::Zero<std::decay_t<x>>{})
#define NEUTRAL1(Name, body)              \
    struct Name {                         \
        template <typename X>             \
        static decltype(auto) make(X &&a) { \
            return body;                  \
        }                                 \
    };
#define NEUTRAL2(Name, body)                   \
    struct Name {                              \
        template <typename X, typename Y>      \
        static decltype(auto) make(X &&a, Y &&b) { \
            return body;                       \
        }                                      \
    };
NEUTRAL1(MulId, FW(a) * ID(X))
NEUTRAL1(IdMul, ID(X) * FW(a))
struct IdMulIdInv {
    static constexpr bool nojac = true;
    template <typename X>
    static decltype(auto) make(X &&a) {
        return inverse(ID(X)) * (FW(a) * ID(X));
    }
};
NEUTRAL1(InvIdMul, inverse(ID(X) * FW(a)))
NEUTRAL1(LogMulId, log(FW(a) * ID(X)))
NEUTRAL1(SubId, FW(a) - ID(X))
NEUTRAL2(IdTimes, ID(X) * FW(b) + log(a))
NEUTRAL2(MulIdMul, FW(a) * (ID(X) * FW(b)))
NEUTRAL1(AddZero, FW(a) + ZERO(X))
NEUTRAL1(ZeroAdd, ZERO(X) + FW(a))
NEUTRAL1(ZeroSub, (ZERO(X) + FW(a)) - a)
NEUTRAL1(AddNegZero, FW(a) + (-ZERO(X)))
NEUTRAL1(ExpZero, exp(ZERO(X)) * exp(FW(a)))
NEUTRAL1(BoxZero, FW(a) + log(ID(X)))
NEUTRAL2(AddZeroAdd, FW(a) + (ZERO(X) + FW(b)))

REGISTER(stat_h) {
    stat<Mul, L<ms>, L<t>>("scale", "0 1 *");
    stat<Mul, L<ms>, V<t>>("scale", "0 1 *");
    stat<Div, L<t>, L<ms>>("div", "0 1 /");
    stat<Mul, L<ms>, L<s>>("mul", "0 1 *");
    stat<Mul, L<ms>, L<ms>>("mul", "0 1 *");
    stat<Add, L<ms>, L<ms>>("add", "0 1 +");
    stat<Add, L<s>, L<ms>>("add", "0 1 +");
    stat<Sub, L<ms>, V<s>>("sub", "0 1 -");
    stat<Neg, L<ms>>("neg", "0 neg");
    stat<NegSub, L<ms>, L<ms>>("negsub", "0 neg 1 -");
    stat<Times2, L<ms>>("x2.5", "#2.5 0 *");

#define NEU(l)                                \
    stat<MulId, L<l>>("mulid", "0");          \
    stat<MulId, V<l>>("mulid", "0");          \
    stat<IdMul, L<l>>("idmul", "0");          \
    stat<IdMul, V<l>>("idmul", "0");          \
    stat<IdMulIdInv, L<l>>("idmulidinv", "0"); \
    stat<InvIdMul, L<l>>("invidmul", "0 inv"); \
    stat<InvIdMul, V<l>>("invidmul", "0 inv"); \
    stat<LogMulId, L<l>>("logmulid", "0 log"); \
    stat<MulIdMul, L<l>, V<l>>("mulidmul", "0 1 *"); 
    NEU(M)
    NEU(Q)
    NEU(T)
    stat<MulId, L<A>>("mulid", "0");
    stat<IdMul, V<A>>("idmul", "0");
#define NEUV(l)                                     \
    stat<AddZero, L<l>>("addzero", "0");            \
    stat<AddZero, V<l>>("addzero", "0");            \
    stat<ZeroAdd, L<l>>("zeroadd", "0");            \
    stat<ZeroAdd, V<l>>("zeroadd", "0");            \
    stat<ZeroSub, L<l>>("zerosub", "0 0 -");        \
    stat<AddNegZero, L<l>>("addnegzero", "0");      \
    stat<AddZeroAdd, L<l>, V<l>>("addzeroadd", "0 1 +");
    NEUV(t)
    NEUV(r)
    NEUV(w)
}
}  // namespace wl
