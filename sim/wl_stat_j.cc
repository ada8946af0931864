// Static expressions: compounds of three, with scalars
#include "wl_fun.h"
namespace wl {
template <typename... X>
auto tri(X &&... x) {
    return wave::internal::makeCompound<Tri>(FW(x)...);
}
#define TRIJ(Name, NARGS, ...)                               \
    struct Name {                                            \
        static constexpr bool norev = true;                  \
        template <TRI_T##NARGS>                              \
        static decltype(auto) make(TRI_A##NARGS) {           \
            return tri(__VA_ARGS__);                         \
        }                                                    \
    };
#define TRI_T2 typename X, typename Y
#define TRI_A2 X &&a, Y &&b
#define TRI_T3 typename X, typename Y, typename Z
#define TRI_A3 X &&a, Y &&b, Z &&c
#define TRI_T4 typename X, typename Y, typename Z, typename W
#define TRI_A4 X &&a, Y &&b, Z &&c, W &&d
TRIJ(TriThree, 3, FW(a), FW(b), FW(c))
TRIJ(TriRange, 2, a.norm(), FW(b) - a, FW(b).norm())
TRIJ(TriScale, 3, a * 2.0, b + FW(b), FW(c) + FW(a))
TRIJ(TriFirst, 4, FW(a) * FW(b), FW(c), FW(d))
TRIJ(TriMiddle, 3, FW(a).norm(), FW(b) * FW(c), c.norm())
TRIJ(TriSame, 2, FW(a) + a, FW(b), a - a)
#define TRIOP(Name, NARGS, ...)                              \
    struct Name {                                            \
        static constexpr bool nojac = true;                  \
        template <TRI_T##NARGS>                              \
        static decltype(auto) make(TRI_A##NARGS) {           \
            return __VA_ARGS__;                              \
        }                                                    \
    };
TRIOP(TriAdd, 2, (FW(a) + FW(b)))
TRIOP(TriSub, 2, (FW(a) - FW(b)))
TRIOP(TriAddSub, 3, (FW(a) + (FW(b) - FW(c))))
TRIOP(TriSubMade, 3, (FW(c) - tri(FW(a), FW(b), a * 3.0)))

REGISTER(stat_j) {
    stat<TriThree, L<s>, L<t>, L<s>>("trithree", "0 1 2 tri");
    stat<TriThree, V<s>, L<t>, V<s>>("trithree", "0 1 2 tri");
    stat<TriThree, L<s>, V<t>, V<s>>("trithree", "0 1 2 tri");
    stat<TriThree, P<s>, P<t>, L<s>>("trithree", "0 1 2 tri");
    stat<TriThree, L<s>, P<t>, P<s>>("trithree", "0 1 2 tri");
    stat<TriThree, X<s>, L<t>, P<s>>("trithree", "0 1 2 tri");
    stat<TriRange, L<t>, L<t>>("trirange", "0 norm 1 0 - 1 norm tri");
    stat<TriRange, P<t>, L<t>>("trirange", "0 norm 1 0 - 1 norm tri");
    stat<TriRange, P<t>, P<t>>("trirange", "0 norm 1 0 - 1 norm tri");
    stat<TriScale, L<s>, L<t>, L<s>>("triscale", "0 #2 * 1 1 + 2 0 + tri");
    stat<TriScale, L<s>, P<t>, V<s>>("triscale", "0 #2 * 1 1 + 2 0 + tri");
    stat<TriScale, P<s>, P<t>, P<s>>("triscale", "0 #2 * 1 1 + 2 0 + tri");
    stat<TriFirst, L<s>, L<s>, L<t>, L<s>>("trifirst", "0 1 * 2 3 tri");
    stat<TriFirst, P<s>, L<s>, V<t>, P<s>>("trifirst", "0 1 * 2 3 tri");
    stat<TriMiddle, L<t>, L<M>, L<t>>("trimiddle", "0 norm 1 2 * 2 norm tri");
    stat<TriMiddle, P<t>, P<M>, P<t>>("trimiddle", "0 norm 1 2 * 2 norm tri");
    stat<TriMiddle, V<t>, L<Q>, L<t>>("trimiddle", "0 norm 1 2 * 2 norm tri");
    stat<TriSame, L<s>, L<t>>("trisame", "0 0 + 1 0 0 - tri");
    stat<TriSame, P<s>, V<t>>("trisame", "0 0 + 1 0 0 - tri");
    stat<TriAdd, L<c5>, L<c5>>("triadd", "0 1 +");
    stat<TriAdd, V<c5>, L<c5>>("triadd", "0 1 +");
    stat<TriSub, L<c5>, L<c5>>("trisub", "0 1 -");
    stat<TriSub, L<c5>, V<c5>>("trisub", "0 1 -");
    stat<TriAddSub, L<c5>, L<c5>, L<c5>>("triaddsub", "0 1 2 - +");
    stat<TriAddSub, V<c5>, L<c5>, V<c5>>("triaddsub", "0 1 2 - +");
    stat<TriSubMade, L<s>, L<t>, L<c5>>("trisubmade", "2 0 1 0 #3 * tri -");
    stat<TriSubMade, L<s>, V<t>, V<c5>>("trisubmade", "2 0 1 0 #3 * tri -");
}
}  // namespace wl
