// Static expressions: compounds of vectors
#include "wl_fun.h"
namespace wl {
#define COMP2(Name, x, y)                            \
    struct Name {                                    \
        static constexpr bool norev = true;          \
        template <typename X, typename Y>            \
        static decltype(auto) make(X &&a, Y &&b) {   \
            return wave::internal::makeCompound<Both>(x, y); \
        }                                            \
    };
#define COMP3(Name, x, y)                                    \
    struct Name {                                            \
        static constexpr bool norev = true;                  \
        template <typename X, typename Y, typename Z>        \
        static decltype(auto) make(X &&a, Y &&b, Z &&c) {    \
            return wave::internal::makeCompound<Both>(x, y); \
        }                                                    \
    };
#define COMP4(Name, x, y)                                         \
    struct Name {                                                 \
        static constexpr bool norev = true;                       \
        template <typename X, typename Y, typename Z, typename W> \
        static decltype(auto) make(X &&a, Y &&b, Z &&c, W &&d) {  \
            return wave::internal::makeCompound<Both>(x, y);      \
        }                                                         \
    };
COMP2(CPair, FW(a), FW(b))
COMP2(CLogMul, log(FW(a)), a *FW(b))
COMP3(CLogSub, log(FW(a) * inverse(b)), b *FW(c))
COMP3(CSumSum, FW(a) + b, FW(c) - c)
COMP4(CErr, log(FW(a) * inverse(FW(b))), FW(c) - FW(d))
COMP4(CErr2, FW(a) - FW(b), a *FW(c) + FW(d))
COMP3(COneSide, log(FW(a) * FW(b)), FW(c))
COMP3(COtherSide, FW(a), FW(b) * FW(c))
COMP2(CTransform, log(FW(a).rotation()), a *FW(b))
#define COMPOP2(Name, body)                        \
    struct Name {                                  \
        static constexpr bool nojac = true;        \
        template <typename X, typename Y>          \
        static decltype(auto) make(X &&a, Y &&b) { \
            return body;                           \
        }                                          \
    };
#define COMPOP3(Name, body)                               \
    struct Name {                                         \
        static constexpr bool nojac = true;               \
        template <typename X, typename Y, typename Z>     \
        static decltype(auto) make(X &&a, Y &&b, Z &&c) { \
            return body;                                  \
        }                                                 \
    };
COMPOP2(CAdd, (FW(a) + FW(b)))
COMPOP2(CSub, (FW(a) - FW(b)))
COMPOP3(CAddSub, (FW(a) + (FW(b) - FW(c))))
COMPOP3(CAddMade, (wave::internal::makeCompound<Both>(log(FW(a)), FW(b)) + FW(c)))
COMPOP3(CSubMade, (FW(c) - wave::internal::makeCompound<Both>(FW(a), FW(b))))

REGISTER(stat_g) {
    stat<CPair, L<r>, L<t>>("cpair", "0 1 both");
    stat<CPair, V<r>, L<t>>("cpair", "0 1 both");
    stat<CPair, L<r>, V<t>>("cpair", "0 1 both");
    stat<CPair, V<r>, V<t>>("cpair", "0 1 both");
    stat<CPair, P<r>, P<t>>("cpair", "0 1 both");
    stat<CPair, L<r>, P<t>>("cpair", "0 1 both");
    stat<CPair, P<r>, X<t>>("cpair", "0 1 both");
    stat<CLogMul, L<M>, L<t>>("clogmul", "0 log 0 1 * both");
    stat<CLogMul, L<Q>, V<t>>("clogmul", "0 log 0 1 * both");
    stat<CLogMul, P<M>, P<t>>("clogmul", "0 log 0 1 * both");
    stat<CLogSub, L<M>, L<M>, L<t>>("clogsub", "0 1 inv * log 1 2 * both");
    stat<CLogSub, V<M>, L<M>, L<t>>("clogsub", "0 1 inv * log 1 2 * both");
    stat<CSumSum, L<r>, L<r>, L<t>>("csumsum", "0 1 + 2 2 - both");
    stat<CErr, L<M>, L<M>, L<t>, L<t>>("cerr", "0 1 inv * log 2 3 - both");
    stat<CErr, L<Q>, V<Q>, L<t>, V<t>>("cerr", "0 1 inv * log 2 3 - both");
    stat<CErr, P<M>, L<M>, P<t>, L<t>>("cerr", "0 1 inv * log 2 3 - both");
    stat<CErr2, L<M>, L<M>, L<t>, L<t>>("cerr2", "0 1 - 0 2 * 3 + both");
    stat<CErr2, L<Q>, L<Q>, V<t>, L<t>>("cerr2", "0 1 - 0 2 * 3 + both");
    stat<COneSide, L<M>, L<M>, L<t>>("coneside", "0 1 * log 2 both");
    stat<COneSide, P<M>, P<M>, P<t>>("coneside", "0 1 * log 2 both");
    stat<COtherSide, L<r>, L<M>, L<t>>("cotherside", "0 1 2 * both");
    stat<COtherSide, P<r>, P<M>, P<t>>("cotherside", "0 1 2 * both");
    stat<CTransform, L<T>, L<t>>("ctransform", "0 rot log 0 1 * both");
    stat<CTransform, P<T>, P<t>>("ctransform", "0 rot log 0 1 * both");
    stat<CAdd, L<c>, L<c>>("cadd", "0 1 +");
    stat<CAdd, V<c>, L<c>>("cadd", "0 1 +");
    stat<CSub, L<c>, L<c>>("csub", "0 1 -");
    stat<CSub, L<c>, V<c>>("csub", "0 1 -");
    stat<CSub, V<c>, V<c>>("csub", "0 1 -");
    stat<CAddSub, L<c>, L<c>, L<c>>("caddsub", "0 1 2 - +");
    stat<CAddSub, L<c>, V<c>, L<c>>("caddsub", "0 1 2 - +");
    stat<CAddMade, L<M>, L<t>, L<c>>("caddmade", "0 log 1 both 2 +");
    stat<CSubMade, L<r>, L<t>, L<c>>("csubmade", "2 0 1 both -");
    stat<CSubMade, V<r>, V<t>, V<c>>("csubmade", "2 0 1 both -");
}
}  // namespace wl
