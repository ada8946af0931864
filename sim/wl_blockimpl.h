// How an assignment into (part of) a leaf is registered.
// Operand 0 of each program is the leaf before the assignment.
#pragma once
#include "wl_fun.h"
namespace wl {
template <typename Op>
decltype(auto) arg(void *const *a, int i) {
    return Get<Op>::get(a[i]);
}
#define BLOCK0(Name, body)                       \
    struct Name {                                \
        template <typename Lf>                   \
        static void run(Lf &x, void *const *) {  \
            body;                                \
        }                                        \
    };
#define BLOCK1(Name, body)                               \
    struct Name {                                        \
        template <typename Lf, typename Op0>             \
        static void run(Lf &x, void *const *args) {      \
            auto &&a = arg<Op0>(args, 0);                \
            body;                                        \
        }                                                \
    };
#define BLOCK2(Name, body)                                    \
    struct Name {                                             \
        template <typename Lf, typename Op0, typename Op1>    \
        static void run(Lf &x, void *const *args) {           \
            auto &&a = arg<Op0>(args, 0);                     \
            auto &&b = arg<Op1>(args, 1);                     \
            body;                                             \
        }                                                     \
    };
}  // namespace wl
