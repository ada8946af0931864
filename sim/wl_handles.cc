#include "wlimpl.h"
namespace wl {
static HandleOps hops[NDYN];
const HandleOps &handleOps(LT l) { return hops[l]; }
template <int l>
void handleInit(HandleOps &o);
void initHandles() {
    handleInit<M>(hops[M]);
    handleInit<Q>(hops[Q]);
    handleInit<A>(hops[A]);
    handleInit<T>(hops[T]);
    handleInit<U>(hops[U]);
    handleInit<t>(hops[t]);
    handleInit<p>(hops[p]);
    handleInit<r>(hops[r]);
    handleInit<w>(hops[w]);
    handleInit<s>(hops[s]);
}
}  // namespace wl
