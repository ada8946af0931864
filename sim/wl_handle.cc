// Operations on Proxy<Leaf> handles; compiled once per leaf type with -DHL=<type>.
#include "wlimpl.h"

namespace wl {
template <int l>
void handleInit(HandleOps &o);

template <int l, int l2>
bool jacLeafImpl(const void *hp, const void *xp, int route, Jac *o, double *v) {
    const auto &h = *static_cast<const wave::Proxy<Leaf<l>> *>(hp);
    const auto &x = *static_cast<const Leaf<l2> *>(xp);
    switch (route) {
        case 0: putJac(h.jacobian(x), o); return true;
        case 1: {
            auto tup = h.evalWithJacobians(x);
            readResult(std::get<0>(tup), v);
            putJac(std::get<1>(tup), o);
            return true;
        }
        case 2: putJac(wave::internal::evaluateJacobian(h, x), o); return true;
        case 3: putJac(wave::internal::evaluateDynamicJacobian(h, x), o); return true;
        default: putJac(wave::evaluateNumericalJacobian(h, x), o); return true;
    }
}
template <int l, int l2>
bool jacNodeImpl(const void *hp, const void *xp, int route, Jac *o, double *v) {
    const auto &h = *static_cast<const wave::Proxy<Leaf<l>> *>(hp);
    const auto &x = *static_cast<const wave::Proxy<Leaf<l2>> *>(xp);
    switch (route) {
        case 0: {
            auto tup = h.evalWithJacobians(x);
            readResult(std::get<0>(tup), v);
            putJac(std::get<1>(tup), o);
            return true;
        }
        case 1: putJac(wave::internal::evaluateJacobian(h, x), o); return true;
        case 2: putJac(wave::internal::evaluateDynamicJacobian(h, x), o); return true;
        default: {
            auto tup = wave::internal::evaluateWithDynamicJacobians(h, x);
            readResult(std::get<0>(tup), v);
            putJac(std::get<1>(tup), o);
            return true;
        }
    }
}
template <int l, int l2>
void multiImpl(const void *hp, const void *x0, const void *x1, const void *hd, Jac *o,
               double *v) {
    const auto &h = *static_cast<const wave::Proxy<Leaf<l>> *>(hp);
    const auto &a = *static_cast<const Leaf<l2> *>(x0);
    const auto &b = *static_cast<const Leaf<l2> *>(x1);
    const auto &c = *static_cast<const wave::Proxy<Leaf<l2>> *>(hd);
    auto tup = h.evalWithJacobians(a, c, b);
    readResult(std::get<0>(tup), v);
    putJac(std::get<1>(tup), &o[0]);
    putJac(std::get<3>(tup), &o[1]);
    putJac(std::get<2>(tup), &o[2]);
}

template <int l, int l2>
bool refJacImpl(const void *rp, const void *xp, int route, Jac *o, double *v) {
    const auto &r = *static_cast<const wave::RefProxy<Leaf<l>> *>(rp);
    const auto &x = *static_cast<const Leaf<l2> *>(xp);
    switch (route) {
        case 0: putJac(r.jacobian(x), o); return true;
        case 1: {
            auto tup = r.evalWithJacobians(x);
            readResult(std::get<0>(tup), v);
            putJac(std::get<1>(tup), o);
            return true;
        }
        case 2: putJac(wave::internal::evaluateJacobian(r, x), o); return true;
        default: putJac(wave::internal::evaluateDynamicJacobian(r, x), o); return true;
    }
}
template <int l, int l2>
bool jacRefImpl(const void *hp, const void *xp, int route, Jac *o, double *v) {
    const auto &h = *static_cast<const wave::Proxy<Leaf<l>> *>(hp);
    const auto &x = *static_cast<const wave::RefProxy<Leaf<l2>> *>(xp);
    switch (route) {
        case 0: {
            auto tup = h.evalWithJacobians(x);
            readResult(std::get<0>(tup), v);
            putJac(std::get<1>(tup), o);
            return true;
        }
        case 1: putJac(wave::internal::evaluateJacobian(h, x), o); return true;
        default: putJac(wave::internal::evaluateDynamicJacobian(h, x), o); return true;
    }
}
template <int l, int... l2>
void fillJac(HandleOps &o, std::integer_sequence<int, l2...>) {
    int dummy2[] = {(o.refJac[l2] = refJacImpl<l, l2>, o.jacRef[l2] = jacRefImpl<l, l2>, 0)...};
    (void) dummy2;
    int dummy[] = {(o.jacLeaf[l2] = jacLeafImpl<l, l2>, o.jacNode[l2] = jacNodeImpl<l, l2>,
                    o.multi[l2] = multiImpl<l, l2>, 0)...};
    (void) dummy;
}

template <>
void handleInit<HL>(HandleOps &o) {
    constexpr int l = HL;
    using L = Leaf<l>;
    using H = wave::Proxy<L>;
    o.size = sizeof(H);
    o.align = alignof(H) < 16 ? 16 : alignof(H);
    o.fromLeaf = [](void *slot, const double *c, int route) {
        if (route == 0)
            new (slot) H(wave::makeProxy(Make<l>::leaf(c)));
        else {
            L x = Make<l>::leaf(c);
            new (slot) H(std::move(x));
        }
    };
    o.fromVar = [](void *slot, const void *x) {
        new (slot) H(wave::makeProxy(L{*static_cast<const L *>(x)}));
    };
    o.copy = [](void *slot, const void *x) { new (slot) H(*static_cast<const H *>(x)); };
    o.move = [](void *slot, void *x) { new (slot) H(std::move(*static_cast<H *>(x))); };
    o.assignCopy = [](void *d, const void *x) {
        *static_cast<H *>(d) = *static_cast<const H *>(x);
    };
    o.assignMove = [](void *d, void *x) {
        *static_cast<H *>(d) = std::move(*static_cast<H *>(x));
    };
    o.assignLeaf = [](void *d, const double *c) {
        *static_cast<H *>(d) = H(Make<l>::leaf(c));
    };
    o.destroy = [](void *x) { static_cast<H *>(x)->~H(); };
    o.node = [](const void *x) -> const void * {
        return static_cast<const H *>(x)->get().get();
    };
    o.innerLeaf = [](const void *x) -> const void * {
        auto d = dynamic_cast<const wave::Dynamic<L &&> *>(&static_cast<const H *>(x)->follow());
        return d ? &d->rhs() : nullptr;
    };
    o.useCount = [](const void *x) { return static_cast<const H *>(x)->get().use_count() - 1; };
    o.eval = [](const void *x, double *c, int route) {
        const H &h = *static_cast<const H *>(x);
        switch (route) {
            case 0: readResult(h.eval(), c); break;
            case 1: {
                L y{h};
                readResult(y, c);
                break;
            }
            case 2: {
                L y = Make<l>::leaf(c);  // c holds some valid value on entry
                y = h;
                readResult(y, c);
                break;
            }
            case 3: readResult(wave::eval(h), c); break;
            case 4: readResult(H{h}.eval(), c); break;
            case 5: readIfApprox<l>(h, c); break;
            default: {
                auto rp = wave::ref(h.follow());
                readResult(rp.eval(), c);
            }
        }
    };
    o.revAll = [](const void *x, const void *const *keys, Jac *out, int n, double *v) {
        auto res =
          wave::internal::evaluateWithDynamicReverseJacobians(*static_cast<const H *>(x));
        readResult(res.first, v);
        for (int i = 0; i < n; ++i) {
            out[i].rows = out[i].cols = 0;
            if (res.second.count(keys[i])) putJac(res.second.at(keys[i]), &out[i]);
        }
        return n;
    };
    o.leaves = nullptr;
    using R = wave::RefProxy<L>;
    using B = wave::DynamicBase<L>;
    o.refSize = sizeof(R);
    o.refNew = [](void *slot, const void *node) {
        new (slot) R(wave::ref(*static_cast<const B *>(node)));
    };
    o.refCopy = [](void *slot, const void *x) { new (slot) R(*static_cast<const R *>(x)); };
    o.refAssign = [](void *d, const void *x) {
        *static_cast<R *>(d) = *static_cast<const R *>(x);
    };
    o.refRebind = [](void *d, const void *node) {
        *static_cast<R *>(d) = *static_cast<const B *>(node);
    };
    o.refDestroy = [](void *x) { static_cast<R *>(x)->~R(); };
    o.refNode = [](const void *x) -> const void * { return &static_cast<const R *>(x)->follow(); };
    o.refEval = [](const void *x, double *c, int route) {
        const R &r = *static_cast<const R *>(x);
        switch (route) {
            case 0: readResult(r.eval(), c); break;
            case 1: {
                L y{r};
                readResult(y, c);
                break;
            }
            case 2: {
                L y = Make<l>::leaf(c);
                y = r;
                readResult(y, c);
                break;
            }
            case 3: readIfApprox<l>(r, c); break;
            default: readResult(wave::eval(r), c);
        }
    };
    o.refRev = [](const void *x, const void *const *keys, Jac *out, int n, double *v) {
        auto res =
          wave::internal::evaluateWithDynamicReverseJacobians(*static_cast<const R *>(x));
        readResult(res.first, v);
        for (int i = 0; i < n; ++i) {
            out[i].rows = out[i].cols = 0;
            if (res.second.count(keys[i])) putJac(res.second.at(keys[i]), &out[i]);
        }
        return n;
    };
    using K = std::shared_ptr<B>;
    o.keepSize = sizeof(K);
    o.keepNew = [](void *slot, const void *x) { new (slot) K(static_cast<const H *>(x)->get()); };
    o.keepDrop = [](void *x) { static_cast<K *>(x)->~K(); };
    o.keepNode = [](const void *x) -> const void * { return static_cast<const K *>(x)->get(); };
    fillJac<l>(o, std::make_integer_sequence<int, NDYN>{});
}
}  // namespace wl
