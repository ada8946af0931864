From 9e5a7145ad69a6afb732d7398283716ba30072b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:38 +0000
Subject: [PATCH 01/18] fix: allow reverse-mode Jacobians through a Proxy after
 an identity-Jacobian operation

The adjoint reaching a Proxy whose parent operation has identity Jacobians
(such as a vector sum) inside another dynamic expression has dynamic size, and
no overload of dynReverse() was viable without ambiguity, so that for example
makeProxy(p + t), with p a Proxy, did not compile.
---
 include/wave/geometry/src/dynamic/DynamicBase.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/wave/geometry/src/dynamic/DynamicBase.hpp b/include/wave/geometry/src/dynamic/DynamicBase.hpp
index 37973e2..68cc370 100644
--- a/include/wave/geometry/src/dynamic/DynamicBase.hpp
+++ b/include/wave/geometry/src/dynamic/DynamicBase.hpp
@@ -88,6 +88,16 @@ class DynamicBase {
         return dynReverseDynamic(jac_map, internal::DynamicMatrix<Scalar>{init_adjoint});
     }
 
+    /** Overload for adjoints of dynamic size.
+     *
+     * This is the form of adjoint reached through an operation whose Jacobian is the
+     * identity (such as a sum), inside dynReverseDynamic().
+     */
+    void dynReverse(MatrixMap<const void *, Scalar> &jac_map,
+                    const internal::DynamicMatrix<Scalar> &init_adjoint) const {
+        return dynReverseDynamic(jac_map, init_adjoint);
+    }
+
     /** Returns result of evaluation for numerical diff
      *
      * @see EvaluatorWithDelta
-- 
2.43.0


From 4d49eb240c7b71557918f50f45fa795c2e3ad28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:38 +0000
Subject: [PATCH 02/18] fix: place Jacobian rows of n-ary expressions by child
 index

combineChildJacobians() used the index among the children which may contain the
target, instead of the index among all children, so the rows of a child
following one without the target were written to the wrong place.
---
 .../geometry/src/core/functions/JacobianEvaluator.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp b/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
index 1ea656c..212f76a 100644
--- a/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
+++ b/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
@@ -288,14 +288,17 @@ struct JacobianEvaluator<Derived, Target, enable_if_nary_t<Derived>> {
             std::get<Is>(evaluator.children), target}...};
     }
 
-    template <size_t... Is>
-    inline Jacobian combineChildJacobians(std::index_sequence<Is...>) const {
+    // `Is` counts the children which may contain the target, and `RowIs` holds the index of
+    // each of them among all children, which determines its rows in the result
+    template <size_t... Is, size_t... RowIs>
+    inline Jacobian combineChildJacobians(std::index_sequence<Is...>,
+                                          std::index_sequence<RowIs...>) const {
         // Fill with zero first. @todo profile/optimize
         auto jac = Jacobian{};
         jac.setZero();
         int foreach[] = {
           (std::get<Is>(children).jacobian()
-             ? (jac.template rowsWrt<Is>() = *std::get<Is>(children).jacobian(), 0)
+             ? (jac.template rowsWrt<RowIs>() = *std::get<Is>(children).jacobian(), 0)
              : 0)...};
         (void) foreach;
         return jac;
@@ -321,7 +324,7 @@ struct JacobianEvaluator<Derived, Target, enable_if_nary_t<Derived>> {
         constexpr auto N = std::tuple_size<ChildJacEvalTuple>::value;
         if (N > 0) {
             using Indices = std::make_index_sequence<N>;
-            return this->combineChildJacobians(Indices{});
+            return this->combineChildJacobians(Indices{}, IndicesOfChildrenToCall{});
         } else {
             return boost::none;
         }
-- 
2.43.0


From bd7a3dcc0927b1e770b97bfe745335196c7cfe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:38 +0000
Subject: [PATCH 03/18] fix: make uniformRandom() safe for concurrent use

The static generator was shared between threads without synchronisation, so
that concurrent calls to Random() raced.
---
 include/wave/geometry/src/util/math/math.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/wave/geometry/src/util/math/math.hpp b/include/wave/geometry/src/util/math/math.hpp
index 73abb3e..a816897 100644
--- a/include/wave/geometry/src/util/math/math.hpp
+++ b/include/wave/geometry/src/util/math/math.hpp
@@ -14,8 +14,9 @@ namespace wave {
 /** Generate a random real number on the closed interval [a, b] */
 template <typename Real>
 Real uniformRandom(Real a, Real b) {
-    // Use Mersenne Twister pseudo-random number generator, seeded by system random device
-    static std::mt19937 rng{std::random_device{}()};
+    // Use Mersenne Twister pseudo-random number generator, seeded by system random device.
+    // Each thread has its own, since the generator is not safe for concurrent use.
+    thread_local std::mt19937 rng{std::random_device{}()};
 
     // The distribution is normally open on one end [a, b). Do this to close it
     const auto closed_b = std::nextafter(b, std::numeric_limits<Real>::max());
-- 
2.43.0


From 9b4b22b523b28a93ccf157be74838f176ccc8fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:37 +0000
Subject: [PATCH 04/18] fix: construct child Evaluators of n-ary expressions in
 place

The Evaluators were moved into the tuple after construction. The result of an
Evaluator may be a lazy Eigen expression (e.g. for unary minus) which refers to
the result of its child Evaluator; after the move it referred to a destroyed
temporary, and Jacobians which use the value came out as garbage.
---
 include/wave/geometry/src/core/functions/Evaluator.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/Evaluator.hpp b/include/wave/geometry/src/core/functions/Evaluator.hpp
index 8fc582b..278b8e4 100644
--- a/include/wave/geometry/src/core/functions/Evaluator.hpp
+++ b/include/wave/geometry/src/core/functions/Evaluator.hpp
@@ -116,10 +116,9 @@ struct Evaluator<Derived, enable_if_nary_t<Derived>> {
     template <size_t... Is>
     inline static ChildEvalTuple expandToChildEvalTuple(const Derived &nary,
                                                         std::index_sequence<Is...>) {
-        // Evaluator<...> is needed here to make gcc 5 happy
-        return ChildEvalTuple{
-          Evaluator<typename traits<Derived>::template ElementType<Is>>{
-            nary.template get<Is>()}...};
+        // Construct the Evaluators in place. They can't be moved into the tuple, since one's
+        // result may be a lazy Eigen expression referring to that of its own child.
+        return ChildEvalTuple{nary.template get<Is>()...};
     }
 
     template <size_t... Is>
-- 
2.43.0


From d9566b2bdce369b1b099584ae97d03515ae2bdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:27 +0000
Subject: [PATCH 05/18] fix: allow concurrent evaluation of a shared dynamic
 expression

The const evaluation methods of Dynamic rebuilt the mutable cached Evaluator
without synchronisation, so that evaluating expressions which share a Proxy
from different threads was a data race. Guard the cache with a mutex. A copied
Dynamic starts with an empty cache, as the cached Evaluator refers to the
storage of the expression it was made for.
---
 include/wave/geometry/src/dynamic/Dynamic.hpp | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/wave/geometry/src/dynamic/Dynamic.hpp b/include/wave/geometry/src/dynamic/Dynamic.hpp
index 2990d1c..adf0890 100644
--- a/include/wave/geometry/src/dynamic/Dynamic.hpp
+++ b/include/wave/geometry/src/dynamic/Dynamic.hpp
@@ -5,6 +5,8 @@
 #ifndef WAVE_GEOMETRY_DYNAMIC_EXPR_HPP
 #define WAVE_GEOMETRY_DYNAMIC_EXPR_HPP
 
+#include <mutex>
+
 namespace wave {
 
 /** Gives the wrapped expression dynamic dispatch
@@ -40,15 +42,15 @@ struct Dynamic final : internal::base_tmpl_t<RhsDerived, Dynamic<RhsDerived>>,
         auto &&evaluable_expr = internal::prepareExpr(internal::adl{}, this->rhs());
         using ExprType = tmp::remove_cr_t<decltype(evaluable_expr)>;
         static_assert(std::is_same<ExprType, PreparedType>{}, "Internal sanity check");
-        this->lazy_evaluator.emplace(std::move(evaluable_expr));
-        return *this->lazy_evaluator;
+        this->lazy_evaluator.value.emplace(std::move(evaluable_expr));
+        return *this->lazy_evaluator.value;
     }
 
     decltype(auto) evaluator() const {
-        if (!this->lazy_evaluator) {
+        if (!this->lazy_evaluator.value) {
             this->constructEvaluator();
         }
-        return *this->lazy_evaluator;
+        return *this->lazy_evaluator.value;
     }
 
 
@@ -57,6 +59,7 @@ struct Dynamic final : internal::base_tmpl_t<RhsDerived, Dynamic<RhsDerived>>,
     }
 
     auto dynEvaluate() const -> EvalType override {
+        const std::lock_guard<std::mutex> lock{this->lazy_evaluator.mutex};
         const auto &v_eval = this->constructEvaluator();
         return v_eval();
     }
@@ -64,6 +67,7 @@ struct Dynamic final : internal::base_tmpl_t<RhsDerived, Dynamic<RhsDerived>>,
     auto dynJacobian(const void *target_ptr) const -> MatrixType override {
         // Note we don't reconstruct the evaluator here. This is OK as long as all of our
         // user-facing methods require function evaluation before derivative.
+        const std::lock_guard<std::mutex> lock{this->lazy_evaluator.mutex};
         const auto &v_eval = this->evaluator();
         return internal::evaluateOneDynamicJacobianRaw(v_eval, target_ptr);
     }
@@ -75,6 +79,7 @@ struct Dynamic final : internal::base_tmpl_t<RhsDerived, Dynamic<RhsDerived>>,
       const Eigen::MatrixBase<MatrixDerived> &init_adjoint) const {
         // Note we don't reconstruct the evaluator here. This is OK as long as all of our
         // user-facing methods require function evaluation before derivative.
+        const std::lock_guard<std::mutex> lock{this->lazy_evaluator.mutex};
         const auto &v_eval = this->evaluator();
         return internal::evaluateDynamicReverseJacobiansImpl(
           jac_map, v_eval, init_adjoint.derived());
@@ -117,7 +122,22 @@ struct Dynamic final : internal::base_tmpl_t<RhsDerived, Dynamic<RhsDerived>>,
     }
 
  private:
-    mutable boost::optional<internal::Evaluator<PreparedType>> lazy_evaluator;
+    // The cached Evaluator, with a mutex so that a const Dynamic can be used concurrently.
+    // Locks are always taken from a Dynamic expression down to those it refers to.
+    // The cache refers to this expression's own storage, thus is not copied along with it.
+    struct LazyEvaluator {
+        LazyEvaluator() = default;
+        LazyEvaluator(const LazyEvaluator &) noexcept : LazyEvaluator{} {}
+        LazyEvaluator &operator=(const LazyEvaluator &) noexcept {
+            this->value = boost::none;
+            return *this;
+        }
+
+        std::mutex mutex;
+        boost::optional<internal::Evaluator<PreparedType>> value;
+    };
+
+    mutable LazyEvaluator lazy_evaluator;
 };
 
 /** Wrap an expression in a Dynamic
-- 
2.43.0


From 9c13eb56dd0174c9d1a46e2405d5c37305000bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:34 +0000
Subject: [PATCH 06/18] fix: allow Jacobians of a Proxy with respect to leaves
 of another dimension

---
 include/wave/geometry/src/dynamic/Proxy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/dynamic/Proxy.hpp b/include/wave/geometry/src/dynamic/Proxy.hpp
index 921fbaf..1fc6552 100644
--- a/include/wave/geometry/src/dynamic/Proxy.hpp
+++ b/include/wave/geometry/src/dynamic/Proxy.hpp
@@ -150,7 +150,9 @@ struct JacobianEvaluator<
     WAVE_STRONG_INLINE boost::optional<jacobian_t<Derived, Target>> jacobian() const {
         // Check if Jacobian is wrt this Proxy
         if (isSame(this->v_eval.expr, this->target_ptr)) {
-            return identity_t<Derived>{}.eval();
+            // Note the matrix is square in this case, but this function must compile (and
+            // never get here) for targets of other sizes too
+            return jacobian_t<Derived, Target>{jacobian_t<Derived, Target>::Identity()};
         }
         // Otherwise, dynamically get the Jacobian of the derived expression and convert
         // to the expected optional-fixed-size return type
-- 
2.43.0


From e08911ac6c8292a5ee642f852de5fb5547c06ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 07/18] fix: allow forward Jacobians of binary expressions
 which use a Proxy

---
 include/wave/geometry/src/dynamic/Proxy.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/wave/geometry/src/dynamic/Proxy.hpp b/include/wave/geometry/src/dynamic/Proxy.hpp
index 1fc6552..6578a46 100644
--- a/include/wave/geometry/src/dynamic/Proxy.hpp
+++ b/include/wave/geometry/src/dynamic/Proxy.hpp
@@ -170,6 +170,11 @@ struct JacobianEvaluator<
 };
 
 
+// We don't know the contained types at compile time, so any of them may be in there
+template <typename Derived, typename Target>
+struct contains_same_type<Derived, Target, enable_if_proxy_t<Derived>> : std::true_type {
+};
+
 template <typename Derived, typename Adjoint>
 struct DynamicReverseJacobianEvaluator<Derived, Adjoint, enable_if_proxy_t<Derived>> {
     WAVE_STRONG_INLINE DynamicReverseJacobianEvaluator(
-- 
2.43.0


From 9ff03585e6752891d5cfab275bdb831a9fe77c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 08/18] fix: allow assigning an expression to a compact rigid
 transform

---
 .../wave/geometry/src/core/storage/CompoundLeafStorage.hpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp b/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
index 06c51ee..7545778 100644
--- a/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
+++ b/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
@@ -58,9 +58,9 @@ struct CompoundLeafStorage {
         : CompoundLeafStorage{wave::internal::evaluateTo<Derived>(rhs.derived())} {}
 
     /** Assigns from another expression */
-    template <typename Rhs, typename RhsBase = internal::base_tmpl_t<Derived, Rhs>>
-    Derived &operator=(const RhsBase &rhs) {
-        this->storage =
+    template <typename OtherDerived>
+    Derived &operator=(const ExpressionBase<OtherDerived> &rhs) {
+        this->storage_ =
           wave::internal::evaluateTo<internal::plain_output_t<Derived>>(rhs.derived())
             .value();
         return *static_cast<Derived *>(this);
-- 
2.43.0


From f838fb161e368771af024dc45a9362cb426de5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 09/18] fix: allow assigning an expression to a compound of
 leaves

---
 .../wave/geometry/src/core/storage/NaryStorage.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/wave/geometry/src/core/storage/NaryStorage.hpp b/include/wave/geometry/src/core/storage/NaryStorage.hpp
index 8932d8a..25c5358 100644
--- a/include/wave/geometry/src/core/storage/NaryStorage.hpp
+++ b/include/wave/geometry/src/core/storage/NaryStorage.hpp
@@ -52,13 +52,13 @@ struct NaryStorage {
     explicit NaryStorage(const ExpressionBase<OtherDerived> &rhs)
         : NaryStorage{wave::internal::evaluateTo<Derived>(rhs.derived())} {}
 
-    /** Assign from another n-ary expression */
-    template <typename Rhs, typename RhsBase = internal::base_tmpl_t<Derived, Rhs>>
-    Derived &operator=(const RhsBase &rhs) {
-        this->storage =
-          wave::internal::evaluateTo<internal::plain_output_t<Derived>>(rhs.derived())
-            .value();
-        return *static_cast<Derived *>(this);
+    /** Assign from another n-ary expression - enabled if we are a compound of leaves */
+    template <typename OtherDerived,
+              std::enable_if_t<helper<OtherDerived>::all_leaves(), bool> = true>
+    Derived &operator=(const ExpressionBase<OtherDerived> &rhs) {
+        // Use the move assignment operator of Derived
+        return *static_cast<Derived *>(this) =
+                 wave::internal::evaluateTo<Derived>(rhs.derived());
     }
 
  public:
-- 
2.43.0


From 92cd81b7ae91814693012d95f6da7e211a1ab860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 10/18] fix: convert the result of a Dynamic whose evaluator is
 lazy

A Proxy of e.g. -p or 2.5 * p (sign, scaling) could not be compiled.
---
 include/wave/geometry/src/dynamic/Dynamic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/dynamic/Dynamic.hpp b/include/wave/geometry/src/dynamic/Dynamic.hpp
index adf0890..5bec8ed 100644
--- a/include/wave/geometry/src/dynamic/Dynamic.hpp
+++ b/include/wave/geometry/src/dynamic/Dynamic.hpp
@@ -61,7 +61,8 @@ struct Dynamic final : internal::base_tmpl_t<RhsDerived, Dynamic<RhsDerived>>,
     auto dynEvaluate() const -> EvalType override {
         const std::lock_guard<std::mutex> lock{this->lazy_evaluator.mutex};
         const auto &v_eval = this->constructEvaluator();
-        return v_eval();
+        // Explicitly convert, as the Evaluator may produce an expression of EvalType
+        return EvalType{v_eval()};
     }
 
     auto dynJacobian(const void *target_ptr) const -> MatrixType override {
-- 
2.43.0


From 0f39d3d450aed920b8109e1b4713f1a59de71c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 11/18] fix: pass reverse-mode adjoints to a Proxy as plain
 matrices

Reverse-mode Jacobians of expressions where the adjoint of a Proxy is naturally
row-major (e.g. below the inverse of a matrix rotation) could not be compiled.
---
 include/wave/geometry/src/dynamic/Proxy.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/dynamic/Proxy.hpp b/include/wave/geometry/src/dynamic/Proxy.hpp
index 6578a46..16b5309 100644
--- a/include/wave/geometry/src/dynamic/Proxy.hpp
+++ b/include/wave/geometry/src/dynamic/Proxy.hpp
@@ -177,12 +177,17 @@ struct contains_same_type<Derived, Target, enable_if_proxy_t<Derived>> : std::tr
 
 template <typename Derived, typename Adjoint>
 struct DynamicReverseJacobianEvaluator<Derived, Adjoint, enable_if_proxy_t<Derived>> {
+    using PlainAdjoint = Eigen::Matrix<scalar_t<Derived>,
+                                       tmp::remove_cr_t<Adjoint>::RowsAtCompileTime,
+                                       tmp::remove_cr_t<Adjoint>::ColsAtCompileTime>;
+
     WAVE_STRONG_INLINE DynamicReverseJacobianEvaluator(
       DynamicReverseResult<scalar_t<Derived>> &jac_map,
       const Evaluator<Derived> &v_eval,
       const Adjoint &adjoint) {
         // Dynamically get the Jacobians of the derived expression
-        v_eval.expr.dynReverse(jac_map, adjoint.eval());
+        // Note the adjoint may be an expression whose natural storage order is row-major
+        v_eval.expr.dynReverse(jac_map, PlainAdjoint{adjoint});
     }
 };
 
-- 
2.43.0


From b1e9081afb880bfb9d5c3286eb15a003ac73258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:40 +0000
Subject: [PATCH 12/18] fix: rotation() of a temporary rigid transform
 expression

inverse(T).rotation(), where the transform is an rvalue, could not be compiled.
---
 include/wave/geometry/src/geometry/base/TransformBase.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/base/TransformBase.hpp b/include/wave/geometry/src/geometry/base/TransformBase.hpp
index 7424230..c025fe6 100644
--- a/include/wave/geometry/src/geometry/base/TransformBase.hpp
+++ b/include/wave/geometry/src/geometry/base/TransformBase.hpp
@@ -91,7 +91,8 @@ class TransformBase : public ExpressionBase<Derived> {
     }
 
     auto rotation() && {
-        return internal::memberAccess<RotationGetter>(std::move(*this).derived());
+        return internal::memberAccess<RotationGetter<Derived>>(
+          std::move(*this).derived());
     }
 
     /** Produce a random element */
-- 
2.43.0


From 98ea8e89ebb441a00847d2846f89a486f197252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:59 +0000
Subject: [PATCH 13/18] fix: small rotations in exp and log of transforms and
 in log Jacobians

The closed forms divided cancelled differences by powers of the angle: log of a
rigid transform lost its translation's digits below about 1e-5 rad, the Jacobians
of exp(twist), log(transform) and log(rotation) were wrong below about 1e-4 rad
and NaN at zero.
---
 .../src/geometry/base/RigidTransformBase.hpp  | 45 ++++---------------
 .../wave/geometry/src/geometry/leaf/Twist.hpp | 45 +++++--------------
 .../wave/geometry/src/geometry/op/LogMap.hpp  | 14 +-----
 include/wave/geometry/src/util/math/math.hpp  | 43 ++++++++++++++++++
 4 files changed, 65 insertions(+), 82 deletions(-)

diff --git a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
index 395e37b..623615a 100644
--- a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
+++ b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
@@ -131,29 +131,10 @@ auto evalImpl(expr<LogMap>, const RigidTransformBase<Rhs> &rhs) ->
 
     // Logmap of translation part: not trivial (see http://ethaneade.com/lie.pdf)
     // @todo optimize
-    Vec3 ln_t;
-    const auto theta2 = omega.squaredNorm();
-    const auto theta = std::sqrt(theta2);
-    if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
-        const auto A = std::sin(theta) / theta;
-        const auto B = (1 - std::cos(theta)) / theta2;
-        const Mat3 cross = crossMatrix(omega);
-        const Mat3 cross2 = cross * cross;
-
-        const Mat3 Vinv =
-          Mat3::Identity() - cross / 2 + (1 - A / 2 / B) / theta2 * cross2;
-
-        ln_t = Vinv * rhs.derived().translationBlock().value();
-
-    } else {
-        // small theta2; use limit as theta -> 0
-        // @todo: use Taylor series, not just the limit!
-        const Mat3 cross = crossMatrix(omega);
-
-        const Mat3 Vinv = Mat3::Identity() - cross / 2;
-
-        ln_t = Vinv * rhs.derived().translationBlock().value();
-    }
+    const auto k = ExpMapCoefficients<Scalar>{omega.squaredNorm()};
+    const Mat3 cross = crossMatrix(omega);
+    const Mat3 Vinv = Mat3::Identity() - cross / 2 + k.g * cross * cross;
+    const Vec3 ln_t = Vinv * rhs.derived().translationBlock().value();
     return typename traits<Rhs>::TangentType{omega, ln_t};
 }
 
@@ -167,28 +148,20 @@ auto jacobianImpl(expr<LogMap>,
 
     // From http://ethaneade.org/exp_diff.pdf - note we swap order of rotation and
     // translation
-
-    using std::cos;
-    using std::sin;
     // First get Jacobian of logmap of rotation part only
     const auto &Drot =
       jacobianImpl(expr<LogMap>{}, val.derived().rotation(), rhs.derived().rotation());
 
     const auto &omega = val.derived().rotation().value();
     const auto &u = val.derived().translation().value();
-    const auto theta2 = omega.squaredNorm();
-    const auto theta = sqrt(theta2);
-    const auto a = sin(theta) / theta;
-    const auto b = (1 - cos(theta)) / theta2;
-    const auto c = (1 - a) / theta2;
+    const auto k = ExpMapCoefficients<Scalar>{omega.squaredNorm()};
     // Calculate Eade's "W" term
-    const Mat3 W = (c - b) * Mat3::Identity() +
-                   (a - 2 * b) / theta2 * crossMatrix(omega) +
-                   (b - 3 * c) / theta2 * omega * omega.transpose();
+    const Mat3 W = (k.c - k.b) * Mat3::Identity() + k.d * crossMatrix(omega) +
+                   k.e * omega * omega.transpose();
 
     // Calculate Eade's "B" term
-    const Mat3 B = b * crossMatrix(u) +
-                   c * (omega * u.transpose() + u * omega.transpose()) + omega.dot(u) * W;
+    const Mat3 B = k.b * crossMatrix(u) +
+                   k.c * (omega * u.transpose() + u * omega.transpose()) + omega.dot(u) * W;
 
 
     Eigen::Matrix<Scalar, 6, 6> out{};
diff --git a/include/wave/geometry/src/geometry/leaf/Twist.hpp b/include/wave/geometry/src/geometry/leaf/Twist.hpp
index d75999e..0ec5b89 100644
--- a/include/wave/geometry/src/geometry/leaf/Twist.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Twist.hpp
@@ -104,28 +104,12 @@ auto evalImpl(expr<ExpMap>, const Twist<ImplType> &rhs) ->
     // Equations: see http://ethaneade.com/lie.pdf
     // @todo optimize
     const auto &omega = rhs.rotation().value();  // the rotation part
-    const auto theta2 = omega.squaredNorm();
-    const auto theta = std::sqrt(theta2);
-    if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
-        const auto A = std::sin(theta) / theta;
-        const auto B = (Scalar{1.0} - std::cos(theta)) / theta2;
-        const auto C = (Scalar{1.0} - A) / theta2;
-        const Mat3 cross = crossMatrix(omega);
-        const Mat3 cross2 = cross * cross;
-        const Mat3 V = Mat3::Identity() + B * cross + C * cross2;
-        out.translationBlock().value() = V * rhs.translation().value();
-        out.rotationBlock().value() = Mat3::Identity() + A * cross + B * cross2;
-    } else {
-        // small theta2; use Taylor expansions
-        const auto A = Scalar{1.0};
-        const auto B = Scalar{0.0};
-        const auto C = Scalar{0.0};
-        const Mat3 cross = crossMatrix(omega);
-        const Mat3 cross2 = cross * cross;
-        const Mat3 V = Mat3::Identity() + B * cross + C * cross2;
-        out.translationBlock().value() = V * rhs.translation().value();
-        out.rotationBlock().value() = Mat3::Identity() + A * cross + B * cross2;
-    }
+    const auto k = ExpMapCoefficients<Scalar>{omega.squaredNorm()};
+    const Mat3 cross = crossMatrix(omega);
+    const Mat3 cross2 = cross * cross;
+    const Mat3 V = Mat3::Identity() + k.b * cross + k.c * cross2;
+    out.translationBlock().value() = V * rhs.translation().value();
+    out.rotationBlock().value() = Mat3::Identity() + k.a * cross + k.b * cross2;
 
     return out;
 }
@@ -139,27 +123,20 @@ auto jacobianImpl(expr<ExpMap>, const TransformBase<Val> &val, const TwistBase<R
 
     // From http://ethaneade.org/exp_diff.pdf - note we swap order of rotation and
     // translation
-    using std::cos;
-    using std::sin;
     // First get Jacobian of expmap of rotation part only
     const auto &Drot = jacobianImpl(
       expr<ExpMap>{}, val.derived().rotationBlock(), rhs.derived().rotation());
 
     const auto &omega = rhs.derived().rotation().value();
     const auto &u = rhs.derived().translation().value();
-    const auto theta2 = omega.squaredNorm();
-    const auto theta = sqrt(theta2);
-    const auto a = sin(theta) / theta;
-    const auto b = (1 - cos(theta)) / theta2;
-    const auto c = (1 - a) / theta2;
+    const auto k = ExpMapCoefficients<Scalar>{omega.squaredNorm()};
     // Calculate Eade's "W" term
-    const Mat3 W = (c - b) * Mat3::Identity() +
-                   (a - 2 * b) / theta2 * crossMatrix(omega) +
-                   (b - 3 * c) / theta2 * omega * omega.transpose();
+    const Mat3 W = (k.c - k.b) * Mat3::Identity() + k.d * crossMatrix(omega) +
+                   k.e * omega * omega.transpose();
 
     // Calculate Eade's "B" term
-    const Mat3 B = b * crossMatrix(u) +
-                   c * (omega * u.transpose() + u * omega.transpose()) + omega.dot(u) * W;
+    const Mat3 B = k.b * crossMatrix(u) +
+                   k.c * (omega * u.transpose() + u * omega.transpose()) + omega.dot(u) * W;
 
 
     BlockMatrix<Val, Rhs> out{};
diff --git a/include/wave/geometry/src/geometry/op/LogMap.hpp b/include/wave/geometry/src/geometry/op/LogMap.hpp
index a4540b2..c8def8b 100644
--- a/include/wave/geometry/src/geometry/op/LogMap.hpp
+++ b/include/wave/geometry/src/geometry/op/LogMap.hpp
@@ -43,20 +43,10 @@ auto jacobianImpl(expr<LogMap>,
     using Jacobian = jacobian_t<RelativeRotation<Val>, Rhs>;
     const auto &phi = val.value();
     // From http://ethaneade.org/exp_diff.pdf
-    using std::cos;
-    using std::sin;
-    const auto theta2 = phi.squaredNorm();
-    const auto theta = sqrt(theta2);
-    const auto A = sin(theta) / theta;
-    const auto B = (Scalar{1} - cos(theta)) / theta2;
+    const auto k = ExpMapCoefficients<Scalar>{phi.squaredNorm()};
 
-    //        if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
     return Jacobian::Identity() - Scalar{0.5} * crossMatrix(phi) +
-           ((B - Scalar{0.5} * A) / (Scalar{1} - cos(theta))) * crossMatrix(phi) *
-             crossMatrix(phi);
-    //        } else {
-    // @todo small input
-    //        }
+           k.g * crossMatrix(phi) * crossMatrix(phi);
 }
 
 }  // namespace internal
diff --git a/include/wave/geometry/src/util/math/math.hpp b/include/wave/geometry/src/util/math/math.hpp
index a816897..0dd0e8b 100644
--- a/include/wave/geometry/src/util/math/math.hpp
+++ b/include/wave/geometry/src/util/math/math.hpp
@@ -7,6 +7,7 @@
 #define WAVE_GEOMETRY_UTIL_MATH_HPP
 
 #include <Eigen/Core>
+#include <cmath>
 #include <random>
 
 namespace wave {
@@ -43,6 +44,48 @@ Eigen::Quaternion<Real> randomQuaternion() {
       std::cos(t2) * s2, std::sin(t1) * s1, std::cos(t1) * s1, std::sin(t2) * s2};
 }
 
+/** Coefficients of the exponential and log maps of SO(3) and SE(3) and their Jacobians
+ *
+ * Each is a smooth function of the squared angle t. Near zero, where the closed forms lose
+ * all digits by cancellation (and are undefined at zero), Taylor series are used.
+ *
+ * See http://ethaneade.com/lie.pdf and http://ethaneade.org/exp_diff.pdf
+ */
+template <typename Scalar>
+struct ExpMapCoefficients {
+    explicit ExpMapCoefficients(Scalar t) {
+        using std::cos;
+        using std::sin;
+        using std::sqrt;
+        if (t > Scalar{1e-2}) {
+            const Scalar theta = sqrt(t);
+            a = sin(theta) / theta;
+            b = (1 - cos(theta)) / t;
+            c = (1 - a) / t;
+            d = (a - 2 * b) / t;
+            e = (b - 3 * c) / t;
+            g = (1 - a / 2 / b) / t;
+        } else {
+            const auto series = [t](double c0, double c1, double c2, double c3) {
+                return Scalar(c0) + t * (Scalar(c1) + t * (Scalar(c2) + t * Scalar(c3)));
+            };
+            a = series(1., -1. / 6, 1. / 120, -1. / 5040);
+            b = series(1. / 2, -1. / 24, 1. / 720, -1. / 40320);
+            c = series(1. / 6, -1. / 120, 1. / 5040, -1. / 362880);
+            d = series(-1. / 12, 1. / 180, -1. / 6720, 1. / 453600);
+            e = series(-1. / 60, 1. / 1260, -1. / 60480, 1. / 4989600);
+            g = series(1. / 12, 1. / 720, 1. / 30240, 1. / 1209600);
+        }
+    }
+
+    Scalar a;  // sin(theta) / theta
+    Scalar b;  // (1 - cos(theta)) / theta^2
+    Scalar c;  // (1 - a) / theta^2
+    Scalar d;  // (a - 2b) / theta^2
+    Scalar e;  // (b - 3c) / theta^2
+    Scalar g;  // (1 - a/(2b)) / theta^2
+};
+
 /** Go from a skew-symmetric (cross) matrix to a compact vector
  *
  * Also known as the "vee" operator.
-- 
2.43.0


From 4fb906321e92d24f3e31ed5044f10e0f58f5bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:31 +0000
Subject: [PATCH 14/18] fix: log of rotations by, or close to, a half turn

The formula in terms of the trace returned zero for an exact half turn (and for a
trace rounded below -1) and lost its digits near one.
---
 .../src/geometry/leaf/MatrixRotation.hpp        | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp b/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp
index 12b35c1..3cf7033 100644
--- a/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp
+++ b/include/wave/geometry/src/geometry/leaf/MatrixRotation.hpp
@@ -74,18 +74,11 @@ auto evalImpl(expr<LogMap>, const MatrixRotation<ImplType> &rhs) ->
   typename traits<MatrixRotation<ImplType>>::TangentType {
     using Scalar = scalar_t<MatrixRotation<ImplType>>;
 
-    // From http://ethaneade.com/lie.pdf
-    using std::acos;
-    using std::sin;
-    const auto &m = rhs.value();
-    const auto angle = acos((m.trace() - Scalar{1}) / Scalar{2});
-
-    if (angle * angle > Eigen::NumTraits<Scalar>::epsilon()) {
-        return uncrossMatrix(angle / (Scalar{2} * sin(angle)) * (m - m.transpose()));
-    } else {
-        // Very small angle
-        return uncrossMatrix(Scalar{0.5} * (m - m.transpose()));
-    }
+    // Convert via a quaternion, which keeps its precision for every angle: the closed form
+    // in terms of the trace is undefined at a half turn, and loses digits near one
+    const auto angle_axis = Eigen::AngleAxis<Scalar>{rhs.value()};
+    return typename traits<MatrixRotation<ImplType>>::TangentType{angle_axis.angle() *
+                                                                  angle_axis.axis()};
 }
 
 /** Implements composition of rotation matrices */
-- 
2.43.0


From 0f98d414f65ebf939c8254b9547c8598d703332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:23 +0000
Subject: [PATCH 15/18] fix: differentiate compounds in which an element uses a
 leaf twice

The search for a leaf which occurs once stops with false_type as soon as it has
found a second occurrence. With three or more elements its result was itself given
to concat_if_unique, which was not defined for it, so such an expression did not
compile.
---
 include/wave/geometry/src/util/meta/type_list.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/wave/geometry/src/util/meta/type_list.hpp b/include/wave/geometry/src/util/meta/type_list.hpp
index 335717f..85040b4 100644
--- a/include/wave/geometry/src/util/meta/type_list.hpp
+++ b/include/wave/geometry/src/util/meta/type_list.hpp
@@ -192,12 +192,13 @@ struct find<List<>, Target, I> {
 
 /** Concatenate lists A and B if no items in B appear in A.
  * If no items in B match items in A, `type` is the concatenated list and `value` is true.
- * If a match is found, `type` is `false_type` and `value` is false.
+ * If a match is found, or A or B is not a list (but itself the result of finding a match),
+ * `type` is `false_type` and `value` is false.
  *
  * A and B are not checked for duplicates within themselves.
  */
 template <typename A, typename B>
-struct concat_if_unique;
+struct concat_if_unique : std::false_type {};
 
 template <template <typename...> class List, typename... As, typename B0, typename... Bs>
 struct concat_if_unique<List<As...>, List<B0, Bs...>>
-- 
2.43.0


From b41680b5b1c1cbeda8901b263a488191228bcfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:46 +0000
Subject: [PATCH 16/18] fix: make the noise models' rvalue getters usable

---
 include/wave/geometry/src/estimation/Noise.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/estimation/Noise.hpp b/include/wave/geometry/src/estimation/Noise.hpp
index 3c55661..2eeb736 100644
--- a/include/wave/geometry/src/estimation/Noise.hpp
+++ b/include/wave/geometry/src/estimation/Noise.hpp
@@ -68,8 +68,8 @@ class FullNoise {
     }
 
  private:
-    const MatrixType cov_;
-    const MatrixType inv_sqrt_cov_;
+    MatrixType cov_;
+    MatrixType inv_sqrt_cov_;
 };
 
 /**
@@ -132,8 +132,8 @@ class DiagonalNoise {
     }
 
  private:
-    const MatrixType cov_;
-    const MatrixType inv_sqrt_cov_;
+    MatrixType cov_;
+    MatrixType inv_sqrt_cov_;
 };
 
 
-- 
2.43.0


From 5a10f3e12953d669112fbd14aedf874f38fd4598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:25 +0000
Subject: [PATCH 17/18] fix: construct mapped matrix rigid transforms from
 Eigen matrices and maps

The constructor passed on the base class of its argument, which Eigen::Map
cannot be constructed from, so MatrixRigidTransform<Eigen::Map<...>> did not
compile.
---
 .../wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp b/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
index eba4967..a9ef93f 100644
--- a/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
+++ b/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
@@ -71,7 +71,7 @@ class MatrixRigidTransform
     /** Construct from an Eigen 4x4 transformation matrix */
     template <typename MDerived, TICK_REQUIRES(internal::is_eigen_matrix<4, MDerived>{})>
     explicit MatrixRigidTransform(const Eigen::MatrixBase<MDerived> &m)
-        : Storage{typename Storage::init_storage{}, m} {
+        : Storage{typename Storage::init_storage{}, m.derived()} {
         EIGEN_STATIC_ASSERT_MATRIX_SPECIFIC_SIZE(MDerived, 4, 4);
     }
 
-- 
2.43.0


From 0a0b646c5ff1ee6026cb2aeb12e1ee822de84254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:25 +0000
Subject: [PATCH 18/18] fix: give mapped compact rigid transforms a plain type

Expressions over a CompactRigidTransform of Eigen::Map elements produced
mapped results, which cannot be stored, and did not compile.
---
 .../wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp b/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
index 40f15b6..4f59b20 100644
--- a/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
+++ b/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
@@ -101,6 +101,9 @@ struct traits<CompactRigidTransform<Q, V>>
                                                  Translation<V>>;
 
  public:
+    using PlainType =
+      CompactRigidTransform<Eigen::Quaternion<typename TraitsBase::Scalar>,
+                            Eigen::Matrix<typename TraitsBase::Scalar, 3, 1>>;
     using TangentType = Twist<Eigen::Matrix<typename TraitsBase::Scalar, 6, 1>>;
 };
 
-- 
2.43.0

