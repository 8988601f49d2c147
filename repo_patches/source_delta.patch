From 50c975de739e2b54a23566b34c93d9c651c27715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:16 +0000
Subject: [PATCH 01/20] fix: modularExponentiation returns 0 for modulus 1 and
 exponent 0

---
 lib/Utils/APIntUtils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/APIntUtils.cpp b/lib/Utils/APIntUtils.cpp
index 96546d3..bdda3d3 100644
--- a/lib/Utils/APIntUtils.cpp
+++ b/lib/Utils/APIntUtils.cpp
@@ -63,7 +63,8 @@ APInt multiplicativeInverse(const APInt& x, const APInt& modulo) {
 
 APInt modularExponentiation(const APInt& base, const APInt& exponent,
                             const APInt& modulus) {
-  APInt res(modulus.getBitWidth(), 1);
+  // Reduced so that the result is 0 when modulus is 1 and exponent is 0.
+  APInt res = APInt(modulus.getBitWidth(), 1).urem(modulus);
   APInt b = base.urem(modulus);
   APInt e = exponent;
 
-- 
2.43.0


From 17b443aa1cedf08bf665dadbeb18e9b1585db8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 02/20] fix: splitDegree(1) returns parts that sum to 1

---
 lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h b/lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h
index f372b02..ac302b1 100644
--- a/lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h
+++ b/lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h
@@ -78,7 +78,7 @@ inline std::pair<int64_t, int64_t> splitDegree(int64_t n) {
   // Check if n is a power of 2
   if ((n & (n - 1)) == 0) {
     // Necessary for optimal depth
-    return {n / 2, n / 2};
+    return {n / 2, n - n / 2};
   } else {
     // [Lee et al. 2020] : Maximize the number of odd terms of Chebyshev basis
     // Find k = floor(log2(n-1))
-- 
2.43.0


From a1743caba97d2b7778d517a2250d564719ecb01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:43 +0000
Subject: [PATCH 03/20] fix: factorize does not overflow when squaring the
 trial divisor

---
 lib/Utils/APIntUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/APIntUtils.cpp b/lib/Utils/APIntUtils.cpp
index bdda3d3..cf25d87 100644
--- a/lib/Utils/APIntUtils.cpp
+++ b/lib/Utils/APIntUtils.cpp
@@ -121,7 +121,7 @@ std::vector<APInt> factorize(APInt n) {
   // Fast path for 64-bit integers or smaller
   if (n.getActiveBits() <= 64) {
     uint64_t val = n.getZExtValue();
-    for (uint64_t d = 2; d * d <= val; ++d) {
+    for (uint64_t d = 2; d <= val / d; ++d) {
       if (val % d == 0) {
         factors.push_back(APInt(width, d));
         while (val % d == 0) {
-- 
2.43.0


From 824c8abb468314d5f52508016e67472d9b3d0b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:43 +0000
Subject: [PATCH 04/20] fix: findPrimitive2nthRoot reports absence when 2n is
 zero or wider than q

---
 lib/Utils/MathUtils.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/Utils/MathUtils.cpp b/lib/Utils/MathUtils.cpp
index 9c3736d..066f26d 100644
--- a/lib/Utils/MathUtils.cpp
+++ b/lib/Utils/MathUtils.cpp
@@ -92,8 +92,13 @@ std::optional<APInt> findPrimitiveRoot(const APInt& q) {
 /// calculates r = g^((q-1)/2n) mod q. Since g has order q-1, the resulting
 /// r is guaranteed to be a primitive 2n-th root of unity.
 std::optional<APInt> findPrimitive2nthRoot(const APInt& q, uint64_t n) {
-  uint64_t two_n = 2 * n;
-  APInt two_n_ap(q.getBitWidth(), two_n);
+  // 2n may need one bit more than n; if it is zero or does not fit in the width
+  // of q, it cannot divide q - 1.
+  APInt two_n_wide = APInt(65, n).shl(1);
+  if (two_n_wide.isZero() || two_n_wide.getActiveBits() > q.getBitWidth()) {
+    return std::nullopt;
+  }
+  APInt two_n_ap = two_n_wide.zextOrTrunc(q.getBitWidth());
   if (!q.urem(two_n_ap).isOne()) {
     // 2n must divide q - 1, which means q % 2n == 1
     return std::nullopt;
-- 
2.43.0


From 52e31984006e65e6f09d41dd13b25f005974f9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:51 +0000
Subject: [PATCH 05/20] fix: getFlattenedIndex accumulates in 64 bits

---
 lib/Utils/TensorUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Utils/TensorUtils.cpp b/lib/Utils/TensorUtils.cpp
index 4a34bc9..0915a8d 100644
--- a/lib/Utils/TensorUtils.cpp
+++ b/lib/Utils/TensorUtils.cpp
@@ -16,8 +16,8 @@ namespace heir {
 int64_t getFlattenedIndex(RankedTensorType tensorType,
                           SmallVector<int64_t> indices) {
   auto rank = tensorType.getRank();
-  int flatIndex = 0;
-  int stride = 1;
+  int64_t flatIndex = 0;
+  int64_t stride = 1;
   for (int i = rank - 1; i >= 0; --i) {
     flatIndex += indices[i] * stride;
     stride *= tensorType.getDimSize(i);
-- 
2.43.0


From d798e8900a9b39c7b15fe1e27394661fb69dd405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:52 +0000
Subject: [PATCH 06/20] fix: getRowMajorLayoutMap uses the full stride for
 inputs of rank 3 and more

---
 lib/Utils/AffineMapUtils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Utils/AffineMapUtils.cpp b/lib/Utils/AffineMapUtils.cpp
index d9fa602..599de8b 100644
--- a/lib/Utils/AffineMapUtils.cpp
+++ b/lib/Utils/AffineMapUtils.cpp
@@ -67,13 +67,13 @@ AffineMap getRowMajorLayoutMap(RankedTensorType inputType,
 
   // First construct a single expression corresponding to the "flattened"
   // row-major indexing order.
+  int64_t stride = 1;
   for (int dim = dims.size() - 1; dim >= 0; --dim) {
     // iter 1: k
     // iter 2: k + size(k) * j
     // iter 3: k + size(k) * j + size(j) * size(k) * i
-    flattened = flattened
-                    ? flattened + inputType.getDimSize(dim + 1) * dims[dim]
-                    : dims[dim];
+    flattened = flattened ? flattened + stride * dims[dim] : dims[dim];
+    stride *= inputType.getDimSize(dim);
   }
 
   // Then "unflatten" with respect to the output type's shape.
-- 
2.43.0


From 7b4b33db9169b657755d06df76a3154b506529ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:06 +0000
Subject: [PATCH 07/20] fix: computeRingDim compares the modulus size without
 truncating it

---
 lib/Parameters/RLWESecurityParams.cpp | 2 +-
 lib/Parameters/RLWESecurityParams.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parameters/RLWESecurityParams.cpp b/lib/Parameters/RLWESecurityParams.cpp
index 33a37cd..02cd827 100644
--- a/lib/Parameters/RLWESecurityParams.cpp
+++ b/lib/Parameters/RLWESecurityParams.cpp
@@ -13,7 +13,7 @@ struct RLWESecurityParam rlweSecurityParam128BitClassic[] = {
     {1024, 26},   {2048, 53},   {4096, 106},   {8192, 214},
     {16384, 430}, {32768, 868}, {65536, 1747}, {131072, 3523}};
 
-int computeRingDim(int logPQ, int minRingDim) {
+int computeRingDim(double logPQ, int minRingDim) {
   for (auto& param : rlweSecurityParam128BitClassic) {
     if (param.ringDim < minRingDim) {
       continue;
diff --git a/lib/Parameters/RLWESecurityParams.h b/lib/Parameters/RLWESecurityParams.h
index 2ea4e4e..086a465 100644
--- a/lib/Parameters/RLWESecurityParams.h
+++ b/lib/Parameters/RLWESecurityParams.h
@@ -12,7 +12,7 @@ struct RLWESecurityParam {
 };
 
 // compute ringDim given logPQ under 128-bit classic security
-int computeRingDim(int logPQ, int minRingDim);
+int computeRingDim(double logPQ, int minRingDim);
 
 }  // namespace heir
 }  // namespace mlir
-- 
2.43.0


From 8b1e6cb1f55f6f7d69ac7b712dc71af74d64638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:57 +0000
Subject: [PATCH 08/20] fix: compute the default shift order in 64 bits

---
 lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp b/lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp
index 0adf255..e385f6b 100644
--- a/lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp
+++ b/lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp
@@ -17,7 +17,7 @@ SmallVector<int64_t> defaultShiftOrder(int64_t n) {
   SmallVector<int64_t> result;
   int64_t maxLog2 = APInt(64, n).getActiveBits();
   if (isPowerOfTwo(n)) maxLog2 -= 1;
-  for (int64_t i = 0; i < maxLog2; i++) result.push_back(1 << i);
+  for (int64_t i = 0; i < maxLog2; i++) result.push_back(int64_t{1} << i);
   return result;
 }
 
-- 
2.43.0


From d977215239ab6dde972cb08b21e329ed8da70198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:27 +0000
Subject: [PATCH 09/20] fix: baby-step giant-step skips only diagonals marked
 zero

---
 lib/Kernel/KernelImplementation.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Kernel/KernelImplementation.h b/lib/Kernel/KernelImplementation.h
index 9c21078..64e932c 100644
--- a/lib/Kernel/KernelImplementation.h
+++ b/lib/Kernel/KernelImplementation.h
@@ -242,8 +242,9 @@ implementBabyStepGiantStep(
           derivedRotationIndexFn(giantStepSize, j, i, period);
       size_t extractionIndex = i + j * giantStepSize;
 
-      // Skip the multiplication if the extraction index is zero.
-      if (zeroDiagonals.contains(extractionIndex)) {
+      // Skip the multiplication if the extraction index is marked zero.
+      if (zeroDiagonals.contains(extractionIndex) &&
+          zeroDiagonals.at(extractionIndex)) {
         continue;
       }
 
-- 
2.43.0


From 1b46e0f0f2dcb2ab60f2cfed2863cde2def13a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:15 +0000
Subject: [PATCH 10/20] fix: reduce bicyclic and tricyclic rotation indices mod
 n between products

---
 lib/Kernel/KernelImplementation.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Kernel/KernelImplementation.h b/lib/Kernel/KernelImplementation.h
index 64e932c..5dd7530 100644
--- a/lib/Kernel/KernelImplementation.h
+++ b/lib/Kernel/KernelImplementation.h
@@ -708,7 +708,8 @@ implementBicyclicMatmul(const T& packedA, const T& packedB, int64_t m,
     APInt mAPInt(64, m);
 
     // RotY(c) = (p * (c * m * p^{-1} mod n)) mod (n * p)
-    APInt rotyInner = (c * mAPInt * pInvModN.getSExtValue()).urem(nAPInt);
+    // Reduce mod n between the products, which may not fit in 64 bits.
+    APInt rotyInner = ((c * mAPInt).urem(nAPInt) * pInvModN).urem(nAPInt);
     APInt roty = (rotyInner * pAPInt).urem(nAPInt * pAPInt);
 
     APInt result = roty - APInt(64, period) * APInt(64, giantStepSize) *
@@ -763,7 +764,8 @@ implementTricyclicBatchMatmul(const T& packedA, const T& packedB, int64_t h,
     APInt c(64, giantStepIndex * giantStepSize + babyStepIndex);
 
     // rotyInner = (c * m * p^{-1}) mod n
-    APInt rotyInner = (c * mAPInt * pInvModN.getSExtValue()).urem(nAPInt);
+    // Reduce mod n between the products, which may not fit in 64 bits.
+    APInt rotyInner = ((c * mAPInt).urem(nAPInt) * pInvModN).urem(nAPInt);
 
     // rotY calculation from LKAA25 Eq. (22):
     // RotY(c) = (h * p * (c * m * p^{-1} mod n)) mod (h * n * p)
-- 
2.43.0


From df830c29d1f4fea6e14565dfc400b11fec754ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 11/20] fix: naive product with a zero polynomial reads no last
 term

---
 lib/Utils/Polynomial/Polynomial.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Utils/Polynomial/Polynomial.h b/lib/Utils/Polynomial/Polynomial.h
index ac67cba..59ba009 100644
--- a/lib/Utils/Polynomial/Polynomial.h
+++ b/lib/Utils/Polynomial/Polynomial.h
@@ -224,6 +224,7 @@ class PolynomialBase {
   }
 
   Derived naiveMul(const Derived& other) const {
+    if (isZero() || other.isZero()) return zero();
     SmallVector<Monomial> newTerms;
     size_t maxDegree = getDegree() + other.getDegree();
     newTerms.reserve(maxDegree + 1);
-- 
2.43.0


From 12396cbdeeb1f99796a48662f0aea14244cd1b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 12/20] fix: compose returns the zero polynomial for a zero
 outer polynomial

---
 lib/Utils/Polynomial/Polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/Polynomial/Polynomial.h b/lib/Utils/Polynomial/Polynomial.h
index 59ba009..1112ad6 100644
--- a/lib/Utils/Polynomial/Polynomial.h
+++ b/lib/Utils/Polynomial/Polynomial.h
@@ -267,7 +267,7 @@ class PolynomialBase {
 
     // Using Horner's method:
     // initialize to a_n
-    assert(!terms.empty());
+    if (terms.empty()) return zero();
     Monomial init = Monomial(terms.back());
     APInt zero = APInt(apintBitWidth, 0);
     init.setExponent(zero);
-- 
2.43.0


From 8270bab4d3d8d9728d4c3853ca7d78094a0d3705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 13/20] fix: Chebyshev composition of degree 2 subtracts d_2

---
 lib/Utils/Polynomial/Polynomial.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Utils/Polynomial/Polynomial.cpp b/lib/Utils/Polynomial/Polynomial.cpp
index f5240c5..3f897a6 100644
--- a/lib/Utils/Polynomial/Polynomial.cpp
+++ b/lib/Utils/Polynomial/Polynomial.cpp
@@ -145,6 +145,8 @@ ChebyshevPolynomial ChebyshevPolynomial::compose(
   SmallVector<APFloat> d_kplus2;
   SmallVector<APFloat> d_kplus1 = {c[n]};
   SmallVector<APFloat> d_2_coeffs;
+  // The loop below starts at k = n - 1, so it does not visit d_n.
+  if (n == 2) d_2_coeffs = d_kplus1;
 
   for (int k = n - 1; k >= 0; --k) {
     int deg_kplus1 = n - (k + 1);
-- 
2.43.0


From 7ffcdd440015af362675518e91c91f933d686f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 14/20] fix: Chebyshev composition of a polynomial without
 terms

---
 lib/Utils/Polynomial/Polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/Polynomial/Polynomial.cpp b/lib/Utils/Polynomial/Polynomial.cpp
index 3f897a6..bd19ccb 100644
--- a/lib/Utils/Polynomial/Polynomial.cpp
+++ b/lib/Utils/Polynomial/Polynomial.cpp
@@ -130,7 +130,7 @@ ChebyshevPolynomial ChebyshevPolynomial::compose(
   // compute the Chebyshev coefficients of each d_k iteratively.
 
   int n = getDegree();
-  if (n < 0) {
+  if (terms.empty()) {
     return ChebyshevPolynomial::zero();
   }
 
-- 
2.43.0


From c2a7cbdd8529e890d116d89c224f4bf1d80fa2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 15/20] fix: polynomial add merges terms of different exponents

---
 lib/Utils/Polynomial/Polynomial.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Utils/Polynomial/Polynomial.h b/lib/Utils/Polynomial/Polynomial.h
index 1112ad6..cf23d4a 100644
--- a/lib/Utils/Polynomial/Polynomial.h
+++ b/lib/Utils/Polynomial/Polynomial.h
@@ -213,6 +213,8 @@ class PolynomialBase {
         if (it2 == other.terms.end()) break;
       }
       if (it2 == other.terms.end()) continue;
+      // The previous loop may have passed over the exponent at it1.
+      if (it1->getExponent().ult(it2->getExponent())) continue;
 
       Monomial newTerm = it1->add(*it2);
       if (!newTerm.getCoefficient().isZero()) newTerms.push_back(newTerm);
-- 
2.43.0


From 4102aab4f9ce3d214bcf6b65ca9261e96c30cf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 16/20] fix: count loop iterations of a partial last step and
 of empty ranges correctly

---
 lib/Kernel/RotationCountVisitor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Kernel/RotationCountVisitor.cpp b/lib/Kernel/RotationCountVisitor.cpp
index 600fbb3..3966cda 100644
--- a/lib/Kernel/RotationCountVisitor.cpp
+++ b/lib/Kernel/RotationCountVisitor.cpp
@@ -265,8 +265,13 @@ int64_t RotationCountVisitor::operator()(
   bool bodyIsSecret = node.body ? nodeSecretStatus[node.body.get()] : false;
   nodeSecretStatus[thisNode] = initIsSecret || bodyIsSecret;
 
+  // The last iteration may cover only part of a step, and a loop with an empty
+  // range does not execute at all.
+  int64_t range = static_cast<int64_t>(node.upper) - node.lower;
+  int64_t numIterations = range > 0 ? (range + node.step - 1) / node.step : 0;
+
   // Total rotations = init + body rotations * number of iterations
-  return initCount + bodyCount * ((node.upper - node.lower) / node.step);
+  return initCount + bodyCount * numIterations;
 }
 
 int64_t RotationCountVisitor::operator()(const SplatNode& node) {
-- 
2.43.0


From a171b2338a1aaf31b2240f4d4365fb63b0177f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 17/20] fix: evaluate floorDiv of vectors and of zero

---
 lib/Kernel/EvalVisitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Kernel/EvalVisitor.cpp b/lib/Kernel/EvalVisitor.cpp
index cfe710b..54dc8e2 100644
--- a/lib/Kernel/EvalVisitor.cpp
+++ b/lib/Kernel/EvalVisitor.cpp
@@ -139,7 +139,7 @@ EvalResults EvalVisitor::operator()(const FloorDivNode<LiteralValue>& node) {
 
   // Scalar case
   const auto* lScalar = std::get_if<int>(&lVal);
-  if (*lScalar) {
+  if (lScalar) {
     return {LiteralValue(*lScalar / node.divisor)};
   }
 
-- 
2.43.0


From ff877fc78e50cbc94b7ee3c5a29d14a30f83e3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 18/20] fix: contracting a self-loop no longer removes the
 vertex

---
 lib/Utils/Graph/Graph.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index c01c705..81e157a 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -118,6 +118,14 @@ class Graph {
     if (!hasEdge(source, target)) return false;
 
     invalidateCachedEdges();
+    // Contracting a self-loop removes the loop; there is nothing to merge
+    if (source == target) {
+      outEdges[source].erase(source);
+      inEdges[source].erase(source);
+      weights.erase({source, source});
+      return true;
+    }
+
     // Merge target into source
     if (mergeFn) mergeFn(source, target);
 
-- 
2.43.0


From e484016b999c96ca8dc818771b8c87e423900631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 19/20] fix: condenseGraph leaves an acyclic graph when
 vertices have self-loops

---
 lib/Utils/Graph/Graph.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index 81e157a..e293c37 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -241,6 +241,8 @@ class Graph {
     auto sccs = getStronglyConnectedComponents();
 
     for (auto& scc : sccs) {
+      // a self-loop is a cycle of its own
+      for (const V& v : scc) contractEdge(v, v);
       if (scc.size() <= 1) continue;
 
       // needs multiples passes as contractEdge can create new edges between
-- 
2.43.0


From 4123a63a3b109772f4474b8074ef1259ff532410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 20/20] fix: getShortestPath returns a shortest path

---
 lib/Utils/Graph/Graph.h | 59 +++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 37 deletions(-)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index e293c37..a0c9367 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -446,14 +446,14 @@ class Graph {
   // assume uniform weight for edges; alternatively provide weight matrix
   FailureOr<std::vector<V>> getShortestPath(
       V start, V end, std::function<uint64_t(V, V)> weight_fn) {
-    std::vector<V> path;
-    std::queue<V> q;
+    if (!contains(start) || !contains(end)) return failure();
 
-    std::set<V> visited;
+    constexpr uint64_t kUnreachable = std::numeric_limits<uint64_t>::max();
+    std::queue<V> q;
     std::map<V, uint64_t> distance;  // from @start node
-    std::map<V, V> linkback;
+    std::map<V, V> linkback;         // the previous vertex on a shortest path
     for (auto& v : vertices) {
-      distance[v] = std::numeric_limits<uint64_t>::max();
+      distance[v] = kUnreachable;
     }
     distance[start] = 0;
 
@@ -463,43 +463,28 @@ class Graph {
       V curr = q.front();
       q.pop();
 
-      if (curr == end) {
-        distance[curr] = 0;
-        break;
-      }
-
-      if (!visited.insert(curr).second) {
-        // backedge
-        continue;
-      }
-
-      // nothing to reduce on this edge.
-      if (!outEdges.count(curr)) {
-        continue;
-      }
-
-      for (auto& next : outEdges.at(curr)) {
-        if (distance[next] > distance[curr] + weight_fn(curr, next)) {
-          linkback[curr] = next;
-          distance[next] = distance[curr] + weight_fn(curr, next);
-        } else if (distance[curr] == 0) {
-          linkback[curr] = next;
+      for (auto& next : edgesOutOf(curr)) {
+        uint64_t weight = weight_fn(curr, next);
+        // also skips edges that would overflow the distance
+        if (weight >= kUnreachable - distance[curr]) continue;
+        if (distance[next] > distance[curr] + weight) {
+          linkback[next] = curr;
+          distance[next] = distance[curr] + weight;
+          q.push(next);
         }
-        q.push(next);
       }
     }
 
-    if (distance[end] != std::numeric_limits<uint64_t>::max()) {
-      // some path found
-      auto curr = start;
-      while (curr != end) {
-        path.push_back(curr);
-        curr = linkback[curr];
-      }
-      path.push_back(end);
-    } else {
-      return failure();
+    if (distance[end] == kUnreachable) return failure();
+
+    std::vector<V> path;
+    V curr = end;
+    while (curr != start) {
+      path.push_back(curr);
+      curr = linkback[curr];
     }
+    path.push_back(start);
+    std::reverse(path.begin(), path.end());
     return path;
   }
 
-- 
2.43.0

