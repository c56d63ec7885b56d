From 3e2c79f8fcad54efc75bc5b79cec2d5bd112fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 01/73] fix: flatten with negative dimensions other than -1

---
 src/Tensor/TensorImpl.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Tensor/TensorImpl.cpp b/src/Tensor/TensorImpl.cpp
index b2ea842..527f990 100644
--- a/src/Tensor/TensorImpl.cpp
+++ b/src/Tensor/TensorImpl.cpp
@@ -91,14 +91,17 @@ void TensorImpl::reshape_(const IntArrayView shape) {
 }
 
 void TensorImpl::flatten_(int64_t startDim, int64_t endDim) {
+  if (startDim < 0) {
+    startDim += dim();
+  }
+  if (endDim < 0) {
+    endDim += dim();
+  }
   SizeVector retShape;
   for (int64_t i = 0; i < startDim; i++) {
     retShape.pushBack(shape_[i]);
   }
   int64_t flattenDims = 1;
-  if (endDim < 0) {
-    endDim = dim() - 1;
-  }
   for (int64_t i = startDim; i <= endDim; i++) {
     flattenDims *= shape_[i];
   }
-- 
2.43.0


From e64883de2767d23f4d0a2c34c80c0755467bf9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 02/73] fix: index on a slice ignored the slice's storage
 offset

---
 src/Operation/OpTransform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index b97ea9c..2547d76 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -111,7 +111,7 @@ Tensor indexOpImpl(const Tensor& self, const IntArrayView indices) {
     retShape.pushBack(self.shape(i));
   }
   // share storage
-  auto ret = Tensor(retShape, self.options(), self.storage(), dataIdx);
+  auto ret = Tensor(retShape, self.options().noGrad(), self.storage(), self.storageOffset() + dataIdx);
   ASSERT(dimStride == ret.numel());
   return ret;
 }
-- 
2.43.0


From 7e26e95fcb350dd5216f38594a45e3c292438ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:20 +0000
Subject: [PATCH 03/73] fix: arange over integers dropped the last element when
 the step does not divide the range

---
 src/Tensor/Tensor.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Tensor/Tensor.h b/src/Tensor/Tensor.h
index bad7ef0..e5a5fd3 100644
--- a/src/Tensor/Tensor.h
+++ b/src/Tensor/Tensor.h
@@ -327,7 +327,13 @@ Tensor::Tensor(const Array3d<T>& values) : Tensor(values, options::dtype(TypeToD
 template <typename T>
 Tensor Tensor::arange(T start, T stop, T step, Options options) {
   options.dtype(TypeToDType_v<T>);
-  auto steps = static_cast<int64_t>(std::ceil((stop - start) / step));
+  int64_t steps;
+  if constexpr (std::is_integral_v<T>) {
+    // integer division would truncate the count before it is rounded up
+    steps = static_cast<int64_t>(std::ceil(static_cast<double>(stop - start) / static_cast<double>(step)));
+  } else {
+    steps = static_cast<int64_t>(std::ceil((stop - start) / step));
+  }
   Tensor ret({steps}, options);
   ret.fillLinSpace_(start, step, steps);
   return ret;
-- 
2.43.0


From 88145b562edf4ceb21d1fc382665960a2d800566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 04/73] fix: indexed assignment wrote through to tensors
 sharing the storage

---
 src/Operation/OpTransformCpu.h    | 1 +
 src/Operation/OpTransformCuda.cuh | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index f8d1fe9..f5005e1 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -147,6 +147,7 @@ void indexPutAdvanceOpCpuImpl(Tensor& self, ArrayView<Tensor> indices, const Ten
   auto firstDim = indices[0].numel();
   auto dimStride = self.stride(len - 1);
 
+  self.copyOnWrite();
   T* selfPtr = self.dataPtr<T>();
   const T* valPtr = val.dataPtr<T>();
 
diff --git a/src/Operation/OpTransformCuda.cuh b/src/Operation/OpTransformCuda.cuh
index bfb781f..891d3f1 100644
--- a/src/Operation/OpTransformCuda.cuh
+++ b/src/Operation/OpTransformCuda.cuh
@@ -531,6 +531,7 @@ void indexPutAdvanceOpCudaImpl(Tensor& self, ArrayView<Tensor> indices, const Te
   auto firstDim = indices[0].numel();
   auto dimStride = self.stride(len - 1);
 
+  self.copyOnWrite();
   T* selfPtr = self.dataPtr<T>();
   const T* valPtr = val.dataPtr<T>();
 
-- 
2.43.0


From e741c8acfa0d7ff11548a0edb9dc883c05916e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:11 +0000
Subject: [PATCH 05/73] fix: unary operations with an output argument wrote
 through to tensors sharing its storage

---
 src/Operation/OpElemWiseCpu.h    | 1 +
 src/Operation/OpElemWiseCuda.cuh | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index b2b1348..766f277 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -307,6 +307,7 @@ Tensor unaryOpCpuImpl(const Tensor& self) {
 template <typename T, typename OP>
 void unaryOpOutCpuImpl(Tensor& out, const Tensor& self) {
   ASSERT(self.shape() == out.shape());
+  out.copyOnWrite();
   T* outPtr = out.dataPtr<T>();
   const T* selfPtr = self.dataPtr<T>();
   for (int64_t i = 0; i < self.numel(); i++) {
diff --git a/src/Operation/OpElemWiseCuda.cuh b/src/Operation/OpElemWiseCuda.cuh
index cbb3464..fb0d0ce 100644
--- a/src/Operation/OpElemWiseCuda.cuh
+++ b/src/Operation/OpElemWiseCuda.cuh
@@ -335,6 +335,7 @@ Tensor unaryOpCudaImpl(const Tensor& self) {
 template <typename T, typename OP>
 void unaryOpOutCudaImpl(Tensor& out, const Tensor& self) {
   ASSERT(self.shape() == out.shape());
+  out.copyOnWrite();
   T* outPtr = out.dataPtr<T>();
   const T* selfPtr = self.dataPtr<T>();
   int64_t n = self.numel();
-- 
2.43.0


From 38be0e79d2ba8286c30a5e6df79c493b26c3d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 06/73] fix: broadcasting with an empty dimension read past the
 operands

---
 src/Tensor/TensorIterator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tensor/TensorIterator.cpp b/src/Tensor/TensorIterator.cpp
index d7d51e7..93d15cb 100644
--- a/src/Tensor/TensorIterator.cpp
+++ b/src/Tensor/TensorIterator.cpp
@@ -81,7 +81,7 @@ bool TensorIteratorBase::broadcastShape(SizeVector& ret, const SmallVector<IntAr
         LOGE("Incompatible shapes for broadcasting");
         return false;
       }
-      dim = std::max(dim, d);
+      if (d != 1) dim = d;
     }
     ret[i] = dim;
   }
-- 
2.43.0


From f307263e0db27d8f5c27e5aed6b43568c9515757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 07/73] fix: sign of zero was -1 on the CPU

---
 src/Operation/OpElemWiseCpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index 766f277..a8bb948 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -30,7 +30,7 @@ struct OpCpuNeg {
 struct OpCpuSign {
   template <typename T>
   static T apply(const T& a) {
-    return a > 0 ? 1 : -1;
+    return a > 0 ? 1 : (a < 0 ? -1 : 0);
   }
 };
 
-- 
2.43.0


From e8cd12e1fd52ccd9793530bd2708aae60cb5761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:03 +0000
Subject: [PATCH 08/73] fix: reducing a 0-dim tensor returned the operand
 itself instead of a result

---
 src/Operation/OpReduce.cpp     |  6 ++++++
 src/Operation/OpReduce.h       |  3 +++
 src/Operation/OpReduceCpu.h    | 14 +++++++-------
 src/Operation/OpReduceCuda.cuh | 14 +++++++-------
 4 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/Operation/OpReduce.cpp b/src/Operation/OpReduce.cpp
index 0ef1a1f..467a6d3 100644
--- a/src/Operation/OpReduce.cpp
+++ b/src/Operation/OpReduce.cpp
@@ -8,6 +8,12 @@
 
 namespace tinytorch::op {
 
+Tensor reduceScalar(const Tensor &t) {
+  Tensor ret = t.clone();
+  ret.setRequiresGrad(false);
+  return ret;
+}
+
 SizeVector getReduceShape(const Tensor &t, int64_t dim, bool keepDims) {
   SizeVector retShape;
   retShape.reserve(t.dim());
diff --git a/src/Operation/OpReduce.h b/src/Operation/OpReduce.h
index 9fee26e..6fbda9a 100644
--- a/src/Operation/OpReduce.h
+++ b/src/Operation/OpReduce.h
@@ -13,6 +13,9 @@ namespace tinytorch::op {
 SizeVector getReduceShape(const Tensor& t, int64_t dim, bool keepDims);
 SizeVector getReduceShape(const Tensor& t, const DimArray<int64_t>& inAxis, bool keepDims);
 
+// the reduction of a 0-dim tensor: its value, as a result of its own
+Tensor reduceScalar(const Tensor& t);
+
 using ReduceOpFn = Tensor (*)(const Tensor& self);
 using ReduceOpDimFn = Tensor (*)(const Tensor& self, int64_t dim, bool keepDim);
 using ReduceOpDimIndicesFn = TensorPair (*)(const Tensor& self, int64_t dim, bool keepDim);
diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 77be05e..7729133 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -183,7 +183,7 @@ Tensor ReducerCpu::reduceMultiDim(const Tensor &t, const IntArrayView dims, bool
 template <typename T, typename OP>
 Tensor reduceOpAllCpuImpl(const Tensor &t) {
   if (t.isScalar()) {
-    return t;
+    return reduceScalar(t);
   }
   auto ret = Tensor::empty({}, t.options().noGrad());
   const T *tPtr = t.dataPtr<T>();
@@ -207,7 +207,7 @@ Tensor reduceOpArgMinMaxCpuImpl(const Tensor &t) {
 template <typename T, typename OP>
 TensorPair reduceOpMinMaxDimCpuImpl(const Tensor &t, int64_t dim, bool keepDims = false) {
   if (t.isScalar()) {
-    return {t, Tensor::scalar(0, t.options().noGrad().indices())};
+    return {reduceScalar(t), Tensor::scalar(0, t.options().noGrad().indices())};
   }
   return ReducerCpu::reduceIdxDim<T, OP>(t, dim, keepDims);
 }
@@ -215,7 +215,7 @@ TensorPair reduceOpMinMaxDimCpuImpl(const Tensor &t, int64_t dim, bool keepDims
 template <typename T>
 Tensor reduceOpSumDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool keepDims = false) {
   if (t.isScalar()) {
-    return t;
+    return reduceScalar(t);
   }
   ASSERT(!dims.empty());
   return ReducerCpu::reduceMultiDim<T>(t, dims, keepDims, [](T *retPtr, const T *tPtr, int64_t retIdx, int64_t srcIdx) {
@@ -236,7 +236,7 @@ Tensor reduceOpSumCpuImpl(const Tensor &t) {
 template <typename T>
 Tensor reduceOpMeanCpuImpl(const Tensor &t) {
   if (t.isScalar()) {
-    return t;
+    return reduceScalar(t);
   }
   auto ret = reduceOpAllCpuImpl<T, OpCpuReduceSum>(t);
   const auto r = 1.f / static_cast<float>(t.numel());
@@ -247,7 +247,7 @@ Tensor reduceOpMeanCpuImpl(const Tensor &t) {
 template <typename T>
 Tensor reduceOpMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool keepDims = false) {
   if (t.isScalar()) {
-    return t;
+    return reduceScalar(t);
   }
   ASSERT(!dims.empty());
   auto ret = reduceOpSumDimsCpuImpl<T>(t, dims, keepDims);
@@ -266,7 +266,7 @@ Tensor reduceOpMeanDimCpuImpl(const Tensor &t, const int64_t dim, bool keepDims
 template <typename T>
 TensorPair reduceOpVarMeanCpuImpl(const Tensor &t, bool unbiased = true) {
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), reduceScalar(t)};
   }
   const auto meanVal = op::mean(t);
 
@@ -292,7 +292,7 @@ template <typename T>
 TensorPair reduceOpVarMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool unbiased = true,
                                       bool keepDims = false) {
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), reduceScalar(t)};
   }
   ASSERT(!dims.empty());
   auto meanVal = op::meanOnDims(t, dims, true);
diff --git a/src/Operation/OpReduceCuda.cuh b/src/Operation/OpReduceCuda.cuh
index 47fc0f8..b46404b 100644
--- a/src/Operation/OpReduceCuda.cuh
+++ b/src/Operation/OpReduceCuda.cuh
@@ -639,7 +639,7 @@ template <typename T, typename OP>
 Tensor reduceOpAllCudaImpl(const Tensor& t) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return t;
+    return reduceScalar(t);
   }
   auto ret = Tensor::scalar(0, t.options().noGrad());
   const CudaT* tPtr = t.dataPtr<CudaT>();
@@ -665,7 +665,7 @@ template <typename T, typename OP>
 TensorPair reduceOpMinMaxDimCudaImpl(const Tensor& t, int64_t dim, bool keepDims = false) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return {t, Tensor::scalar(0, t.options().noGrad().indices())};
+    return {reduceScalar(t), Tensor::scalar(0, t.options().noGrad().indices())};
   }
   return ReducerCuda::reduceIdxDim<CudaT, OP>(t, dim, keepDims);
 }
@@ -674,7 +674,7 @@ template <typename T>
 Tensor reduceOpSumDimsCudaImpl(const Tensor& t, const IntArrayView dims, bool keepDims = false) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return t;
+    return reduceScalar(t);
   }
   ASSERT(!dims.empty());
 
@@ -728,7 +728,7 @@ template <typename T>
 Tensor reduceOpMeanCudaImpl(const Tensor& t) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return t;
+    return reduceScalar(t);
   }
   auto ret = reduceOpAllCudaImpl<CudaT, OpCudaReduceSum>(t);
   const auto r = 1.f / static_cast<float>(t.numel());
@@ -740,7 +740,7 @@ template <typename T>
 Tensor reduceOpMeanDimsCudaImpl(const Tensor& t, const IntArrayView dims, bool keepDims = false) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return t;
+    return reduceScalar(t);
   }
   ASSERT(!dims.empty());
   auto ret = reduceOpSumDimsCudaImpl<CudaT>(t, dims, keepDims);
@@ -760,7 +760,7 @@ template <typename T>
 TensorPair reduceOpVarMeanCudaImpl(const Tensor& t, bool unbiased = true) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), reduceScalar(t)};
   }
   const auto meanVal = op::mean(t);
   auto squaredDiff = Tensor::empty({t.numel()}, t.options().noGrad());
@@ -790,7 +790,7 @@ TensorPair reduceOpVarMeanDimsCudaImpl(const Tensor& t, IntArrayView dims, bool
                                        bool keepDims = false) {
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), reduceScalar(t)};
   }
   ASSERT(!dims.empty());
 
-- 
2.43.0


From 7ea5a5409b37b919345c745ba0dc651d735e461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:14 +0000
Subject: [PATCH 09/73] fix: min and max of values that are all infinite
 returned the largest finite number

---
 src/Operation/OpReduceCpu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 7729133..d32c46b 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -24,7 +24,7 @@ struct OpCpuReduceMin {
 
   template <typename T>
   static T defaultVal() {
-    return std::numeric_limits<T>::max();
+    return std::numeric_limits<T>::infinity();
   }
 };
 
@@ -41,7 +41,7 @@ struct OpCpuReduceMax {
 
   template <typename T>
   static T defaultVal() {
-    return -std::numeric_limits<T>::max();
+    return -std::numeric_limits<T>::infinity();
   }
 };
 
-- 
2.43.0


From 0779924a8ea6f8cd1de375188703cc2d8d53fa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 10/73] fix: varMean over dimensions kept the reduced
 dimensions in the mean

---
 src/Operation/OpReduceCpu.h    | 2 +-
 src/Operation/OpReduceCuda.cuh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index d32c46b..d5d77e0 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -311,7 +311,7 @@ TensorPair reduceOpVarMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims,
     }
     op::mulInplace(varVal, Tensor::scalar(r, varVal.options().noGrad()));
   }
-  return {varVal, meanVal};
+  return {varVal, meanVal.reshape(varVal.shape())};
 }
 
 template <typename T>
diff --git a/src/Operation/OpReduceCuda.cuh b/src/Operation/OpReduceCuda.cuh
index b46404b..951924a 100644
--- a/src/Operation/OpReduceCuda.cuh
+++ b/src/Operation/OpReduceCuda.cuh
@@ -825,7 +825,7 @@ TensorPair reduceOpVarMeanDimsCudaImpl(const Tensor& t, IntArrayView dims, bool
     r *= reduceSize / (reduceSize - 1.f);
   }
   op::mulInplace(varVal, Tensor::scalar(r, varVal.options().noGrad()));
-  return {varVal, meanVal};
+  return {varVal, meanVal.reshape(varVal.shape())};
 }
 
 template <typename T>
-- 
2.43.0


From 12db8d433b9069727d9ad3762cdf67884debe5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 11/73] fix: random operations drew from a copy of the
 generator, so consecutive draws repeated

---
 src/Operation/OpFillingCpu.h  | 6 +++---
 src/Operation/OpNNLayerCpu.h  | 2 +-
 src/Operation/OpSamplingCpu.h | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Operation/OpFillingCpu.h b/src/Operation/OpFillingCpu.h
index f64bc75..44d7941 100644
--- a/src/Operation/OpFillingCpu.h
+++ b/src/Operation/OpFillingCpu.h
@@ -79,7 +79,7 @@ template <typename T>
 void fillOpRandUniformCpuImpl(Tensor& self, float min, float max) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::uniform_real_distribution distribution(min, max);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
@@ -90,7 +90,7 @@ template <typename T>
 void fillOpRandNormalCpuImpl(Tensor& self, float mean, float stddev) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::normal_distribution distribution(mean, stddev);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
@@ -101,7 +101,7 @@ template <typename T>
 void fillOpRandBernoulliCpuImpl(Tensor& self, float p) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 4a771e1..53cad79 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -158,7 +158,7 @@ Tensor dropoutOpCpuImpl(const Tensor& self, float p) {
   Tensor out(self.shape(), self.options().noGrad());
   const auto* selfPtr = self.dataPtr<T>();
   auto* outPtr = out.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
     outPtr[i] = static_cast<T>(static_cast<float>(selfPtr[i]) * static_cast<float>(distribution(generator)) / p);
diff --git a/src/Operation/OpSamplingCpu.h b/src/Operation/OpSamplingCpu.h
index 1407625..26597e2 100644
--- a/src/Operation/OpSamplingCpu.h
+++ b/src/Operation/OpSamplingCpu.h
@@ -88,7 +88,7 @@ Tensor multinomialOpCpuImpl(const Tensor& self, int64_t numSamples, bool replace
   const T* selfPtr = self.dataPtr<T>();
   auto* retPtr = ret.dataPtr<int64_t>();
 
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::uniform_real_distribution<float> dist(0.f, 1.f);
 
   for (int64_t b = 0; b < batch; b++) {
-- 
2.43.0


From d74e8b384fc0381564ea73c512712886f5071041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 12/73] fix: converting to Bool truncated instead of testing
 for zero

---
 src/Operation/OpTransformCpu.cpp | 6 +++++-
 src/Operation/OpTransformCuda.cu | 6 +++++-
 src/Tensor/Scalar.h              | 2 ++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpTransformCpu.cpp b/src/Operation/OpTransformCpu.cpp
index 13bc098..ceda9e9 100644
--- a/src/Operation/OpTransformCpu.cpp
+++ b/src/Operation/OpTransformCpu.cpp
@@ -13,7 +13,11 @@ void dtypeCastCpuKernel(const void* src, void* dst, int64_t numel) {
   const SrcT* srcPtr = static_cast<const SrcT*>(src);
   DstT* dstPtr = static_cast<DstT*>(dst);
   for (auto i = 0; i < numel; i++) {
-    dstPtr[i] = static_cast<DstT>(srcPtr[i]);
+    if constexpr (std::is_same_v<DstT, DTypeToType_t<DType::Bool>>) {
+      dstPtr[i] = static_cast<bool>(srcPtr[i]);
+    } else {
+      dstPtr[i] = static_cast<DstT>(srcPtr[i]);
+    }
   }
 }
 
diff --git a/src/Operation/OpTransformCuda.cu b/src/Operation/OpTransformCuda.cu
index c25f0f3..8f9d204 100644
--- a/src/Operation/OpTransformCuda.cu
+++ b/src/Operation/OpTransformCuda.cu
@@ -12,7 +12,11 @@ template <typename SrcT, typename DstT>
 __global__ void kDtypeCast(const SrcT* src, DstT* dst, int64_t numel) {
   auto idx = blockIdx.x * blockDim.x + threadIdx.x;
   if (idx < numel) {
-    dst[idx] = static_cast<DstT>(src[idx]);
+    if constexpr (std::is_same_v<DstT, DTypeToType_t<DType::Bool>>) {
+      dst[idx] = static_cast<bool>(src[idx]);
+    } else {
+      dst[idx] = static_cast<DstT>(src[idx]);
+    }
   }
 }
 
diff --git a/src/Tensor/Scalar.h b/src/Tensor/Scalar.h
index 2dab524..fa41d22 100644
--- a/src/Tensor/Scalar.h
+++ b/src/Tensor/Scalar.h
@@ -39,6 +39,8 @@ class Scalar {
           using U = std::decay_t<decltype(val)>;
           if constexpr (std::is_same_v<U, T>) {
             return val;
+          } else if constexpr (std::is_same_v<T, DTypeToType_t<DType::Bool>>) {
+            return static_cast<bool>(val);
           } else {
             return static_cast<T>(val);
           }
-- 
2.43.0


From 13c8e3dbca8dbbd8f6fe211540f85aba37f09e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 13/73] fix: samplers reseeded the shared random generator

---
 src/Data/Sampler.h                     | 3 +--
 src/Distributed/DistributedSampler.cpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/Data/Sampler.h b/src/Data/Sampler.h
index 8ee1d47..8062c35 100644
--- a/src/Data/Sampler.h
+++ b/src/Data/Sampler.h
@@ -53,8 +53,7 @@ class RandomSampler : public Sampler {
     indices_.resize(datasetSize_);
     std::iota(indices_.begin(), indices_.end(), 0);
 
-    auto& gen = RandomGeneratorCPU::getGenerator();
-    gen.seed(static_cast<unsigned int>(seed_ + epoch_));
+    std::default_random_engine gen(static_cast<unsigned int>(seed_ + epoch_));
     std::shuffle(indices_.begin(), indices_.end(), gen);
   }
 
diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index 8963521..160e0a0 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -41,8 +41,7 @@ void DistributedSampler::generateIndices() {
   std::iota(allIndices.begin(), allIndices.end(), 0);
 
   if (shuffle_) {
-    auto& gen = RandomGeneratorCPU::getGenerator();
-    gen.seed(static_cast<unsigned int>(seed_ + epoch_));
+    std::default_random_engine gen(static_cast<unsigned int>(seed_ + epoch_));
     std::shuffle(allIndices.begin(), allIndices.end(), gen);
   }
 
-- 
2.43.0


From 49c15e6e2a7369f46d32ce8fe2b5c4baff27ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 14/73] fix: distributed sampler read past the data set when
 padding by more than its size, and rounded large sizes

---
 src/Distributed/DistributedSampler.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index 160e0a0..4236781 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -30,7 +30,7 @@ DistributedSampler::DistributedSampler(size_t datasetSize, std::optional<size_t>
   if (dropLast_) {
     numSamples_ = datasetSize_ / numReplicas_;
   } else {
-    numSamples_ = std::ceil(static_cast<float>(datasetSize_) * 1.0f / static_cast<float>(numReplicas_));
+    numSamples_ = (datasetSize_ + numReplicas_ - 1) / numReplicas_;
   }
   totalSize_ = numSamples_ * numReplicas_;
   generateIndices();
@@ -46,9 +46,8 @@ void DistributedSampler::generateIndices() {
   }
 
   if (!dropLast_) {
-    if (allIndices.size() < totalSize_) {
-      allIndices.insert(allIndices.end(), allIndices.begin(),
-                        allIndices.begin() + static_cast<int64_t>(totalSize_ - allIndices.size()));
+    for (size_t i = 0; datasetSize_ > 0 && allIndices.size() < totalSize_; i++) {
+      allIndices.push_back(allIndices[i % datasetSize_]);
     }
   } else {
     allIndices.resize(totalSize_);
-- 
2.43.0


From 38653501c2c2175b2cfab5ad0ef45a7c258d1d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 15/73] fix: data loader lost samples of large data sets
 through single precision rounding

---
 src/Data/DataLoader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Data/DataLoader.h b/src/Data/DataLoader.h
index f0b7be8..35eeca6 100644
--- a/src/Data/DataLoader.h
+++ b/src/Data/DataLoader.h
@@ -31,7 +31,7 @@ class DataLoader {
     if (dropLast) {
       batchCnt_ = indices_.size() / batchSize;
     } else {
-      batchCnt_ = std::ceil(static_cast<float>(indices_.size()) * 1.0f / static_cast<float>(batchSize));
+      batchCnt_ = (indices_.size() + batchSize - 1) / batchSize;
     }
   }
 
-- 
2.43.0


From 3b69e56e90b29b8c80957edc02d433781f583783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:56 +0000
Subject: [PATCH 16/73] fix: matmul with batch dimensions of different rank or
 vector operands read wrong matrices and returned wrong shapes

---
 src/Operation/OpLinalg.cpp | 112 +++++++++++++------------------------
 1 file changed, 39 insertions(+), 73 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index 6d956dc..10c6211 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -8,19 +8,6 @@
 
 namespace tinytorch::op {
 
-inline SizeVector makePaddedStrides(const IntArrayView &strides, int64_t targetDim) {
-  auto srcSize = static_cast<int64_t>(strides.size());
-  if (srcSize >= targetDim) {
-    return {strides};
-  }
-  SizeVector result(targetDim, 0);
-  auto offset = targetDim - srcSize;
-  for (int64_t i = 0; i < srcSize; i++) {
-    result[offset + i] = strides[i];
-  }
-  return result;
-}
-
 SizeVector broadcastShape(const IntArrayView t0, const IntArrayView t1, int64_t skipLast) {
   SizeVector retShape = SizeVector(t0.size() > t1.size() ? t0 : t1);
 
@@ -102,9 +89,26 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
   auto gemm = getGemmFunc<T>(a.device().type);
   ASSERT(gemm != nullptr);
 
+  // vector operands do not keep the dimension added to them
+  auto dropAddedDims = [&]() {
+    if (prependA || appendB) {
+      SizeVector shape(IntArrayView(retShape.data(), retDimCnt - 2));
+      if (!prependA) {
+        shape.pushBack(m);
+      }
+      if (!appendB) {
+        shape.pushBack(n);
+      }
+      retTensor.reshape_(shape);
+    }
+  };
+
   if (retDimCnt > 2) {
     // batched matrix multiply with broadcasting
-    int64_t batchSize = retTensor.numel() / (m * n);
+    int64_t batchSize = 1;
+    for (int64_t i = 0; i < retDimCnt - 2; i++) {
+      batchSize *= retShape[i];
+    }
 
     // strided batched gemm
     auto gemmStridedBatched = getGemmStridedBatchedFunc<T>(a.device().type);
@@ -135,20 +139,25 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
         gemmStridedBatched(retPtr, selfPtr, otherPtr, m, k, n, strideA, strideB, strideC, batchSize, transA, transB,
                            a.device().index);
 
-        // reduce dimension if necessary
-        if (appendB) {
-          if (prependA) {
-            retTensor.reshape_({});
-          } else {
-            retTensor.reshape_({m});
-          }
-        }
+        dropAddedDims();
         return retTensor;
       }
     }
 
-    SizeVector aStrides = makePaddedStrides(a.strides(), retTensor.dim());
-    SizeVector bStrides = makePaddedStrides(b.strides(), retTensor.dim());
+    // offset of the matrix of a batch, batch dimensions aligned at the last one and extent 1 repeated
+    auto batchOffset = [&retShape, retDimCnt](const SizeVector &shape, int64_t batch) {
+      int64_t shift = retDimCnt - static_cast<int64_t>(shape.size());
+      int64_t stride = shape[shape.size() - 2] * shape.back();
+      int64_t offset = 0;
+      for (auto i = retDimCnt - 3; i >= shift; i--) {
+        if (shape[i - shift] != 1) {
+          offset += batch % retShape[i] * stride;
+          stride *= shape[i - shift];
+        }
+        batch /= retShape[i];
+      }
+      return offset;
+    };
 
     // pointer arrays based batched gemm
     auto gemmBatched = getGemmBatchedFunc<T>(a.device().type);
@@ -159,21 +168,8 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
       const T **cPtrsHost = reinterpret_cast<const T **>(ptrsHost.data() + batchSize * 2);
 
       for (int64_t batch = 0; batch < batchSize; batch++) {
-        int64_t aOffset = 0;
-        int64_t bOffset = 0;
-        int64_t tmp = batch;
-        for (auto i = retDimCnt - 3; i >= 0; i--) {
-          int64_t index = tmp % retShape[i];
-          tmp /= retShape[i];
-          if (static_cast<int64_t>(a.shape().size()) > i && a.shape()[i] != 1) {
-            aOffset += index * aStrides[i];
-          }
-          if (static_cast<int64_t>(b.shape().size()) > i && b.shape()[i] != 1) {
-            bOffset += index * bStrides[i];
-          }
-        }
-        aPtrsHost[batch] = selfPtr + aOffset;
-        bPtrsHost[batch] = otherPtr + bOffset;
+        aPtrsHost[batch] = selfPtr + batchOffset(shapeA, batch);
+        bPtrsHost[batch] = otherPtr + batchOffset(shapeB, batch);
         cPtrsHost[batch] = retPtr + batch * m * n;
       }
 
@@ -189,50 +185,20 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
 
       gemmBatched(cPtrsDevice, aPtrsDevice, bPtrsDevice, m, k, n, batchSize, transA, transB, a.device().index);
 
-      // reduce dimension if necessary
-      if (appendB) {
-        if (prependA) {
-          retTensor.reshape_({});
-        } else {
-          retTensor.reshape_({m});
-        }
-      }
+      dropAddedDims();
       return retTensor;
     }
 
     // fallback: loop-based batched gemm
     for (int64_t batch = 0; batch < batchSize; batch++) {
-      int64_t aOffset = 0;
-      int64_t bOffset = 0;
-      int64_t tmp = batch;
-      for (auto i = retDimCnt - 3; i >= 0; i--) {
-        int64_t index = tmp % retShape[i];
-        tmp /= retShape[i];
-        if (static_cast<int64_t>(a.shape().size()) > i && a.shape()[i] != 1) {
-          aOffset += index * aStrides[i];
-        }
-        if (static_cast<int64_t>(b.shape().size()) > i && b.shape()[i] != 1) {
-          bOffset += index * bStrides[i];
-        }
-      }
-
-      gemm(retPtr + batch * m * n, selfPtr + aOffset, otherPtr + bOffset, m, k, n, transA, transB, a.device().index);
+      gemm(retPtr + batch * m * n, selfPtr + batchOffset(shapeA, batch), otherPtr + batchOffset(shapeB, batch), m, k, n,
+           transA, transB, a.device().index);
     }
   } else {
     gemm(retPtr, selfPtr, otherPtr, m, k, n, transA, transB, a.device().index);
-    if (prependA) {
-      retTensor.reshape_({n});
-    }
   }
 
-  // reduce dimension if necessary
-  if (appendB) {
-    if (prependA) {
-      retTensor.reshape_({});
-    } else {
-      retTensor.reshape_({m});
-    }
-  }
+  dropAddedDims();
 
   return retTensor;
 }
-- 
2.43.0


From 3997c0b9a116fa15dff553484acf68dd55c947ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 17/73] fix: stored gradients shared memory with the upstream
 gradient and with other gradients

---
 src/Tensor/AutogradMeta.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index e7925d7..6f52a34 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -22,7 +22,12 @@ void AutogradMeta::setGradFn(const std::shared_ptr<FunctionBase> &fn) {
   fn->weakOwner = shared_from_this();
 }
 
-void AutogradMeta::setGrad(const Tensor &grad) { grad_ = grad; }
+void AutogradMeta::setGrad(const Tensor &grad) {
+  // a handle copy would let later accumulation change the caller's tensor
+  if (&grad != &grad_) {
+    grad_ = grad.defined() ? grad.clone() : grad;
+  }
+}
 
 void AutogradMeta::setGrad(Tensor &&grad) { grad_ = std::move(grad); }
 
@@ -30,7 +35,8 @@ void AutogradMeta::addGrad(const Tensor &grad) {
   if (grad_.defined()) {
     op::addInplace(grad_, grad, 1);
   } else {
-    grad_ = grad;
+    // accumulating in place must not reach other holders of this tensor
+    grad_ = grad.clone();
   }
 }
 
@@ -38,7 +44,7 @@ void AutogradMeta::addGrad(Tensor &&grad) {
   if (grad_.defined()) {
     op::addInplace(grad_, grad, 1);
   } else {
-    grad_ = std::move(grad);
+    grad_ = grad.clone();
   }
 }
 
-- 
2.43.0


From 48357f804abce5e099d3a7ef3cb62f83c1142a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 18/73] fix: gradients of intermediate tensors leaked from one
 backward pass into the next

---
 src/Tensor/AutogradMeta.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index 6f52a34..e92dcf6 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -73,6 +73,14 @@ void AutogradMeta::backward(const Tensor &grad) {
     buildBackwardGraph();
   }
 
+  // results of an earlier pass over intermediate tensors do not belong to this one
+  for (auto &currFunc : backwardGraph_) {
+    auto owner = currFunc->weakOwner.lock();
+    if (owner != nullptr && !owner->isLeaf()) {
+      owner->grad_ = {};
+    }
+  }
+
   addGrad(grad);
   for (auto &currFunc : backwardGraph_) {
     auto owner = currFunc->weakOwner.lock();
-- 
2.43.0


From 30256421e6544ce28afc82a1893504497e3664b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 19/73] fix: removing a gradient hook shifted the identifiers
 of the hooks registered after it

---
 src/Tensor/AutogradMeta.cpp | 15 ++++++++++-----
 src/Tensor/AutogradMeta.h   |  4 +++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index e92dcf6..3c57392 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -90,17 +90,22 @@ void AutogradMeta::backward(const Tensor &grad) {
 }
 
 int64_t AutogradMeta::registerHook(Hook::FnType fn, void *ctx) {
-  hooks_.push_back({fn, ctx});
-  return static_cast<int64_t>(hooks_.size() - 1);
+  hooks_.emplace_back(nextHookId_, Hook{fn, ctx});
+  return nextHookId_++;
 }
 
 void AutogradMeta::unregisterHook(int64_t hid) {
-  ASSERT(hid >= 0 && hid < static_cast<int64_t>(hooks_.size()));
-  hooks_.erase(hooks_.begin() + hid);
+  for (auto it = hooks_.begin(); it != hooks_.end(); ++it) {
+    if (it->first == hid) {
+      hooks_.erase(it);
+      return;
+    }
+  }
+  ASSERT(false && "unregisterHook error: unknown hook id");
 }
 
 void AutogradMeta::applyHooks() {
-  for (auto &h : hooks_) {
+  for (auto &[hid, h] : hooks_) {
     h.fn(h.ctx, grad_);
   }
 }
diff --git a/src/Tensor/AutogradMeta.h b/src/Tensor/AutogradMeta.h
index 805a465..3cc484d 100644
--- a/src/Tensor/AutogradMeta.h
+++ b/src/Tensor/AutogradMeta.h
@@ -7,6 +7,7 @@
 #pragma once
 
 #include <memory>
+#include <utility>
 #include <vector>
 
 #include "Tensor.h"
@@ -40,7 +41,8 @@ class AutogradMeta : public std::enable_shared_from_this<AutogradMeta> {
   Tensor grad_;
   std::shared_ptr<FunctionBase> gradFn_;
   std::vector<std::shared_ptr<FunctionBase>> backwardGraph_;
-  std::vector<Hook> hooks_;
+  std::vector<std::pair<int64_t, Hook>> hooks_;  // in registration order, with the id handed out
+  int64_t nextHookId_ = 0;
 };
 
 }  // namespace tinytorch
-- 
2.43.0


From 349ea7e4a0bdc92f0e735916f0a138ca949497c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 20/73] fix: views of gradient-requiring tensors trapped inside
 a no-gradient scope

---
 src/Tensor/Function.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Tensor/Function.h b/src/Tensor/Function.h
index e99a597..85a0d61 100644
--- a/src/Tensor/Function.h
+++ b/src/Tensor/Function.h
@@ -85,8 +85,9 @@ template <typename TensorType>
 void handleOutputTensor(TensorType& t, bool shouldRequireGrad, const std::shared_ptr<FunctionBase>& fn) {
   if (shouldRequireGrad) {
     t.setRequiresGrad(true, fn);
-  } else {
-    ASSERT(!t.requiresGrad());
+  } else if (t.defined() && t.requiresGrad()) {
+    // a result sharing the operand's options does not inherit the flag
+    t.setRequiresGrad(false);
   }
 }
 
-- 
2.43.0


From 3478937bdecb59d9c94c972dc52a8fca6884dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 21/73] fix: in-place operations on recorded tensors were
 missing from the gradient

---
 src/Tensor/Tensor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index bac3612..97b4d17 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -108,6 +108,12 @@ void Tensor::initAutogradMeta(const std::shared_ptr<FunctionBase> &fn) {
 }
 
 void Tensor::inplaceSet(Tensor &&val) {
+  if (val.requiresGrad() && !isLeaf()) {
+    // the recorded operation becomes part of this tensor's history
+    impl_ = std::move(val.impl_);
+    gradMeta_ = std::move(val.gradMeta_);
+    return;
+  }
   auto reqGrad = requiresGrad();
   impl_ = std::move(val.impl_);
   impl_->options().requiresGrad(reqGrad);
-- 
2.43.0


From 50d95527db7cd4b878dd8b3bb9c1b50a5c4ecb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 22/73] fix: gradient of an operand broadcast by leading
 dimensions of extent 1 had the wrong shape

---
 src/Function/FuncElemWise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Function/FuncElemWise.h b/src/Function/FuncElemWise.h
index 0ccbec0..1da7a59 100644
--- a/src/Function/FuncElemWise.h
+++ b/src/Function/FuncElemWise.h
@@ -28,7 +28,7 @@ static Tensor reduceGrad(const Tensor& self, const Tensor& grad) {
   }
 
   if (dims.empty()) {
-    return grad;
+    return self.shape() == grad.shape() ? grad : op::reshape(grad, self.shape());
   }
 
   auto ret = op::sumOnDims(grad, dims, true);
-- 
2.43.0


From 2f973ad3b0267b424c0da27afdcd8fe316be7ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 23/73] fix: gradient of pow at zero was not a number

---
 src/Operation/OpElemWiseCpu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index a8bb948..dab4daf 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -182,14 +182,14 @@ struct OpCpuPow {
 struct OpCpuPowBackwardP1 {
   template <typename T>
   static T apply(const T& a, const T& b, const T& grad) {
-    return grad * b * std::pow(a, b - 1);
+    return b == 0 ? T(0) : T(grad * b * std::pow(a, b - 1));
   }
 };
 
 struct OpCpuPowBackwardP2 {
   template <typename T>
   static T apply(const T& a, const T& b, const T& grad) {
-    return grad * std::pow(a, b) * std::log(a);
+    return a == 0 && b >= 0 ? T(0) : T(grad * std::pow(a, b) * std::log(a));
   }
 };
 
-- 
2.43.0


From 09ffba05ce0c169dbcfca64db85f12017791cb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 24/73] fix: the scale of sub was missing from the gradient

---
 src/Function/FuncElemWise.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Function/FuncElemWise.h b/src/Function/FuncElemWise.h
index 1da7a59..9753620 100644
--- a/src/Function/FuncElemWise.h
+++ b/src/Function/FuncElemWise.h
@@ -90,18 +90,22 @@ class FuncAdd : public Function<FuncAdd> {
 class FuncSub : public Function<FuncSub> {
  public:
   static Tensor forward(AutogradContext* ctx, const Tensor& self, const Tensor& other, const Scalar& alpha) {
+    if (ctx) {
+      ctx->pushData(alpha.to<float>());
+    }
     return op::sub(self, other, alpha);
   }
 
   static void backward(AutogradContext* ctx, const Tensor& grad) {
     auto& self = ctx->savedInputs[0];
     auto& other = ctx->savedInputs[1];
+    auto alpha = ctx->savedData.front().toFloat();
 
     if (self.requiresGrad()) {
       self.addGrad(reduceGrad(self, grad));
     }
     if (other.requiresGrad()) {
-      other.addGrad(reduceGrad(other, op::neg(grad)));
+      other.addGrad(reduceGrad(other, op::mul(grad, Tensor::scalar(-alpha, grad.options().noGrad()))));
     }
   }
 };
-- 
2.43.0


From e2a785e06525fd4db44e2676bcba0ffd1f4b806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 25/73] fix: gradient of permute was reshaped instead of
 permuted back

---
 src/Function/FuncTransform.h | 47 ++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/Function/FuncTransform.h b/src/Function/FuncTransform.h
index 5afc356..bfa4523 100644
--- a/src/Function/FuncTransform.h
+++ b/src/Function/FuncTransform.h
@@ -30,11 +30,6 @@ DEFINE_TRANSFORM_FUNCTION(FuncReshape, (AutogradContext * ctx, const Tensor& sel
 DEFINE_TRANSFORM_FUNCTION(FuncView, (AutogradContext * ctx, const Tensor& self, const IntArrayView shape),
                           return op::view(self, shape););
 
-DEFINE_TRANSFORM_FUNCTION(FuncPermute, (AutogradContext * ctx, const Tensor& self, const IntArrayView dims),
-                          return op::permute(self, dims););
-
-DEFINE_TRANSFORM_FUNCTION(FuncPermuteAll, (AutogradContext * ctx, const Tensor& self), return op::permuteAll(self););
-
 DEFINE_TRANSFORM_FUNCTION(FuncFlatten,
                           (AutogradContext * ctx, const Tensor& self, int64_t startDim = 0, int64_t endDim = -1),
                           return op::flatten(self, startDim, endDim););
@@ -49,6 +44,48 @@ DEFINE_TRANSFORM_FUNCTION(FuncSqueeze, (AutogradContext * ctx, const Tensor& sel
 DEFINE_TRANSFORM_FUNCTION(FuncUnsqueeze, (AutogradContext * ctx, const Tensor& self, int64_t dim),
                           return op::unsqueeze(self, dim););
 
+class FuncPermute : public Function<FuncPermute> {
+ public:
+  static Tensor forward(AutogradContext* ctx, const Tensor& self, const IntArrayView dims) {
+    auto output = op::permute(self, dims);
+    if (ctx) {
+      // dimension d of the gradient goes back to where the operand had it
+      auto ndim = static_cast<int64_t>(dims.size());
+      std::vector<IValue> inverse(dims.size());
+      for (int64_t i = 0; i < ndim; i++) {
+        inverse[dims[i] < 0 ? dims[i] + ndim : dims[i]] = i;
+      }
+      ctx->pushData(std::move(inverse));
+    }
+    return output;
+  }
+
+  static void backward(AutogradContext* ctx, const Tensor& grad) {
+    auto& self = ctx->savedInputs[0];
+    auto inverse = ctx->popData();
+
+    if (self.requiresGrad()) {
+      SizeVector dims;
+      for (auto& d : inverse.toList()) {
+        dims.pushBack(d.toInt64());
+      }
+      self.addGrad(op::permute(grad, dims));
+    }
+  }
+};
+
+class FuncPermuteAll : public Function<FuncPermuteAll> {
+ public:
+  static Tensor forward(AutogradContext* ctx, const Tensor& self) { return op::permuteAll(self); }
+  static void backward(AutogradContext* ctx, const Tensor& grad) {
+    auto& self = ctx->savedInputs[0];
+
+    if (self.requiresGrad()) {
+      self.addGrad(op::permuteAll(grad));
+    }
+  }
+};
+
 class FuncTranspose : public Function<FuncTranspose> {
  public:
   static Tensor forward(AutogradContext* ctx, const Tensor& self, int64_t dim0, int64_t dim1) {
-- 
2.43.0


From fa2cb7e2225dd19bed489db448b0f0e540b53989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 26/73] fix: gradient of linear was wrong for inputs that are
 not matrices

---
 src/Function/FuncNNLayer.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 1003673..db17e8d 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -27,14 +27,20 @@ class FuncLinear : public Function<FuncLinear> {
     auto& weight = ctx->savedInputs[1];
     auto& bias = ctx->savedInputs[2];
 
+    // the leading dimensions of the input are all rows of one matrix
+    auto toRows = [](const Tensor& t) {
+      return t.dim() == 2 ? t : op::reshape(t, IntArrayView{-1, t.shape(-1)});
+    };
+
     if (input.requiresGrad()) {
-      input.addGrad(op::matmul(grad, weight, false, false));
+      auto inputGrad = op::matmul(toRows(grad), weight, false, false);
+      input.addGrad(op::reshape(inputGrad, input.shape()));
     }
     if (weight.requiresGrad()) {
-      weight.addGrad(op::matmul(grad, input, true, false));
+      weight.addGrad(op::matmul(toRows(grad), toRows(input), true, false));
     }
     if (bias.defined() && bias.requiresGrad()) {
-      bias.addGrad(op::sumOnDim(grad, 0, false));
+      bias.addGrad(op::sumOnDim(toRows(grad), 0, false));
     }
   }
 };
-- 
2.43.0


From 53e2ccfde7a595ad8211988828e0aca7c4c428d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 27/73] fix: conv2d with several output channels returned them
 interleaved

---
 src/Function/FuncNNLayer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index db17e8d..f6f9ac6 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -173,7 +173,8 @@ class FuncConv2D : public Function<FuncConv2D> {
       ASSERT(bias.shape()[0] == outChannels);
       op::addInplace(ret, bias, 1);
     }
-    ret.reshape_({batch, outChannels, outH, outW});
+    ret.reshape_({batch, outH, outW, outChannels});
+    ret = op::permute(ret, IntArrayView{0, 3, 1, 2});
 
     if (ctx) {
       ctx->pushData(stride);
@@ -194,7 +195,7 @@ class FuncConv2D : public Function<FuncConv2D> {
     auto stride = ctx->popData().toDim2D();
     auto padding = ctx->popData().toDim2D();
 
-    auto gradW = op::reshape(grad, IntArrayView{-1, outChannels});
+    auto gradW = op::reshape(op::permute(grad, IntArrayView{0, 2, 3, 1}), IntArrayView{-1, outChannels});
     auto colW = op::reshape(weight, IntArrayView{outChannels, -1});
 
     if (input.requiresGrad()) {
-- 
2.43.0


From 410cd347c62cedf7c016d4d9663ad1a9e8a052bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 28/73] fix: maxPool2d with several channels returned them
 interleaved

---
 src/Function/FuncNNLayer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index f6f9ac6..3f090d0 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -101,7 +101,8 @@ class FuncMaxPool : public Function<FuncMaxPool> {
     auto maxIndices = maxRet.second;
 
     auto output = maxRet.first;
-    output.reshape_({batch, channels, outH, outW});
+    output.reshape_({batch, outH, outW, channels});
+    output = op::permute(output, IntArrayView{0, 3, 1, 2});
 
     if (ctx) {
       ctx->pushData(kernel);
@@ -135,9 +136,10 @@ class FuncMaxPool : public Function<FuncMaxPool> {
     if (input.requiresGrad()) {
       auto maxIndices = ctx->popData().toTensor();
 
+      auto gradFlat = op::flatten(op::permute(grad, IntArrayView{0, 2, 3, 1}), 0, -1);
       auto gradCol = Tensor::zeros({grad.numel(), kernel.h * kernel.w}, input.options().noGrad());
       auto idx = Tensor::arange<int64_t>(0, grad.numel(), 1, input.options().noGrad());
-      op::indexPutAdvance(gradCol, ArrayView<Tensor>{idx, maxIndices}, grad);
+      op::indexPutAdvance(gradCol, ArrayView<Tensor>{idx, maxIndices}, gradFlat);
       gradCol.reshape_({batch * outH * outW, channels * kernel.h * kernel.w});
       auto inputGrad = op::col2im(gradCol, shape, kernel, stride, padding);
       // TODO fuse
-- 
2.43.0


From 2a168141d3f2f380cb1a55524575d677378ba823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 29/73] fix: maxPool2d took padding for zeros

---
 src/Function/FuncNNLayer.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 3f090d0..b93c0cb 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -95,6 +95,12 @@ class FuncMaxPool : public Function<FuncMaxPool> {
     auto outW = (width - kernel.w + 2 * padding.w) / stride.w + 1;
 
     auto col = op::im2col(input, kernel, stride, padding);
+    if (padding.h > 0 || padding.w > 0) {
+      // padding is no candidate for the maximum
+      auto inside = op::im2col(Tensor::onesLike(input, input.options().noGrad()), kernel, stride, padding);
+      auto outside = op::eq(inside, Tensor::scalar(0, inside.options()));
+      op::fillMaskedInplace(col, outside, -std::numeric_limits<float>::infinity());
+    }
     col.reshape_({-1, kernel.h * kernel.w});
 
     auto maxRet = op::maxOnDim(col, 1, false);
-- 
2.43.0


From a7ff9b8e27ed7a5dbf8607fefa74c7c4590bddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 30/73] fix: gradient of nllLoss ignored the upstream gradient

---
 src/Operation/OpLossCpu.h    | 2 +-
 src/Operation/OpLossCuda.cuh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpLossCpu.h b/src/Operation/OpLossCpu.h
index 4c10b25..5fc15cd 100644
--- a/src/Operation/OpLossCpu.h
+++ b/src/Operation/OpLossCpu.h
@@ -79,7 +79,7 @@ Tensor nllLossOpBackwardCpuImpl(const Tensor& grad, const Tensor& input, const T
   auto batchSize = input.shape(0);
   auto idx = Tensor::arange<int64_t>(0, batchSize, 1, input.options().noGrad());
   Tensor out = Tensor::zeros(input.shape(), input.options().noGrad());
-  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, Tensor::scalar(-1, out.options().noGrad()));
+  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, op::neg(grad));
 
   switch (reduction) {
     case LossReduction::MEAN:
diff --git a/src/Operation/OpLossCuda.cuh b/src/Operation/OpLossCuda.cuh
index d62baf0..be215f9 100644
--- a/src/Operation/OpLossCuda.cuh
+++ b/src/Operation/OpLossCuda.cuh
@@ -79,7 +79,7 @@ Tensor nllLossOpBackwardCudaImpl(const Tensor& grad, const Tensor& input, const
   auto batchSize = input.shape(0);
   auto idx = Tensor::arange<int64_t>(0, batchSize, 1, input.options().noGrad());
   Tensor out = Tensor::zeros(input.shape(), input.options().noGrad());
-  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, Tensor::scalar(-1, out.options().noGrad()));
+  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, op::neg(grad));
 
   switch (reduction) {
     case LossReduction::MEAN:
-- 
2.43.0


From 75269b08a8c993547181498aff37a9fe2090a42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 31/73] fix: gradient of mseLoss with broadcast operands had
 the wrong shape and scale

---
 src/Function/FuncLoss.h      | 3 ++-
 src/Operation/OpLossCpu.h    | 2 +-
 src/Operation/OpLossCuda.cuh | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Function/FuncLoss.h b/src/Function/FuncLoss.h
index 1f54ca7..f485f31 100644
--- a/src/Function/FuncLoss.h
+++ b/src/Function/FuncLoss.h
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include "FuncElemWise.h"
 #include "Operations.h"
 #include "Tensor/Function.h"
 
@@ -28,7 +29,7 @@ namespace tinytorch::function {
       auto reduction = ctx->popData().toEnum<LossReduction>();                                                        \
                                                                                                                       \
       if (input.requiresGrad()) {                                                                                     \
-        input.addGrad(BACKWARD_OP(grad, input, target, reduction));                                                   \
+        input.addGrad(reduceGrad(input, BACKWARD_OP(grad, input, target, reduction)));                                \
       }                                                                                                               \
       ASSERT(!target.requiresGrad());                                                                                 \
     }                                                                                                                 \
diff --git a/src/Operation/OpLossCpu.h b/src/Operation/OpLossCpu.h
index 5fc15cd..00b89bf 100644
--- a/src/Operation/OpLossCpu.h
+++ b/src/Operation/OpLossCpu.h
@@ -42,7 +42,7 @@ Tensor mseLossOpBackwardCpuImpl(const Tensor& grad, const Tensor& input, const T
 
   switch (reduction) {
     case LossReduction::MEAN:
-      op::divInplace(out, Tensor::scalar(input.numel(), out.options().noGrad()));
+      op::divInplace(out, Tensor::scalar(out.numel(), out.options().noGrad()));
       break;
     default:
       break;
diff --git a/src/Operation/OpLossCuda.cuh b/src/Operation/OpLossCuda.cuh
index be215f9..6f8882f 100644
--- a/src/Operation/OpLossCuda.cuh
+++ b/src/Operation/OpLossCuda.cuh
@@ -42,7 +42,7 @@ Tensor mseLossOpBackwardCudaImpl(const Tensor& grad, const Tensor& input, const
 
   switch (reduction) {
     case LossReduction::MEAN:
-      op::divInplace(out, Tensor::scalar(input.numel(), out.options().noGrad()));
+      op::divInplace(out, Tensor::scalar(out.numel(), out.options().noGrad()));
       break;
     default:
       break;
-- 
2.43.0


From 9d1d87f1218e7294a9815261be54a83f4c7538d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 32/73] fix: dropout of every element returned not-a-number

---
 src/Operation/OpNNLayerCpu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 53cad79..9e88620 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -161,7 +161,7 @@ Tensor dropoutOpCpuImpl(const Tensor& self, float p) {
   auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
-    outPtr[i] = static_cast<T>(static_cast<float>(selfPtr[i]) * static_cast<float>(distribution(generator)) / p);
+    outPtr[i] = distribution(generator) ? static_cast<T>(static_cast<float>(selfPtr[i]) / p) : T(0);
   }
   return out;
 }
@@ -172,7 +172,7 @@ Tensor dropoutMaskedOpCpuImpl(const Tensor& self, const Tensor& mask, float p) {
   auto outShape = iterator.setupBroadcast();
   ASSERT(iterator.isBroadcastOk());
   Tensor out(outShape, self.options().noGrad());
-  iterator.template forEach<T>(out, [p](const T& a, const T& b) -> T { return a * b / p; });
+  iterator.template forEach<T>(out, [p](const T& a, const T& b) -> T { return p > 0 ? T(a * b / p) : T(0); });
   return out;
 }
 
-- 
2.43.0


From 872c5408cd9013d8328a01c30073bccfd40aa2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 33/73] fix: attention kept weights with the probability of
 dropping them

---
 src/Function/FuncNNLayer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index b93c0cb..f151f22 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -285,7 +285,7 @@ class FuncSDPAttention : public Function<FuncSDPAttention> {
     }
     attnWeight = op::softmax(attnWeight, -1);
     if (dropoutP > 0.f) {
-      attnWeight = op::dropout(attnWeight, dropoutP);
+      attnWeight = op::dropout(attnWeight, 1.f - dropoutP);
     }
     return op::matmul(attnWeight, value, false, false);
     // TODO fuse
-- 
2.43.0


From dbe0befd2be6550c3a63be22603bb3fff554b514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:28 +0000
Subject: [PATCH 34/73] fix: copying into a tensor changed the tensors sharing
 its storage

---
 src/Distributed/Reducer.cpp | 14 +++++++++++---
 src/Tensor/Tensor.cpp       |  1 +
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Distributed/Reducer.cpp b/src/Distributed/Reducer.cpp
index 367a69f..4578303 100644
--- a/src/Distributed/Reducer.cpp
+++ b/src/Distributed/Reducer.cpp
@@ -13,6 +13,14 @@
 
 namespace tinytorch::distributed {
 
+// writes src into the elements of buffer that start at offset
+static void copyToSlice(const Tensor& buffer, int64_t offset, const Tensor& src) {
+  auto dst = buffer.narrow(0, offset, src.numel());
+  ASSERT(dst.dtype() == src.dtype());
+  int64_t nbytes = src.numel() * static_cast<int64_t>(dtypeSize(src.dtype()));
+  Storage::copyOnDevice(dst.dataPtr<>(), dst.device(), src.dataPtr<>(), src.device(), nbytes);
+}
+
 static void parameterHookFn(void* ctx, Tensor& grad) {
   auto* c = static_cast<Reducer::ParameterHookCtx*>(ctx);
   c->self->onGradReady(c->bIdx, c->pIdx, grad);
@@ -106,7 +114,7 @@ void Reducer::onGradReady(int64_t bucketIdx, int64_t paramIdx, const Tensor& gra
 
   int64_t offset = bucket.paramOffsets[paramIdx];
   int64_t size = bucket.paramSizes[paramIdx];
-  bucket.flatBuffer.narrow(0, offset, size).copy_(grad.flatten());
+  copyToSlice(bucket.flatBuffer, offset, grad);
   bucket.readyCount++;
 
   ASSERT(!bucket.reduceStarted);
@@ -186,7 +194,7 @@ void Reducer::copyParamsToFlattenedBuffer(int64_t bucketIdx) const {
   for (int64_t i = 0; i < static_cast<int64_t>(bucket.params.size()); i++) {
     ASSERT(bucket.params[i] != nullptr);
     ASSERT(bucket.params[i]->defined());
-    bucket.flatBuffer.narrow(0, bucket.paramOffsets[i], bucket.paramSizes[i]).copy_(bucket.params[i]->flatten());
+    copyToSlice(bucket.flatBuffer, bucket.paramOffsets[i], *bucket.params[i]);
   }
 }
 
@@ -212,7 +220,7 @@ void Reducer::copyGradsToFlattenedBuffer(int64_t bucketIdx) const {
     ASSERT(bucket.params[i]->defined());
     auto& grad = bucket.params[i]->grad();
     ASSERT(grad.defined());
-    bucket.flatBuffer.narrow(0, bucket.paramOffsets[i], bucket.paramSizes[i]).copy_(grad.flatten());
+    copyToSlice(bucket.flatBuffer, bucket.paramOffsets[i], grad);
   }
 }
 
diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index 97b4d17..b4d3c52 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -140,6 +140,7 @@ void Tensor::copy_(const Tensor &src) {
   ASSERT(src.shape() == this->shape());
   ASSERT(src.dtype() == this->dtype());
   int64_t nbytes = numel() * static_cast<int64_t>(dtypeSize(dtype()));
+  copyOnWrite();
   Storage::copyOnDevice(this->dataPtr<>(), this->device(), src.dataPtr<>(), src.device(), nbytes);
 }
 
-- 
2.43.0


From dd37c612ae55c20c8dce2a642d2c316140f139b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:28 +0000
Subject: [PATCH 35/73] fix: a gradient hook that registers or removes hooks
 invalidated the list being walked

---
 src/Tensor/AutogradMeta.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index 3c57392..15c723d 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -105,7 +105,9 @@ void AutogradMeta::unregisterHook(int64_t hid) {
 }
 
 void AutogradMeta::applyHooks() {
-  for (auto &[hid, h] : hooks_) {
+  // a hook may register or remove hooks
+  const auto hooks = hooks_;
+  for (auto &[hid, h] : hooks) {
     h.fn(h.ctx, grad_);
   }
 }
-- 
2.43.0


From f1ffe5f8a7d22f1257c72c6faa850b9e4dc45e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:28 +0000
Subject: [PATCH 36/73] fix: saving reported success when the file could not be
 written

---
 src/Serializer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 39dfa65..e85ced4 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -74,6 +74,10 @@ bool Serializer::save(nn::Module& module, const std::string& path) {
   }
 
   ofs.close();
+  if (!ofs) {
+    LOGE("Error write file: %s", path.c_str());
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 594f17974409f895d4b35f79e410b5e44ad516c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:28 +0000
Subject: [PATCH 37/73] fix: loading a damaged model file read outside the
 file, and a failed load left the model half loaded

---
 src/Serializer.cpp | 108 ++++++++++++++++++++++++++++++---------------
 src/Serializer.h   |   2 +
 2 files changed, 74 insertions(+), 36 deletions(-)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index e85ced4..9994d27 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -6,7 +6,9 @@
 
 #include "Serializer.h"
 
+#include <cstring>
 #include <fstream>
+#include <utility>
 #include <vector>
 
 #include "Utils/Logger.h"
@@ -88,31 +90,40 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
     return false;
   }
 
-  const char* dataPtr = static_cast<const char*>(mappingResult.dataPtr);
+  bool success = loadMapped(module, static_cast<const char*>(mappingResult.dataPtr), mappingResult.fileSize, path, strict);
+  MMapUtils::unmapFile(mappingResult);
+  return success;
+}
+
+bool Serializer::loadMapped(nn::Module& module, const char* data, size_t fileSize, const std::string& path,
+                            bool strict) {
   size_t offset = 0;
+  auto read = [&](void* dst, size_t size) {
+    if (size > fileSize - offset) {
+      LOGE("Unexpected end of file: %s", path.c_str());
+      return false;
+    }
+    std::memcpy(dst, data + offset, size);
+    offset += size;
+    return true;
+  };
 
   // read header
-  uint64_t magic = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(magic);
+  uint64_t magic, version, tensorCount;
+  if (!read(&magic, sizeof(magic)) || !read(&version, sizeof(version)) || !read(&tensorCount, sizeof(tensorCount))) {
+    return false;
+  }
 
   if (magic != MAGIC_NUMBER) {
     LOGE("Invalid magic number in file: %s", path.c_str());
-    MMapUtils::unmapFile(mappingResult);
     return false;
   }
 
-  uint64_t version = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(version);
-
   if (version != VERSION) {
-    LOGE("Unsupported version %u in file: %s", version, path.c_str());
-    MMapUtils::unmapFile(mappingResult);
+    LOGE("Unsupported version %llu in file: %s", static_cast<unsigned long long>(version), path.c_str());
     return false;
   }
 
-  uint64_t tensorCount = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(tensorCount);
-
   ankerl::unordered_dense::map<std::string, TensorPtr> name2tensor;
   for (const auto& [name, tensor] : module.namedStates()) {
     name2tensor[name] = tensor;
@@ -120,20 +131,37 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
 
   bool success = true;
   ankerl::unordered_dense::set<std::string> fileKeys;
-  // read tensors
+  std::vector<TensorHeader> headers;
+  std::vector<std::pair<TensorPtr, size_t>> targets;  // state, offset of its data
+
+  // read tensor headers
   for (uint64_t i = 0; i < tensorCount; i++) {
-    const auto* header = reinterpret_cast<const TensorHeader*>(dataPtr + offset);
-    offset += sizeof(TensorHeader);
+    TensorHeader header{};
+    if (!read(&header, sizeof(header))) {
+      return false;
+    }
+    headers.push_back(header);
 
-    std::string name(dataPtr + offset, header->nameLength);
-    offset += header->nameLength;
-    fileKeys.insert(name);
+    if (header.nameLength > fileSize - offset) {
+      LOGE("Unexpected end of file: %s", path.c_str());
+      return false;
+    }
+    std::string name(data + offset, header.nameLength);
+    offset += header.nameLength;
+    if (!fileKeys.insert(name).second) {
+      LOGE("Duplicate key: %s", name.c_str());
+      success = false;
+    }
 
+    if (header.ndim > (fileSize - offset) / sizeof(int64_t)) {
+      LOGE("Unexpected end of file: %s", path.c_str());
+      return false;
+    }
     SizeVector shape;
-    for (uint64_t j = 0; j < header->ndim; j++) {
-      int64_t dim = *reinterpret_cast<const int64_t*>(dataPtr + offset);
+    for (uint64_t j = 0; j < header.ndim; j++) {
+      int64_t dim;
+      read(&dim, sizeof(dim));
       shape.pushBack(dim);
-      offset += sizeof(int64_t);
     }
 
     auto iter = name2tensor.find(name);
@@ -155,32 +183,33 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
     }
 
     // check dtype
-    auto dtype = static_cast<DType>(header->dtype);
-    if (dtype != tensor->dtype()) {
+    if (header.dtype != static_cast<uint64_t>(tensor->dtype())) {
       LOGE("dtype not equal for tensor: %s", name.c_str());
       success = false;
       continue;
     }
 
     // check dataSize
-    size_t expectedSize = tensor->numel() * dtypeSize(tensor->dtype());
-    if (header->dataSize != expectedSize) {
+    if (header.dataSize != tensor->numel() * dtypeSize(tensor->dtype())) {
       LOGE("size not equal for tensor: %s", name.c_str());
       success = false;
       continue;
     }
 
-    // check dataOffset
-    if (header->dataOffset + header->dataSize > mappingResult.fileSize) {
-      LOGE("Tensor data out of file range: %s", name.c_str());
-      success = false;
-      continue;
-    }
+    targets.emplace_back(tensor, header.dataOffset);
+  }
 
-    // copy data
-    const void* tensorDataPtr = dataPtr + header->dataOffset;
-    Storage::copyOnDevice(tensor->dataPtr<>(), tensor->device(), tensorDataPtr, Device::cpu(),
-                          static_cast<int64_t>(header->dataSize));
+  // the data follows the headers, in the same order and without gaps
+  for (const auto& header : headers) {
+    if (header.dataOffset != offset || header.dataSize > fileSize - offset) {
+      LOGE("Tensor data out of file range: %s", path.c_str());
+      return false;
+    }
+    offset += header.dataSize;
+  }
+  if (offset != fileSize) {
+    LOGE("Unexpected data at the end of file: %s", path.c_str());
+    return false;
   }
 
   // check missing keys
@@ -193,7 +222,14 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
     }
   }
 
-  MMapUtils::unmapFile(mappingResult);
+  // copy data, once the whole file is known to be good
+  if (success) {
+    for (const auto& [tensor, dataOffset] : targets) {
+      tensor->copyOnWrite();
+      Storage::copyOnDevice(tensor->dataPtr<>(), tensor->device(), data + dataOffset, Device::cpu(),
+                            tensor->numel() * static_cast<int64_t>(dtypeSize(tensor->dtype())));
+    }
+  }
   return success;
 }
 
diff --git a/src/Serializer.h b/src/Serializer.h
index 3f20073..c7abb19 100644
--- a/src/Serializer.h
+++ b/src/Serializer.h
@@ -18,6 +18,8 @@ class Serializer {
   static bool load(nn::Module& module, const std::string& path, bool strict = true);
 
  private:
+  static bool loadMapped(nn::Module& module, const char* data, size_t fileSize, const std::string& path, bool strict);
+
   static constexpr uint64_t MAGIC_NUMBER = 0x54494E59;  // "TINY"
   static constexpr uint64_t VERSION = 1;
 
-- 
2.43.0


From dba17137265dec86c6bfdead83107b2abe1e1f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:18 +0000
Subject: [PATCH 38/73] fix: second backward pass through permute trapped

---
 src/Function/FuncTransform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Function/FuncTransform.h b/src/Function/FuncTransform.h
index bfa4523..093a0da 100644
--- a/src/Function/FuncTransform.h
+++ b/src/Function/FuncTransform.h
@@ -62,7 +62,7 @@ class FuncPermute : public Function<FuncPermute> {
 
   static void backward(AutogradContext* ctx, const Tensor& grad) {
     auto& self = ctx->savedInputs[0];
-    auto inverse = ctx->popData();
+    auto& inverse = ctx->savedData.front();
 
     if (self.requiresGrad()) {
       SizeVector dims;
-- 
2.43.0


From 28c1a22340ca8e265e1574e33a8680586387c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 39/73] fix: SGD momentum buffer shared the first gradient's
 storage

---
 src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index b3c4a11..27c9897 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -69,7 +69,7 @@ void SGD::doStep() {
     }
     if (momentum_ != 0.f) {
       auto &buf = momentumBuffer_[i];
-      buf = buf.defined() ? (momentum_ * buf + (1.f - dampening_) * grad) : grad;
+      buf = buf.defined() ? (momentum_ * buf + (1.f - dampening_) * grad) : grad.clone();
       if (nesterov_) {
         grad += momentum_ * buf;
       } else {
-- 
2.43.0


From 4bac34caf4c968de25a47a46168900f70a80751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 40/73] fix: centered RMSprop divided by the variance instead
 of its square root

---
 src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index 27c9897..57c6ee8 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -134,7 +134,7 @@ void RMSprop::doStep() {
     if (centered_) {
       auto &g = gradAvg_[i];
       g = alpha_ * g + (1.f - alpha_) * grad;
-      avg = v - g * g;
+      avg = (v - g * g).sqrt();
     } else {
       avg = v.sqrt();
     }
-- 
2.43.0


From d2410b25a5751ef8a8681f72ae35c70340872fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 41/73] fix: AdamW decayed parameters that have no gradient

---
 src/Optimizer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index 57c6ee8..32f763e 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -215,8 +215,11 @@ AdamW::AdamW(std::vector<TensorPtr> &&parameters, float lr, const std::pair<floa
     : Adam(std::move(parameters), lr, betas, eps, weightDecay, amsGrad) {}
 
 Tensor AdamW::getDecayedGrad(TensorPtr param) const {
-  *param *= (1.f - lr_ * weightDecay_);
-  return param->grad();
+  auto grad = param->grad();
+  if (grad.defined()) {
+    *param *= (1.f - lr_ * weightDecay_);
+  }
+  return grad;
 }
 
 }  // namespace tinytorch::optim
-- 
2.43.0


From d86ee429e507e2d99c55c1d288a96312d1a43239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 42/73] fix: resuming StepLR on a decay epoch did not decay

---
 src/Scheduler.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Scheduler.h b/src/Scheduler.h
index f351692..12e8ee4 100644
--- a/src/Scheduler.h
+++ b/src/Scheduler.h
@@ -51,7 +51,11 @@ class Scheduler {
 class StepLR : public Scheduler {
  public:
   StepLR(Optimizer &optimizer, int64_t stepSize, float gamma = 0.1, int64_t lastEpoch = -1)
-      : Scheduler(optimizer, lastEpoch), stepSize_(stepSize), gamma_(gamma) {}
+      : Scheduler(optimizer, lastEpoch), stepSize_(stepSize), gamma_(gamma) {
+    // the initial step ran before this class's getLr() was reachable
+    lastLr_ = StepLR::getLr();
+    optimizer_.setLr(lastLr_);
+  }
 
   float getLr() override;
 
-- 
2.43.0


From a31c3b62879c0ea2a5c8e4c78e6db742a19de01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 43/73] fix: StepLR ignored decay points skipped by, and
 repeated those revisited by, step(epoch)

---
 src/Scheduler.cpp | 9 +++++++--
 src/Scheduler.h   | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Scheduler.cpp b/src/Scheduler.cpp
index 83cfed0..975ed1b 100644
--- a/src/Scheduler.cpp
+++ b/src/Scheduler.cpp
@@ -6,13 +6,18 @@
 
 #include "Scheduler.h"
 
+#include <algorithm>
+#include <cmath>
+
 namespace tinytorch::optim::lr_scheduler {
 
 float StepLR::getLr() {
-  if (lastEpoch_ == 0 || lastEpoch_ % stepSize_ != 0) {
+  // decay once for each decay point between the previous epoch and this one
+  auto decays = std::max<int64_t>(lastEpoch_, 0) / stepSize_ - std::max<int64_t>(prevEpoch_, 0) / stepSize_;
+  if (decays == 0) {
     return optimizer_.getLr();
   }
-  return optimizer_.getLr() * gamma_;
+  return optimizer_.getLr() * std::pow(gamma_, static_cast<float>(decays));
 }
 
 }  // namespace tinytorch::optim::lr_scheduler
diff --git a/src/Scheduler.h b/src/Scheduler.h
index 12e8ee4..6a30853 100644
--- a/src/Scheduler.h
+++ b/src/Scheduler.h
@@ -16,12 +16,13 @@ class Scheduler {
  public:
   virtual ~Scheduler() = default;
   explicit Scheduler(Optimizer &optimizer, int64_t lastEpoch = -1)
-      : optimizer_(optimizer), lastEpoch_(lastEpoch), stepCount_(0), lastLr_(0) {
+      : optimizer_(optimizer), prevEpoch_(lastEpoch), lastEpoch_(lastEpoch), stepCount_(0), lastLr_(0) {
     initialStep();
   }
 
   void step(std::optional<int64_t> epoch = std::nullopt) {
     stepCount_++;
+    prevEpoch_ = lastEpoch_;
     if (epoch.has_value()) {
       lastEpoch_ = epoch.value();
     } else {
@@ -43,6 +44,7 @@ class Scheduler {
   virtual float getLr() { return optimizer_.getLr(); }
 
   Optimizer &optimizer_;
+  int64_t prevEpoch_;
   int64_t lastEpoch_;
   int64_t stepCount_;
   float lastLr_;
-- 
2.43.0


From 7984c6627c6c2f4e7b224ab0a3a21e272b55bb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 44/73] fix: zeroing gradients or stepping with a frozen
 parameter trapped

---
 src/Module/Module.h |  4 +++-
 src/Optimizer.cpp   | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Module/Module.h b/src/Module/Module.h
index cf436f9..e5e7157 100644
--- a/src/Module/Module.h
+++ b/src/Module/Module.h
@@ -85,7 +85,9 @@ class Module {
   virtual void zeroGrad() {
     auto allParameters = namedParameters();
     for (auto &[name, param] : allParameters) {
-      param->zeroGrad();
+      if (param->requiresGrad()) {
+        param->zeroGrad();
+      }
     }
   }
 
diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index 32f763e..97c2167 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -21,11 +21,16 @@ Optimizer::Optimizer(std::vector<TensorPtr> &&parameters, float lr, float weight
 
 void Optimizer::zeroGrad() const {
   for (auto &param : parameters_) {
-    param->zeroGrad();
+    if (param->requiresGrad()) {
+      param->zeroGrad();
+    }
   }
 }
 
 Tensor Optimizer::getDecayedGrad(TensorPtr param) const {
+  if (!param->requiresGrad()) {
+    return {};
+  }
   auto ret = param->grad();
   if (!ret.defined()) {
     return ret;
@@ -215,6 +220,9 @@ AdamW::AdamW(std::vector<TensorPtr> &&parameters, float lr, const std::pair<floa
     : Adam(std::move(parameters), lr, betas, eps, weightDecay, amsGrad) {}
 
 Tensor AdamW::getDecayedGrad(TensorPtr param) const {
+  if (!param->requiresGrad()) {
+    return {};
+  }
   auto grad = param->grad();
   if (grad.defined()) {
     *param *= (1.f - lr_ * weightDecay_);
-- 
2.43.0


From 1c8b1c12fbad8bee576675f1a30ba310c2c50572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 45/73] fix: resetting a RoPE module undid its type conversion

---
 src/Module/Basic.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Module/Basic.cpp b/src/Module/Basic.cpp
index 9817811..6b96088 100644
--- a/src/Module/Basic.cpp
+++ b/src/Module/Basic.cpp
@@ -104,7 +104,13 @@ Tensor RoPE::forward(const Tensor &input) { return function::ropeApply(input, ro
 
 Tensor RoPE::forward(const Tensor &input, int64_t offset) { return function::ropeApply(input, rope_, offset); }
 
-void RoPE::resetParameters() { rope_ = op::ropeInit(headDim_, contextLength_, thetaBase_, scaling_, options_); }
+void RoPE::resetParameters() {
+  if (rope_.defined()) {
+    // keep the type and device the module was converted to
+    options_.dtype(rope_.dtype()).device(rope_.device());
+  }
+  rope_ = op::ropeInit(headDim_, contextLength_, thetaBase_, scaling_, options_);
+}
 
 std::vector<std::pair<std::string, TensorPtr>> RoPE::namedStates_() { return {{"rope", &rope_}}; }
 
-- 
2.43.0


From bc1ae9050dbb96c0558d5e5f510af8629a1159aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 46/73] fix: releasing a long recorded history exhausted the
 stack

---
 src/Tensor/AutogradMeta.cpp | 23 +++++++++++++++++++++++
 src/Tensor/AutogradMeta.h   |  1 +
 2 files changed, 24 insertions(+)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index 15c723d..373afcd 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -16,6 +16,29 @@
 
 namespace tinytorch {
 
+AutogradMeta::~AutogradMeta() {
+  // a function may hold the last reference to its inputs' metas, these to their functions, and so on:
+  // only the outermost destructor releases, so that a long history does not exhaust the stack
+  static thread_local std::vector<std::shared_ptr<FunctionBase>> *pending = nullptr;
+
+  std::vector<std::shared_ptr<FunctionBase>> functions;
+  const bool outermost = pending == nullptr;
+  if (outermost) {
+    pending = &functions;
+  }
+  pending->push_back(std::move(gradFn_));
+  for (auto &fn : backwardGraph_) {
+    pending->push_back(std::move(fn));
+  }
+  if (outermost) {
+    while (!functions.empty()) {
+      auto fn = std::move(functions.back());
+      functions.pop_back();
+    }
+    pending = nullptr;
+  }
+}
+
 void AutogradMeta::setGradFn(const std::shared_ptr<FunctionBase> &fn) {
   ASSERT(fn != nullptr);
   gradFn_ = fn;
diff --git a/src/Tensor/AutogradMeta.h b/src/Tensor/AutogradMeta.h
index 3cc484d..19d32e0 100644
--- a/src/Tensor/AutogradMeta.h
+++ b/src/Tensor/AutogradMeta.h
@@ -17,6 +17,7 @@ namespace tinytorch {
 class AutogradMeta : public std::enable_shared_from_this<AutogradMeta> {
  public:
   AutogradMeta() = default;
+  ~AutogradMeta();
 
   std::shared_ptr<FunctionBase>& gradFn() { return gradFn_; }
   void setGradFn(const std::shared_ptr<FunctionBase>& fn);
-- 
2.43.0


From 639595f379fdb17f86b1d3ebe9841f13964dcd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 47/73] fix: a batch size near the largest size_t gave a loader
 without batches

---
 src/Data/DataLoader.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Data/DataLoader.h b/src/Data/DataLoader.h
index 35eeca6..a24b859 100644
--- a/src/Data/DataLoader.h
+++ b/src/Data/DataLoader.h
@@ -31,7 +31,7 @@ class DataLoader {
     if (dropLast) {
       batchCnt_ = indices_.size() / batchSize;
     } else {
-      batchCnt_ = (indices_.size() + batchSize - 1) / batchSize;
+      batchCnt_ = indices_.size() / batchSize + (indices_.size() % batchSize != 0 ? 1 : 0);
     }
   }
 
@@ -49,8 +49,9 @@ class DataLoader {
 
     std::tuple<size_t, std::vector<Tensor>> operator*() const {
       std::vector<std::vector<Tensor>> itemList;
-      for (size_t i = batchIdx * loader_.batchSize_;
-           i < batchIdx * loader_.batchSize_ + loader_.batchSize_ && i < loader_.indices_.size(); i++) {
+      size_t first = batchIdx * loader_.batchSize_;
+      size_t last = first + std::min(loader_.batchSize_, loader_.indices_.size() - first);
+      for (size_t i = first; i < last; i++) {
         auto item = loader_.dataset_->getItem(loader_.indices_[i]);
         itemList.resize(item.size());
         for (size_t j = 0; j < item.size(); j++) {
-- 
2.43.0


From ac7beb36c6619986d8e564af959e7213b22c8947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 48/73] fix: samplers shuffled epochs 0 and 1 alike (the
 default engine takes seeds 0 and 1 for the same)

---
 src/Data/Sampler.h                     | 2 +-
 src/Distributed/DistributedSampler.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Data/Sampler.h b/src/Data/Sampler.h
index 8062c35..ccdb2b1 100644
--- a/src/Data/Sampler.h
+++ b/src/Data/Sampler.h
@@ -53,7 +53,7 @@ class RandomSampler : public Sampler {
     indices_.resize(datasetSize_);
     std::iota(indices_.begin(), indices_.end(), 0);
 
-    std::default_random_engine gen(static_cast<unsigned int>(seed_ + epoch_));
+    std::mt19937 gen(static_cast<unsigned int>(seed_ + epoch_));
     std::shuffle(indices_.begin(), indices_.end(), gen);
   }
 
diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index 4236781..4caf3bd 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -41,7 +41,7 @@ void DistributedSampler::generateIndices() {
   std::iota(allIndices.begin(), allIndices.end(), 0);
 
   if (shuffle_) {
-    std::default_random_engine gen(static_cast<unsigned int>(seed_ + epoch_));
+    std::mt19937 gen(static_cast<unsigned int>(seed_ + epoch_));
     std::shuffle(allIndices.begin(), allIndices.end(), gen);
   }
 
-- 
2.43.0


From eb6c379fad533811ffec821827dae82152f1ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 49/73] fix: switching the allocation cache on or off returned
 live blocks to the wrong allocator

---
 src/Tensor/CachedAllocator.cpp | 24 ++++++++++++++++++++++++
 src/Tensor/CachedAllocator.h   | 22 +++++++---------------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/Tensor/CachedAllocator.cpp b/src/Tensor/CachedAllocator.cpp
index 6baa2c3..9ff3015 100644
--- a/src/Tensor/CachedAllocator.cpp
+++ b/src/Tensor/CachedAllocator.cpp
@@ -261,7 +261,20 @@ class CachedAllocatorImpl : public Allocator {
     return nullptr;
   }
 
+  // not cached, remembered so that it goes back to the base allocator even if the cache is enabled meanwhile
+  void* allocateUncached(int64_t nbytes) {
+    void* ptr = base_->allocate(nbytes);
+    if (ptr) {
+      uncachedPtrs.insert(ptr);
+    }
+    return ptr;
+  }
+
   void deallocate(void* ptr) override {
+    if (uncachedPtrs.erase(ptr) > 0) {
+      base_->deallocate(ptr);
+      return;
+    }
     auto it = activeBlocks.find(ptr);
     if (it != activeBlocks.end()) {
       freeImpl(it->second);
@@ -285,9 +298,20 @@ class CachedAllocatorImpl : public Allocator {
   BlockPool largeBlocks;
   BlockPool smallBlocks;
   ankerl::unordered_dense::map<void*, Block*> activeBlocks;
+  ankerl::unordered_dense::set<void*> uncachedPtrs;
 };
 
 CachedAllocator::CachedAllocator(std::unique_ptr<Allocator> base)
     : base_(std::move(base)), impl_(std::make_unique<CachedAllocatorImpl>(base_.get())) {}
 
+CachedAllocator::CachedAllocator(CachedAllocator&& other) noexcept = default;
+
+CachedAllocator::~CachedAllocator() = default;
+
+void* CachedAllocator::allocate(int64_t nbytes) {
+  return cacheEnabled_ ? impl_->allocate(nbytes) : impl_->allocateUncached(nbytes);
+}
+
+void CachedAllocator::deallocate(void* ptr) { impl_->deallocate(ptr); }
+
 }  // namespace tinytorch
diff --git a/src/Tensor/CachedAllocator.h b/src/Tensor/CachedAllocator.h
index 63bf375..741cdfc 100644
--- a/src/Tensor/CachedAllocator.h
+++ b/src/Tensor/CachedAllocator.h
@@ -10,31 +10,23 @@
 
 namespace tinytorch {
 
+class CachedAllocatorImpl;
+
 class CachedAllocator : public Allocator {
  public:
   explicit CachedAllocator(std::unique_ptr<Allocator> base);
+  CachedAllocator(CachedAllocator&& other) noexcept;
+  ~CachedAllocator() override;
 
   static void setCacheEnabled(bool enabled) { cacheEnabled_ = enabled; }
 
-  void* allocate(int64_t nbytes) override {
-    if (!cacheEnabled_) {
-      return base_->allocate(nbytes);
-    }
-    return impl_->allocate(nbytes);
-  }
-
-  void deallocate(void* ptr) override {
-    if (!cacheEnabled_) {
-      base_->deallocate(ptr);
-      return;
-    }
-    impl_->deallocate(ptr);
-  }
+  void* allocate(int64_t nbytes) override;
+  void deallocate(void* ptr) override;
 
  private:
   static bool cacheEnabled_;
   std::unique_ptr<Allocator> base_;
-  std::unique_ptr<Allocator> impl_;
+  std::unique_ptr<CachedAllocatorImpl> impl_;
 };
 
 }  // namespace tinytorch
-- 
2.43.0


From c87a0be18c4673b3c426e340abe26e1946728993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 50/73] fix: allocating or releasing tensors from several
 threads corrupted the allocation cache

---
 src/Tensor/CachedAllocator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Tensor/CachedAllocator.cpp b/src/Tensor/CachedAllocator.cpp
index 9ff3015..a2f109a 100644
--- a/src/Tensor/CachedAllocator.cpp
+++ b/src/Tensor/CachedAllocator.cpp
@@ -8,6 +8,7 @@
 
 #include <array>
 #include <memory>
+#include <mutex>
 #include <set>
 
 #include "Utils/Logger.h"
@@ -251,6 +252,7 @@ class CachedAllocatorImpl : public Allocator {
   }
 
   void* allocate(int64_t nbytes) override {
+    std::lock_guard<std::mutex> lock(mutex_);
     Block* block = mallocImpl(nbytes);
     if (block) {
       activeBlocks[block->ptr] = block;
@@ -263,6 +265,7 @@ class CachedAllocatorImpl : public Allocator {
 
   // not cached, remembered so that it goes back to the base allocator even if the cache is enabled meanwhile
   void* allocateUncached(int64_t nbytes) {
+    std::lock_guard<std::mutex> lock(mutex_);
     void* ptr = base_->allocate(nbytes);
     if (ptr) {
       uncachedPtrs.insert(ptr);
@@ -271,6 +274,7 @@ class CachedAllocatorImpl : public Allocator {
   }
 
   void deallocate(void* ptr) override {
+    std::lock_guard<std::mutex> lock(mutex_);
     if (uncachedPtrs.erase(ptr) > 0) {
       base_->deallocate(ptr);
       return;
@@ -292,6 +296,7 @@ class CachedAllocatorImpl : public Allocator {
   }
 
  private:
+  std::mutex mutex_;
   Allocator* base_;
   uint64_t totalAllocatedSize_;
 
-- 
2.43.0


From 9aac98e45190d8401747c99006156a4a3c178056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 51/73] fix: a timed-out get on the network store cut off the
 client

---
 src/Distributed/TCPStore.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index f5f017e..cc2ea0b 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -50,6 +50,9 @@ enum class TCPStoreCommandType : uint8_t {
   CMD_WORKER_UNREGISTER
 };
 
+// size sent in reply to a GET whose key did not arrive in time
+static constexpr uint64_t kNoValue = UINT64_MAX;
+
 static void setupSignalHandlers() {
   // ignore SIGPIPE
   signal(SIGPIPE, SIG_IGN);
@@ -459,6 +462,10 @@ bool TCPStore::ClientImpl::get(const std::string& key, std::vector<uint8_t>& val
     return false;
   }
 
+  if (valueSize == detail::kNoValue) {
+    return false;
+  }
+
   value.resize(valueSize);
   if (valueSize > 0 && !detail::recvBytes(clientSock_, value.data(), valueSize)) {
     LOGE("TCPStore: Failed to receive value for GET command");
@@ -1005,7 +1012,8 @@ bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
   }
 
   LOGE("TCPStore: Get timeout after %lld ms for key: %s", timeout_.count(), key.c_str());
-  return false;
+  uint64_t noValue = detail::kNoValue;
+  return detail::sendBytes(socket, &noValue, sizeof(noValue));
 }
 
 bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
-- 
2.43.0


From 6c9cefa82b500280e73e2624ae3dd952f51dc804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 52/73] fix: waiters on the network store could miss the key
 they wait for

---
 src/Distributed/TCPStore.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index cc2ea0b..dab9de3 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -926,7 +926,6 @@ bool TCPStore::ServerImpl::handleSetCommand(socket_t socket) {
       for (auto& cv : it->second) {
         cv->notify_all();
       }
-      keyCVs_.erase(it);
     }
   }
 
@@ -1049,7 +1048,6 @@ bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
       for (auto& cv : it->second) {
         cv->notify_all();
       }
-      keyCVs_.erase(it);
     }
   }
 
@@ -1111,24 +1109,22 @@ bool TCPStore::ServerImpl::handleWaitCommand(socket_t socket) {
 
   bool success = true;
   std::shared_ptr<std::condition_variable> cv;
-  std::vector<std::string> missingKeys;
 
   {
     std::unique_lock<std::mutex> lock(mutex_);
 
-    for (const auto& key : keys) {
-      if (keyValueStore_.find(key) == keyValueStore_.end()) {
-        missingKeys.push_back(key);
-      }
-    }
+    bool allKeysExist = std::all_of(keys.begin(), keys.end(), [this](const auto& key) {
+      return keyValueStore_.find(key) != keyValueStore_.end();
+    });
 
-    if (missingKeys.empty()) {
+    if (allKeysExist) {
       uint8_t result = 1;
       return detail::sendBytes(socket, &result, sizeof(result));
     }
 
     cv = std::make_shared<std::condition_variable>();
-    for (const auto& key : missingKeys) {
+    // any of the keys may be deleted while waiting, so listen to all of them
+    for (const auto& key : keys) {
       keyCVs_[key].push_back(cv);
     }
   }
@@ -1156,7 +1152,7 @@ bool TCPStore::ServerImpl::handleWaitCommand(socket_t socket) {
       success = false;
     }
 
-    for (const auto& key : missingKeys) {
+    for (const auto& key : keys) {
       auto it = keyCVs_.find(key);
       if (it != keyCVs_.end()) {
         auto& cvs = it->second;
-- 
2.43.0


From bc63230b114264b72db8c9d5a34bee095366067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 53/73] fix: network store shutdown left threads using the
 destroyed server, and reaping them deadlocked

---
 src/Distributed/TCPStore.cpp | 99 +++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 41 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index dab9de3..2be3cca 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -218,7 +218,7 @@ class TCPStore::ServerImpl {
 
  private:
   void serverLoop();
-  void handleClientInThread(socket_t socket);
+  void handleClientInThread(socket_t socket, const std::shared_ptr<std::atomic<bool>>& finished);
   bool handleClient(socket_t socket);
   bool handleSetCommand(socket_t socket);
   bool handleGetCommand(socket_t socket);
@@ -252,14 +252,20 @@ class TCPStore::ServerImpl {
   socket_t serverSock_;
   std::thread serverThread_;
 
-  std::vector<std::unique_ptr<std::thread>> clientThreads_;
+  struct ClientThread {
+    std::thread thread;
+    std::shared_ptr<std::atomic<bool>> finished;
+  };
+  std::vector<ClientThread> clientThreads_;
   std::mutex clientThreadsMutex_;
   std::atomic<size_t> activeThreadCount_{0};
 
   std::unordered_set<socket_t> activeClients_;
   std::mutex activeClientsMutex_;
   std::thread clientMonitorThread_;
-  std::atomic<bool> monitoringRunning_{false};
+  std::mutex monitoringMutex_;
+  std::condition_variable monitoringCV_;
+  bool monitoringRunning_ = false;
 };
 
 TCPStore::TCPStore(const std::string& host, uint16_t port, bool isServer, bool waitWorkers, int numWorkers,
@@ -650,26 +656,30 @@ TCPStore::ServerImpl::ServerImpl(uint16_t port, int numWorkers, const std::chron
 }
 
 TCPStore::ServerImpl::~ServerImpl() {
-  shutdownServer_.store(true);
-  stopClientMonitoring();
-
-  if (serverSock_ != INVALID_SOCKET) {
-    closesocket(serverSock_);
-    serverSock_ = INVALID_SOCKET;
-  }
-
   {
     std::lock_guard<std::mutex> lock(mutex_);
+    shutdownServer_.store(true);
     for (auto& [key, cvs] : keyCVs_) {
       for (auto& cv : cvs) {
         cv->notify_all();
       }
     }
-    keyCVs_.clear();
     workerCV_.notify_all();
   }
 
-  serverThread_.detach();
+  stopClientMonitoring();
+
+  if (serverSock_ != INVALID_SOCKET) {
+    ::shutdown(serverSock_, SHUT_RDWR);  // wakes the thread blocked in accept
+  }
+  if (serverThread_.joinable()) {
+    serverThread_.join();
+  }
+  if (serverSock_ != INVALID_SOCKET) {
+    closesocket(serverSock_);
+    serverSock_ = INVALID_SOCKET;
+  }
+
   shutdownAllThreads();
 }
 
@@ -731,18 +741,25 @@ bool TCPStore::ServerImpl::waitForWorkers() {
 int TCPStore::ServerImpl::getRegisteredWorkers() const { return registeredWorkers_.load(); }
 
 void TCPStore::ServerImpl::startClientMonitoring() {
-  monitoringRunning_.store(true);
+  monitoringRunning_ = true;
   clientMonitorThread_ = std::thread([this]() {
-    while (monitoringRunning_.load()) {
+    std::unique_lock<std::mutex> lock(monitoringMutex_);
+    while (monitoringRunning_) {
       cleanupDisconnectedClients();
-      std::this_thread::sleep_for(std::chrono::milliseconds(500));
+      monitoringCV_.wait_for(lock, std::chrono::milliseconds(500), [this] { return !monitoringRunning_; });
     }
   });
 }
 
 void TCPStore::ServerImpl::stopClientMonitoring() {
-  monitoringRunning_.store(false);
-  clientMonitorThread_.detach();
+  {
+    std::lock_guard<std::mutex> lock(monitoringMutex_);
+    monitoringRunning_ = false;
+    monitoringCV_.notify_all();
+  }
+  if (clientMonitorThread_.joinable()) {
+    clientMonitorThread_.join();
+  }
 }
 
 void TCPStore::ServerImpl::cleanupDisconnectedClients() {
@@ -752,7 +769,7 @@ void TCPStore::ServerImpl::cleanupDisconnectedClients() {
   while (it != activeClients_.end()) {
     if (!detail::isSocketConnected(*it)) {
       LOGI("TCPStore: Detected disconnected client, cleaning up");
-      closesocket(*it);
+      ::shutdown(*it, SHUT_RDWR);  // closed by the thread serving it
       it = activeClients_.erase(it);
     } else {
       ++it;
@@ -760,35 +777,32 @@ void TCPStore::ServerImpl::cleanupDisconnectedClients() {
   }
 }
 
+// requires clientThreadsMutex_
 void TCPStore::ServerImpl::cleanupFinishedThreads() {
-  std::lock_guard<std::mutex> lock(clientThreadsMutex_);
-
   auto it = clientThreads_.begin();
   while (it != clientThreads_.end()) {
-    if ((*it)->joinable()) {
-      ++it;
-    } else {
+    if (it->finished->load()) {
+      it->thread.join();
       it = clientThreads_.erase(it);
-      activeThreadCount_.fetch_sub(1);
+    } else {
+      ++it;
     }
   }
 }
 
 void TCPStore::ServerImpl::shutdownAllThreads() {
-  std::vector<std::unique_ptr<std::thread>> threads;
   {
-    std::lock_guard<std::mutex> lock(clientThreadsMutex_);
-    threads = std::move(clientThreads_);
-    clientThreads_.clear();
-  }
-
-  for (auto& thread : threads) {
-    if (thread) {
-      thread->detach();
+    std::lock_guard<std::mutex> lock(activeClientsMutex_);
+    for (auto socket : activeClients_) {
+      ::shutdown(socket, SHUT_RDWR);
     }
   }
 
-  activeThreadCount_.store(0);
+  std::lock_guard<std::mutex> lock(clientThreadsMutex_);
+  for (auto& client : clientThreads_) {
+    client.thread.join();
+  }
+  clientThreads_.clear();
 }
 
 void TCPStore::ServerImpl::serverLoop() {
@@ -816,22 +830,24 @@ void TCPStore::ServerImpl::serverLoop() {
         cleanupFinishedThreads();
       }
 
-      auto thread = std::make_unique<std::thread>(&ServerImpl::handleClientInThread, this, clientSocket);
-      clientThreads_.push_back(std::move(thread));
       activeThreadCount_.fetch_add(1);
+      auto finished = std::make_shared<std::atomic<bool>>(false);
+      clientThreads_.push_back({std::thread(&ServerImpl::handleClientInThread, this, clientSocket, finished), finished});
     }
   }
 }
 
-void TCPStore::ServerImpl::handleClientInThread(socket_t socket) {
+void TCPStore::ServerImpl::handleClientInThread(socket_t socket, const std::shared_ptr<std::atomic<bool>>& finished) {
   struct ThreadGuard {
     std::atomic<size_t>& counter;
     socket_t socket_;
     std::unordered_set<socket_t>& activeClients_;
     std::mutex& activeClientsMutex_;
+    std::atomic<bool>& finished_;
 
-    explicit ThreadGuard(std::atomic<size_t>& c, socket_t s, std::unordered_set<socket_t>& clients, std::mutex& mutex)
-        : counter(c), socket_(s), activeClients_(clients), activeClientsMutex_(mutex) {}
+    explicit ThreadGuard(std::atomic<size_t>& c, socket_t s, std::unordered_set<socket_t>& clients, std::mutex& mutex,
+                         std::atomic<bool>& finished)
+        : counter(c), socket_(s), activeClients_(clients), activeClientsMutex_(mutex), finished_(finished) {}
 
     ~ThreadGuard() {
       counter.fetch_sub(1);
@@ -840,10 +856,11 @@ void TCPStore::ServerImpl::handleClientInThread(socket_t socket) {
         activeClients_.erase(socket_);
       }
       closesocket(socket_);
+      finished_.store(true);
     }
   };
 
-  ThreadGuard guard(activeThreadCount_, socket, activeClients_, activeClientsMutex_);
+  ThreadGuard guard(activeThreadCount_, socket, activeClients_, activeClientsMutex_, *finished);
 
   timeval timeout{};
   timeout.tv_sec = 1;  // 1s
-- 
2.43.0


From 8a70d55c6d38d65c2e7b6be6d31c650c0e38f403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 54/73] fix: adding to a value that is not a number crashed the
 store server

---
 src/Distributed/TCPStore.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 2be3cca..e90a21d 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -19,6 +19,7 @@
 #include <cerrno>
 #include <condition_variable>
 #include <csignal>
+#include <cstdlib>
 #include <cstring>
 #include <mutex>
 #include <thread>
@@ -1055,7 +1056,15 @@ bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
     if (!value.empty()) {
       auto buf = reinterpret_cast<const char*>(value.data());
       auto len = value.size();
-      newValue += std::stoll(std::string(buf, len));
+      std::string text(buf, len);
+      char* end = nullptr;
+      errno = 0;
+      newValue += std::strtoll(text.c_str(), &end, 10);
+      if (end == text.c_str() || errno == ERANGE) {
+        LOGE("TCPStore: add to a value that is not a number, key: %s", key.c_str());
+        newValue = -1;
+        return detail::sendBytes(socket, &newValue, sizeof(newValue));
+      }
     }
     auto newValStr = std::to_string(newValue);
     keyValueStore_[key] = std::vector<uint8_t>(newValStr.begin(), newValStr.end());
-- 
2.43.0


From 8f7e568a7412847fe9a42fb161078710c726ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 55/73] fix: a store whose server failed to start crashed on
 use

---
 src/Distributed/TCPStore.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index e90a21d..c78b5cb 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -272,6 +272,8 @@ class TCPStore::ServerImpl {
 TCPStore::TCPStore(const std::string& host, uint16_t port, bool isServer, bool waitWorkers, int numWorkers,
                    const std::chrono::milliseconds& timeout)
     : Store(timeout), host_(host), port_(port), isServer_(isServer) {
+  client_ = std::make_unique<ClientImpl>(host, port, timeout);
+
   if (isServer_) {
     server_ = std::make_unique<ServerImpl>(port, numWorkers, timeout);
     if (!server_->start()) {
@@ -280,7 +282,6 @@ TCPStore::TCPStore(const std::string& host, uint16_t port, bool isServer, bool w
     }
   }
 
-  client_ = std::make_unique<ClientImpl>(host, port, timeout);
   if (!client_->connect()) {
     LOGE("TCPStore: Failed to connect client");
     return;
-- 
2.43.0


From 97af3f628691a19fafe9b95652e6650238cf64d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 56/73] fix: an interrupted system call cut off a store client

---
 src/Distributed/TCPStore.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index c78b5cb..0622a43 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -71,6 +71,8 @@ static bool sendBytes(socket_t socket, const void* data, size_t size) {
       if (error == EPIPE || error == ECONNRESET || error == ECONNABORTED) {
         LOGE("TCPStore: Client disconnected (EPIPE/ECONNRESET/ECONNABORTED)");
         return false;
+      } else if (error == EINTR) {
+        continue;
       } else if (error == EAGAIN) {
         std::this_thread::sleep_for(std::chrono::milliseconds(1));
         continue;
@@ -100,6 +102,8 @@ static bool recvBytes(socket_t socket, void* data, size_t size) {
       if (error == ECONNRESET || error == EPIPE || error == ECONNABORTED) {
         LOGE("TCPStore: Client disconnected during recv");
         return false;
+      } else if (error == EINTR) {
+        continue;
       } else if (error == EAGAIN) {
         std::this_thread::sleep_for(std::chrono::milliseconds(1));
         continue;
@@ -814,7 +818,7 @@ void TCPStore::ServerImpl::serverLoop() {
     socket_t clientSocket = accept(serverSock_, reinterpret_cast<sockaddr*>(&clientAddr), &addrLen);
 
     if (clientSocket == INVALID_SOCKET) {
-      if (!shutdownServer_.load()) {
+      if (!shutdownServer_.load() && errno != EINTR) {
         LOGE("TCPStore: Failed to accept client connection");
       }
       continue;
-- 
2.43.0


From f04a44827e079f3caee83e28e927fd1e5faeee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 57/73] fix: waiting for workers without a timeout gave up at
 once

---
 src/Distributed/TCPStore.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 0622a43..a1df1a5 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -733,8 +733,13 @@ bool TCPStore::ServerImpl::waitForWorkers() {
   }
 
   std::unique_lock<std::mutex> lock(mutex_);
-  bool success = workerCV_.wait_for(
-      lock, timeout_, [this] { return shutdownServer_.load() || registeredWorkers_.load() >= numWorkers_; });
+  auto ready = [this] { return shutdownServer_.load() || registeredWorkers_.load() >= numWorkers_; };
+  bool success = true;
+  if (timeout_ != kNoTimeout) {
+    success = workerCV_.wait_for(lock, timeout_, ready);
+  } else {
+    workerCV_.wait(lock, ready);
+  }
 
   if (!success) {
     LOGE("TCPStore: Timeout waiting for workers. Expected: %d, Registered: %d", numWorkers_, registeredWorkers_.load());
-- 
2.43.0


From 9f2716055384b49a9d9648c9c5663cd641cc61cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 58/73] fix: a client's own timeout was ignored by the network
 store

---
 src/Distributed/TCPStore.cpp | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index a1df1a5..86d9197 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -468,6 +468,12 @@ bool TCPStore::ClientImpl::get(const std::string& key, std::vector<uint8_t>& val
     return false;
   }
 
+  int64_t timeoutMs = timeout_.count();
+  if (!detail::sendBytes(clientSock_, &timeoutMs, sizeof(timeoutMs))) {
+    LOGE("TCPStore: Failed to send timeout for GET command");
+    return false;
+  }
+
   uint64_t valueSize;
   if (!detail::recvBytes(clientSock_, &valueSize, sizeof(valueSize))) {
     LOGE("TCPStore: Failed to receive value size for GET command");
@@ -610,6 +616,12 @@ bool TCPStore::ClientImpl::wait(const std::vector<std::string>& keys) const {
     }
   }
 
+  int64_t timeoutMs = timeout_.count();
+  if (!detail::sendBytes(clientSock_, &timeoutMs, sizeof(timeoutMs))) {
+    LOGE("TCPStore: Failed to send timeout for WAIT command");
+    return false;
+  }
+
   uint8_t result;
   if (!detail::recvBytes(clientSock_, &result, sizeof(result))) {
     LOGE("TCPStore: Failed to receive result for WAIT command");
@@ -972,6 +984,12 @@ bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
     return false;
   }
 
+  int64_t timeoutMs;
+  if (!detail::recvBytes(socket, &timeoutMs, sizeof(timeoutMs))) {
+    return false;
+  }
+  const std::chrono::milliseconds timeout(timeoutMs);
+
   std::vector<uint8_t> value;
   std::shared_ptr<std::condition_variable> cv;
   bool success = false;
@@ -998,8 +1016,8 @@ bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
   {
     std::unique_lock<std::mutex> lock(mutex_);
 
-    if (timeout_ != kNoTimeout) {
-      auto waitUntil = std::chrono::steady_clock::now() + timeout_;
+    if (timeout != kNoTimeout) {
+      auto waitUntil = std::chrono::steady_clock::now() + timeout;
       success = cv->wait_until(lock, waitUntil, [this, &key] {
         return shutdownServer_.load() || keyValueStore_.find(key) != keyValueStore_.end();
       });
@@ -1038,7 +1056,7 @@ bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
            (valueSize == 0 || detail::sendBytes(socket, value.data(), valueSize));
   }
 
-  LOGE("TCPStore: Get timeout after %lld ms for key: %s", timeout_.count(), key.c_str());
+  LOGE("TCPStore: Get timeout after %lld ms for key: %s", timeout.count(), key.c_str());
   uint64_t noValue = detail::kNoValue;
   return detail::sendBytes(socket, &noValue, sizeof(noValue));
 }
@@ -1143,6 +1161,12 @@ bool TCPStore::ServerImpl::handleWaitCommand(socket_t socket) {
     }
   }
 
+  int64_t timeoutMs;
+  if (!detail::recvBytes(socket, &timeoutMs, sizeof(timeoutMs))) {
+    return false;
+  }
+  const std::chrono::milliseconds timeout(timeoutMs);
+
   bool success = true;
   std::shared_ptr<std::condition_variable> cv;
 
@@ -1168,8 +1192,8 @@ bool TCPStore::ServerImpl::handleWaitCommand(socket_t socket) {
   {
     std::unique_lock<std::mutex> lock(mutex_);
 
-    if (timeout_ != kNoTimeout) {
-      auto waitUntil = std::chrono::steady_clock::now() + timeout_;
+    if (timeout != kNoTimeout) {
+      auto waitUntil = std::chrono::steady_clock::now() + timeout;
       success = cv->wait_until(lock, waitUntil, [this, &keys] {
         return shutdownServer_.load() || std::all_of(keys.begin(), keys.end(), [this](const auto& key) {
                  return keyValueStore_.find(key) != keyValueStore_.end();
-- 
2.43.0


From df790319cb64725589f9d99d38c064841b66eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 59/73] fix: the file store's locks excluded no thread, were
 dropped early, and created empty keys

---
 src/Distributed/FileStore.cpp | 67 +++++++++++++++++++++--------------
 src/Distributed/FileStore.h   |  1 +
 2 files changed, 42 insertions(+), 26 deletions(-)

diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index 82326d2..3fd3967 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -14,29 +14,33 @@
 #include <unistd.h>
 
 #include <algorithm>
-#include <iostream>
+#include <cerrno>
+#include <memory>
 #include <thread>
 
 #include "Utils/Logger.h"
 
 namespace tinytorch::distributed {
 
+// Excludes every other user of the store, be it in another process or in another thread of this one: unlike
+// fcntl locks, which belong to the process and are dropped when it closes any descriptor of the file, flock locks
+// belong to the descriptor. The lock file is not a key, so that locking does not create one.
 class FileLock {
  public:
   explicit FileLock(const std::string& path) {
-    fd_ = open(path.c_str(), O_RDWR | O_CREAT, 0666);
+    fd_ = open(path.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0666);
     if (fd_ == -1) {
       LOGE("FileStore: Open failed for path: %s", path.c_str());
       return;
     }
 
-    struct flock fl {};
-    fl.l_type = F_WRLCK;
-    fl.l_whence = SEEK_SET;
-    fl.l_start = 0;
-    fl.l_len = 0;
-    if (fcntl(fd_, F_SETLKW, &fl) == -1) {
-      LOGE("FileStore: fcntl lock failed for path: %s", path.c_str());
+    int result;
+    do {
+      result = flock(fd_, LOCK_EX);
+    } while (result == -1 && errno == EINTR);
+
+    if (result == -1) {
+      LOGE("FileStore: flock failed for path: %s", path.c_str());
       close(fd_);
       fd_ = -1;
     }
@@ -44,12 +48,6 @@ class FileLock {
 
   ~FileLock() {
     if (fd_ != -1) {
-      struct flock fl {};
-      fl.l_type = F_UNLCK;
-      fl.l_whence = SEEK_SET;
-      fl.l_start = 0;
-      fl.l_len = 0;
-      fcntl(fd_, F_SETLK, &fl);
       close(fd_);
     }
   }
@@ -68,11 +66,13 @@ FileStore::FileStore(std::string path) : path_(std::move(path)) {
   }
 }
 
+std::string FileStore::getLockPath() const { return path_ + "/.lock"; }
+
 std::string FileStore::getKeyPath(const std::string& key) const { return path_ + "/" + key; }
 
 void FileStore::set(const std::string& key, const std::vector<uint8_t>& value) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(getLockPath());
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return;
@@ -100,7 +100,17 @@ std::vector<uint8_t> FileStore::get(const std::string& key) {
   auto start = std::chrono::steady_clock::now();
   bool hasTimeout = (timeout != kNoTimeout);
 
-  while (!checkKey(key)) {
+  std::unique_ptr<FileLock> lock;
+  while (true) {
+    lock = std::make_unique<FileLock>(getLockPath());
+    if (!lock->isValid()) {
+      LOGE("FileStore: lock failed for path: %s", path.c_str());
+      return {};
+    }
+    if (checkKey(key)) {
+      break;
+    }
+    lock.reset();
     if (hasTimeout) {
       auto now = std::chrono::steady_clock::now();
       if (now - start > timeout) {
@@ -111,12 +121,6 @@ std::vector<uint8_t> FileStore::get(const std::string& key) {
     std::this_thread::sleep_for(std::chrono::milliseconds(10));
   }
 
-  FileLock lock(path);
-  if (!lock.isValid()) {
-    LOGE("FileStore: lock failed for path: %s", path.c_str());
-    return {};
-  }
-
   FILE* f = fopen(path.c_str(), "rb");
   if (!f) {
     LOGE("FileStore: fopen for reading failed for path: %s", path.c_str());
@@ -158,7 +162,7 @@ std::vector<uint8_t> FileStore::get(const std::string& key) {
 
 int64_t FileStore::add(const std::string& key, int64_t value) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(getLockPath());
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return 0;
@@ -194,7 +198,7 @@ int64_t FileStore::add(const std::string& key, int64_t value) {
 
 bool FileStore::deleteKey(const std::string& key) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(getLockPath());
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return false;
@@ -208,10 +212,21 @@ bool FileStore::checkKey(const std::string& key) const {
 }
 
 bool FileStore::check(const std::vector<std::string>& keys) {
+  FileLock lock(getLockPath());
+  if (!lock.isValid()) {
+    LOGE("FileStore: lock failed for path: %s", path_.c_str());
+    return false;
+  }
   return std::all_of(keys.begin(), keys.end(), [this](const auto& key) { return checkKey(key); });
 }
 
 int64_t FileStore::getNumKeys() {
+  FileLock lock(getLockPath());
+  if (!lock.isValid()) {
+    LOGE("FileStore: lock failed for path: %s", path_.c_str());
+    return 0;
+  }
+
   int64_t count = 0;
   DIR* dir = opendir(path_.c_str());
   if (!dir) {
@@ -222,7 +237,7 @@ int64_t FileStore::getNumKeys() {
   dirent* entry;
   while ((entry = readdir(dir)) != nullptr) {
     const std::string name = entry->d_name;
-    if (name != "." && name != "..") {
+    if (name != "." && name != ".." && name != ".lock") {
       count++;
     }
   }
diff --git a/src/Distributed/FileStore.h b/src/Distributed/FileStore.h
index f5edd72..c52b65b 100644
--- a/src/Distributed/FileStore.h
+++ b/src/Distributed/FileStore.h
@@ -27,6 +27,7 @@ class FileStore : public Store {
   void wait(const std::vector<std::string>& keys) override;
 
  private:
+  std::string getLockPath() const;
   std::string getKeyPath(const std::string& key) const;
   bool checkKey(const std::string& key) const;
 
-- 
2.43.0


From cc140bcb44bf13df57e989f2e8ef09644d96eaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 60/73] fix: file store keys with slashes or dots named other
 files

---
 src/Distributed/FileStore.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index 3fd3967..e0e3d10 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -68,7 +68,21 @@ FileStore::FileStore(std::string path) : path_(std::move(path)) {
 
 std::string FileStore::getLockPath() const { return path_ + "/.lock"; }
 
-std::string FileStore::getKeyPath(const std::string& key) const { return path_ + "/" + key; }
+// A key may hold any bytes: those that a file name cannot hold, or that would make it name something else, are
+// written as %XX. No key gives a name starting with '.', which are left to the store itself.
+std::string FileStore::getKeyPath(const std::string& key) const {
+  static const char* digits = "0123456789ABCDEF";
+  std::string name;
+  for (size_t i = 0; i < key.size(); i++) {
+    const auto c = static_cast<unsigned char>(key[i]);
+    if (c == '/' || c == '%' || c == '\0' || (c == '.' && i == 0)) {
+      name += {'%', digits[c >> 4], digits[c & 15]};
+    } else {
+      name += key[i];
+    }
+  }
+  return path_ + "/" + (name.empty() ? "%" : name);
+}
 
 void FileStore::set(const std::string& key, const std::vector<uint8_t>& value) {
   const auto path = getKeyPath(key);
@@ -237,7 +251,7 @@ int64_t FileStore::getNumKeys() {
   dirent* entry;
   while ((entry = readdir(dir)) != nullptr) {
     const std::string name = entry->d_name;
-    if (name != "." && name != ".." && name != ".lock") {
+    if (name[0] != '.') {
       count++;
     }
   }
-- 
2.43.0


From e2f7eb99ee406dd60303c438d44f548c2882c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 61/73] fix: waiting on the file store without a timeout gave
 up at once

---
 src/Distributed/FileStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index e0e3d10..bdd713c 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -264,7 +264,7 @@ void FileStore::wait(const std::vector<std::string>& keys) {
   auto start = std::chrono::steady_clock::now();
   while (!check(keys)) {
     auto now = std::chrono::steady_clock::now();
-    if (now - start > timeout_) {
+    if (timeout_ != kNoTimeout && now - start > timeout_) {
       LOGE("FileStore: Wait timeout after %lld ms", timeout_.count());
       return;
     }
-- 
2.43.0


From 5bfd16708b4007d6639d747621efcbf9fbf791c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 62/73] fix: adding to a file store value that is not a number
 crashed

---
 src/Distributed/FileStore.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index bdd713c..76f9c90 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -15,6 +15,7 @@
 
 #include <algorithm>
 #include <cerrno>
+#include <cstdlib>
 #include <memory>
 #include <thread>
 
@@ -187,7 +188,14 @@ int64_t FileStore::add(const std::string& key, int64_t value) {
   if (fRead) {
     char buf[64] = {0};
     if (fread(buf, 1, sizeof(buf) - 1, fRead) > 0) {
-      currentValue = std::stoll(buf);
+      char* end = nullptr;
+      errno = 0;
+      currentValue = std::strtoll(buf, &end, 10);
+      if (end == buf || errno == ERANGE) {
+        LOGE("FileStore: add to a value that is not a number, path: %s", path.c_str());
+        fclose(fRead);
+        return -1;
+      }
     }
     fclose(fRead);
   }
-- 
2.43.0


From ee10bd8b3694626bf23757eb331a79576cb67a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 63/73] fix: a file store writer that died half way left a
 partial value

---
 src/Distributed/FileStore.cpp | 45 ++++++++++++++++-------------------
 src/Distributed/FileStore.h   |  1 +
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index 76f9c90..a98bf9e 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -15,6 +15,7 @@
 
 #include <algorithm>
 #include <cerrno>
+#include <cstdio>
 #include <cstdlib>
 #include <memory>
 #include <thread>
@@ -85,6 +86,24 @@ std::string FileStore::getKeyPath(const std::string& key) const {
   return path_ + "/" + (name.empty() ? "%" : name);
 }
 
+// Replaces the file as a whole, so that a writer that dies half way leaves the old value. Requires the lock.
+bool FileStore::writeFile(const std::string& path, const void* data, size_t size) const {
+  const auto temp = path_ + "/.tmp";
+  FILE* f = fopen(temp.c_str(), "wb");
+  if (!f) {
+    LOGE("FileStore: fopen for writing failed for path: %s", temp.c_str());
+    return false;
+  }
+
+  bool written = size == 0 || fwrite(data, 1, size, f) == size;
+  written = fclose(f) == 0 && written;
+  if (!written || rename(temp.c_str(), path.c_str()) != 0) {
+    LOGE("FileStore: fwrite failed for path: %s", path.c_str());
+    return false;
+  }
+  return true;
+}
+
 void FileStore::set(const std::string& key, const std::vector<uint8_t>& value) {
   const auto path = getKeyPath(key);
   FileLock lock(getLockPath());
@@ -93,19 +112,7 @@ void FileStore::set(const std::string& key, const std::vector<uint8_t>& value) {
     return;
   }
 
-  FILE* f = fopen(path.c_str(), "wb");
-  if (!f) {
-    LOGE("FileStore: fopen for writing failed for path: %s", path.c_str());
-    return;
-  }
-
-  if (!value.empty()) {
-    size_t written = fwrite(value.data(), 1, value.size(), f);
-    if (written != value.size()) {
-      LOGE("FileStore: fwrite failed for path: %s", path.c_str());
-    }
-  }
-  fclose(f);
+  writeFile(path, value.data(), value.size());
 }
 
 std::vector<uint8_t> FileStore::get(const std::string& key) {
@@ -202,18 +209,8 @@ int64_t FileStore::add(const std::string& key, int64_t value) {
 
   currentValue += value;
 
-  FILE* fWrite = fopen(path.c_str(), "wb");
-  if (!fWrite) {
-    LOGE("FileStore: fopen for writing failed for path: %s", path.c_str());
-    return currentValue;
-  }
-
-  using FileCloserFn = int (*)(FILE*);
-  std::unique_ptr<FILE, FileCloserFn> fileGuard(fWrite, &fclose);
   std::string s = std::to_string(currentValue);
-  if (fwrite(s.c_str(), 1, s.length(), fWrite) != s.length()) {
-    LOGE("FileStore: fwrite failed for path: %s", path.c_str());
-  }
+  writeFile(path, s.data(), s.length());
 
   return currentValue;
 }
diff --git a/src/Distributed/FileStore.h b/src/Distributed/FileStore.h
index c52b65b..3683b80 100644
--- a/src/Distributed/FileStore.h
+++ b/src/Distributed/FileStore.h
@@ -29,6 +29,7 @@ class FileStore : public Store {
  private:
   std::string getLockPath() const;
   std::string getKeyPath(const std::string& key) const;
+  bool writeFile(const std::string& path, const void* data, size_t size) const;
   bool checkKey(const std::string& key) const;
 
   std::string path_;
-- 
2.43.0


From 0fc6cedc498128e7a10bf2c51c55fef6255ff3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:07 +0000
Subject: [PATCH 64/73] fix: a work that had failed was reported as successful
 to later waiters

---
 src/Distributed/Work.h       | 4 ++++
 src/Distributed/WorkNCCL.cpp | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/Work.h b/src/Distributed/Work.h
index 3eb4cf0..9b2e3f5 100644
--- a/src/Distributed/Work.h
+++ b/src/Distributed/Work.h
@@ -102,6 +102,10 @@ class Work {
  protected:
   void finish(std::string exception) {
     std::unique_lock<std::mutex> lock(mutex_);
+    if (completed_) {
+      // the first outcome is the one waiters were told
+      return;
+    }
     completed_ = true;
     exception_ = std::move(exception);
     lock.unlock();
diff --git a/src/Distributed/WorkNCCL.cpp b/src/Distributed/WorkNCCL.cpp
index 4a4220c..cee9a41 100644
--- a/src/Distributed/WorkNCCL.cpp
+++ b/src/Distributed/WorkNCCL.cpp
@@ -22,6 +22,10 @@ bool WorkNCCL::isCompleted() {
 }
 
 bool WorkNCCL::wait(std::chrono::milliseconds timeout) {
+  if (Work::isCompleted() && !isSuccess()) {
+    return false;
+  }
+
   synchronize();
 
   if (timeout != kNoTimeout) {
@@ -29,7 +33,7 @@ bool WorkNCCL::wait(std::chrono::milliseconds timeout) {
       bool timedOut = checkTimeout(timeout == kNoTimeout ? std::nullopt : std::make_optional(timeout));
       if (timedOut) {
         finish("WorkNCCL wait timed out");
-        return false;
+        return isSuccess();
       }
       std::this_thread::sleep_for(std::chrono::milliseconds(1));
     }
@@ -39,7 +43,7 @@ bool WorkNCCL::wait(std::chrono::milliseconds timeout) {
   }
 
   finish("");
-  return true;
+  return isSuccess();
 }
 
 void WorkNCCL::synchronize() const {
-- 
2.43.0


From f290a185c0ce0571c88ca42da1d19c6b8c7d62ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:07 +0000
Subject: [PATCH 65/73] fix: registering a device type without a backend object
 crashed or kept the old backend

---
 src/Distributed/ProcessGroup.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/ProcessGroup.cpp b/src/Distributed/ProcessGroup.cpp
index 25b2533..7b8ba78 100644
--- a/src/Distributed/ProcessGroup.cpp
+++ b/src/Distributed/ProcessGroup.cpp
@@ -76,12 +76,15 @@ void ProcessGroup::setBackend(DeviceType deviceType, BackendType backendType,
   if (backendTypeToBackend_.find(backendType) != backendTypeToBackend_.end()) {
     auto existingBackend = backendTypeToBackend_.at(backendType);
     deviceTypeToBackend_[deviceType] = existingBackend;
-    ASSERT(existingBackend->getBoundDeviceId() == (*backend)->getBoundDeviceId());
+    ASSERT(!backend.has_value() || existingBackend->getBoundDeviceId() == (*backend)->getBoundDeviceId());
   } else {
     if (backend.has_value()) {
       deviceTypeToBackend_[deviceType] = backend.value();
       backendTypeToBackend_[backendType] = backend.value();
       (*backend)->setBoundDeviceId(boundDeviceId_);
+    } else {
+      // resolved once a backend of the type is there, not to the one registered before
+      deviceTypeToBackend_.erase(deviceType);
     }
   }
 }
-- 
2.43.0


From f5e164699f7e66f798c637d98e052ffd2a3f4d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:07 +0000
Subject: [PATCH 66/73] fix: a failure while creating a communicator
 deadlocked, and one while issuing left the group open

---
 src/Distributed/BackendNCCL.cpp | 11 ++++++++---
 src/Distributed/BackendNCCL.h   |  9 +++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/Distributed/BackendNCCL.cpp b/src/Distributed/BackendNCCL.cpp
index 4d578ee..8450ba6 100644
--- a/src/Distributed/BackendNCCL.cpp
+++ b/src/Distributed/BackendNCCL.cpp
@@ -128,12 +128,17 @@ std::shared_ptr<NCCLComm> BackendNCCL::getNCCLComm(const std::string& deviceKey,
   ncclUniqueId commId;
   std::string key = NCCL_COMM_ID_PREFIX + std::to_string(ncclCommCounter_++);
   if (getRank() == 0) {
-    NCCL_CALL(ncclGetUniqueId(&commId));
+    ncclResult_t ret = ncclGetUniqueId(&commId);
+    if (ret != ncclSuccess) {
+      NCCL_ERROR(ret);
+      setErrorLocked(BackendErrorType::COMM_ERROR);
+      return nullptr;
+    }
     store_->set(key, std::string(reinterpret_cast<char*>(&commId), sizeof(commId)));
   } else {
     auto idData = store_->get(key);
     if (idData.size() != sizeof(commId)) {
-      setError(BackendErrorType::COMM_ERROR);
+      setErrorLocked(BackendErrorType::COMM_ERROR);
       return nullptr;
     }
     std::memcpy(&commId, idData.data(), sizeof(commId));
@@ -141,7 +146,7 @@ std::shared_ptr<NCCLComm> BackendNCCL::getNCCLComm(const std::string& deviceKey,
 
   auto comm = NCCLComm::create(getSize(), getRank(), commId, device.index);
   if (!comm) {
-    setError(BackendErrorType::COMM_ERROR);
+    setErrorLocked(BackendErrorType::COMM_ERROR);
     return nullptr;
   }
 
diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index b131ab7..8ec257a 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -90,6 +90,10 @@ class BackendNCCL : public Backend {
  protected:
   void setError(BackendErrorType error) {
     std::lock_guard<std::mutex> lock(mutex_);
+    setErrorLocked(error);
+  }
+
+  void setErrorLocked(BackendErrorType error) {
     if (error_ == BackendErrorType::SUCCESS) {
       error_ = error;
     }
@@ -178,8 +182,9 @@ std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Fun
 
   cuda::CudaDeviceGuard guard(device.index);
   NCCL_CALL(ncclGroupStart());
-  NCCL_CALL(ncclFunc(comm, ncclStream.stream()));
-  ncclResult_t state = ncclGroupEnd();
+  ncclResult_t result = ncclFunc(comm, ncclStream.stream());
+  ncclResult_t state = ncclGroupEnd();  // also after a failure: an open group would swallow the next call
+  NCCL_CALL(result);
 
   if (!waitNcclCommandResult(comm, state)) {
     return nullptr;
-- 
2.43.0


From 9e0f86ffdf767ed27f0feec650020dce45bc9c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 67/73] fix: waiting without a timeout reported work completed
 that was still under way

---
 src/Distributed/WorkNCCL.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/WorkNCCL.cpp b/src/Distributed/WorkNCCL.cpp
index cee9a41..453c51e 100644
--- a/src/Distributed/WorkNCCL.cpp
+++ b/src/Distributed/WorkNCCL.cpp
@@ -42,7 +42,10 @@ bool WorkNCCL::wait(std::chrono::milliseconds timeout) {
     stream.synchronize();
   }
 
-  finish("");
+  // without a timeout only the stream waits, and the operation may still be under way
+  if (isCompleted()) {
+    finish("");
+  }
   return isSuccess();
 }
 
-- 
2.43.0


From a6a4ab3514332cc219fe7b326077d7e5f785e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 68/73] fix: gathered results did not reach the caller's
 tensors, and reduceScatter's inputs were freed under it

---
 src/Distributed/BackendNCCL.cpp | 10 +++++++++-
 src/Distributed/BackendNCCL.h   |  1 +
 src/Distributed/WorkNCCL.cpp    |  8 +++++++-
 src/Distributed/WorkNCCL.h      | 10 ++++++++++
 4 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/BackendNCCL.cpp b/src/Distributed/BackendNCCL.cpp
index 8450ba6..7624146 100644
--- a/src/Distributed/BackendNCCL.cpp
+++ b/src/Distributed/BackendNCCL.cpp
@@ -52,13 +52,21 @@ std::shared_ptr<Work> BackendNCCL::allGather(std::vector<std::vector<Tensor>>& o
   ASSERT(inputTensors.size() == 1);
   auto& input = inputTensors.back();
   auto output = op::stack(ArrayView<Tensor>(outputTensors.back()), 0);
-  return collective(
+  auto work = collective(
       input, output,
       [&](const std::shared_ptr<NCCLComm>& comm, cudaStream_t stream) {
         return ncclAllGather(input.dataPtr<>(), output.dataPtr<>(), input.numel(), getNcclDataType(input.dtype()),
                              comm->getNcclComm(), stream);
       },
       OpType::ALL_GATHER);
+  if (work) {
+    static_cast<WorkNCCL*>(work.get())->setDeliver([output, outputs = outputTensors.back()]() mutable {
+      for (size_t i = 0; i < outputs.size(); i++) {
+        outputs[i].copy_(output.narrow(0, static_cast<int64_t>(i), 1).view(outputs[i].sizes()));
+      }
+    });
+  }
+  return work;
 }
 
 std::shared_ptr<Work> BackendNCCL::reduceScatter(std::vector<Tensor>& outputTensors,
diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index 8ec257a..a3dad31 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -178,6 +178,7 @@ std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Fun
   work->setStore(store_);
   work->setIsBarrierOp(opType == OpType::BARRIER);
   work->setCudaEvent(cuda::createCUDAEvent(device.index));
+  work->setInputs({input});
   work->setOutputs({output});
 
   cuda::CudaDeviceGuard guard(device.index);
diff --git a/src/Distributed/WorkNCCL.cpp b/src/Distributed/WorkNCCL.cpp
index 453c51e..3636ce4 100644
--- a/src/Distributed/WorkNCCL.cpp
+++ b/src/Distributed/WorkNCCL.cpp
@@ -46,7 +46,13 @@ bool WorkNCCL::wait(std::chrono::milliseconds timeout) {
   if (isCompleted()) {
     finish("");
   }
-  return isSuccess();
+  if (!isSuccess()) {
+    return false;
+  }
+  if (deliver_) {
+    std::call_once(delivered_, deliver_);
+  }
+  return true;
 }
 
 void WorkNCCL::synchronize() const {
diff --git a/src/Distributed/WorkNCCL.h b/src/Distributed/WorkNCCL.h
index 1991e37..4a3befe 100644
--- a/src/Distributed/WorkNCCL.h
+++ b/src/Distributed/WorkNCCL.h
@@ -6,6 +6,9 @@
 
 #pragma once
 
+#include <functional>
+#include <mutex>
+
 #include "NCCLUtils.h"
 #include "Store.h"
 #include "Work.h"
@@ -32,8 +35,12 @@ class WorkNCCL : public Work {
   void setStore(const std::shared_ptr<Store>& store) { store_ = store; }
   void setIsBarrierOp(bool isBarrierOp) { isBarrierOp_ = isBarrierOp; }
   void setCudaEvent(cuda::CUDAEvent&& event) { cudaEvent_ = std::move(event); }
+  void setInputs(std::vector<Tensor>&& input) { inputs_ = std::move(input); }
   void setOutputs(std::vector<Tensor>&& output) { outputs_ = std::move(output); }
 
+  // run by the first wait that does not fail, ordered after the operation on the compute stream
+  void setDeliver(std::function<void()>&& deliver) { deliver_ = std::move(deliver); }
+
   const Device& getDevice() const { return device_; }
   const std::string& getPgUID() const { return pgUID_; }
   const std::string& getPgDesc() const { return pgDesc_; }
@@ -55,7 +62,10 @@ class WorkNCCL : public Work {
 
   bool isBarrierOp_{false};
   cuda::CUDAEvent cudaEvent_;
+  std::vector<Tensor> inputs_;  // alive until the operation is over
   std::vector<Tensor> outputs_;
+  std::once_flag delivered_;
+  std::function<void()> deliver_;
 };
 
 }  // namespace tinytorch::distributed
-- 
2.43.0


From 91b18b60edeaa05da07a2df09650623fa6e49216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 69/73] fix: the process group ignored its timeout and
 waitWorkers, and a rejected back end left it initialised

---
 src/Distributed/DistributedProcessGroup.cpp | 11 ++++++-----
 src/Distributed/FileStore.cpp               |  3 ++-
 src/Distributed/FileStore.h                 |  2 +-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/Distributed/DistributedProcessGroup.cpp b/src/Distributed/DistributedProcessGroup.cpp
index 9c90ca1..12add07 100644
--- a/src/Distributed/DistributedProcessGroup.cpp
+++ b/src/Distributed/DistributedProcessGroup.cpp
@@ -52,7 +52,6 @@ bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::s
 
   auto store = createStore(config);
   processGroup_ = std::make_shared<ProcessGroup>(store, config.rank, config.worldSize);
-  processGroup_->setTimeout(timeout);
   processGroup_->setDefaultBackend(backend);
 
   switch (backend) {
@@ -63,10 +62,12 @@ bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::s
     }
     default: {
       LOGE("Invalid ProcessGroup backend, backend=%d", backend);
+      processGroup_.reset();
       return false;
     }
   }
 
+  processGroup_->setTimeout(timeout);
   LOGD("Init ProcessGroup success, backend=%s", backendTypeToString(backend));
   return true;
 }
@@ -132,13 +133,13 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
 }
 
 std::shared_ptr<Store> DistributedProcessGroup::createStore(const InitConfig& config) {
-  auto timeout = kBackendDefaultTimeout;
+  auto timeout = config.timeout;
 
   // env
   if (config.method == InitMethod::ENV) {
     bool isServer = (config.rank == 0);
     int numWorkers = config.worldSize;
-    bool waitWorkers = true;
+    bool waitWorkers = config.waitWorkers;
     return std::make_shared<TCPStore>(config.masterAddr,  // host
                                       config.masterPort,  // port
                                       isServer,           // isServer
@@ -152,7 +153,7 @@ std::shared_ptr<Store> DistributedProcessGroup::createStore(const InitConfig& co
   if (config.method == InitMethod::TCP) {
     bool isServer = (config.rank == 0);
     int numWorkers = config.worldSize;
-    bool waitWorkers = true;
+    bool waitWorkers = config.waitWorkers;
     return std::make_shared<TCPStore>(config.masterAddr,                         // host
                                       static_cast<uint16_t>(config.masterPort),  // port
                                       isServer,                                  // isServer
@@ -164,7 +165,7 @@ std::shared_ptr<Store> DistributedProcessGroup::createStore(const InitConfig& co
 
   // file
   if (config.method == InitMethod::FILE) {
-    return std::make_shared<FileStore>(config.filePath);
+    return std::make_shared<FileStore>(config.filePath, timeout);
   }
 
   LOGE("Invalid config: %s", initMethodToString(config.method));
diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index a98bf9e..50f71ad 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -60,7 +60,8 @@ class FileLock {
   int fd_ = -1;
 };
 
-FileStore::FileStore(std::string path) : path_(std::move(path)) {
+FileStore::FileStore(std::string path, const std::chrono::milliseconds& timeout)
+    : Store(timeout), path_(std::move(path)) {
   int result = 0;
   result = mkdir(path_.c_str(), 0755);
   if (result != 0 && errno != EEXIST) {
diff --git a/src/Distributed/FileStore.h b/src/Distributed/FileStore.h
index 3683b80..1f24004 100644
--- a/src/Distributed/FileStore.h
+++ b/src/Distributed/FileStore.h
@@ -12,7 +12,7 @@ namespace tinytorch::distributed {
 
 class FileStore : public Store {
  public:
-  explicit FileStore(std::string path);
+  explicit FileStore(std::string path, const std::chrono::milliseconds& timeout = kDefaultTimeout);
   ~FileStore() override = default;
 
   FileStore(const FileStore&) = delete;
-- 
2.43.0


From 14aad2fc5dda1b849f313a1b77e17679ed4c0892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 70/73] fix: numbers out of range in the init method ended the
 program or named another port

---
 src/Distributed/DistributedProcessGroup.cpp | 32 ++++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/Distributed/DistributedProcessGroup.cpp b/src/Distributed/DistributedProcessGroup.cpp
index 12add07..8b266a4 100644
--- a/src/Distributed/DistributedProcessGroup.cpp
+++ b/src/Distributed/DistributedProcessGroup.cpp
@@ -6,6 +6,9 @@
 
 #include "DistributedProcessGroup.h"
 
+#include <cerrno>
+#include <climits>
+#include <cstdlib>
 #include <iostream>
 #include <regex>
 
@@ -15,6 +18,19 @@
 
 namespace tinytorch::distributed {
 
+// false for anything but a whole number from min to max
+static bool parseNumber(const std::string& text, long min, long max, int& value) {
+  char* end = nullptr;
+  errno = 0;
+  long number = std::strtol(text.c_str(), &end, 10);
+  if (text.empty() || *end != '\0' || errno != 0 || number < min || number > max) {
+    LOGE("InitMethod: invalid number: %s", text.c_str());
+    return false;
+  }
+  value = static_cast<int>(number);
+  return true;
+}
+
 bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::string& initMethod, int rank,
                                                int worldSize, std::chrono::milliseconds timeout, bool waitWorkers) {
   if (processGroup_ != nullptr) {
@@ -92,16 +108,22 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
 
     config.masterAddr = envAddr;
     if (envPort) {
-      config.masterPort = std::stoi(envPort);
+      if (!parseNumber(envPort, 0, UINT16_MAX, config.masterPort)) {
+        return {};
+      }
     } else {
       config.masterPort = TCPStore::kDefaultPort;
     }
 
     if (envWorldSize && config.worldSize == -1) {
-      config.worldSize = std::stoi(envWorldSize);
+      if (!parseNumber(envWorldSize, 1, INT_MAX, config.worldSize)) {
+        return {};
+      }
     }
     if (envRank && config.rank == -1) {
-      config.rank = std::stoi(envRank);
+      if (!parseNumber(envRank, 0, INT_MAX, config.rank)) {
+        return {};
+      }
     }
   } else if (initString.substr(0, 6) == "tcp://") {
     config.method = InitMethod::TCP;
@@ -113,7 +135,9 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
 
     if (std::regex_match(initString, matches, tcpRegexWithPort)) {
       config.masterAddr = matches[1].str();
-      config.masterPort = std::stoi(matches[2].str());
+      if (!parseNumber(matches[2].str(), 0, UINT16_MAX, config.masterPort)) {
+        return {};
+      }
     } else if (std::regex_match(initString, matches, tcpRegexNoPort)) {
       config.masterAddr = matches[1].str();
       config.masterPort = TCPStore::kDefaultPort;
-- 
2.43.0


From 653c53f021620316920c98e277305cfedcdfd5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 71/73] fix: a destroyed reducer left its hooks on the
 parameters

---
 src/Distributed/Reducer.cpp | 9 ++++++++-
 src/Distributed/Reducer.h   | 7 ++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/Reducer.cpp b/src/Distributed/Reducer.cpp
index 4578303..9ea6205 100644
--- a/src/Distributed/Reducer.cpp
+++ b/src/Distributed/Reducer.cpp
@@ -36,6 +36,12 @@ Reducer::Reducer(std::vector<TensorPtr> parameters, std::shared_ptr<DistributedP
   registerHooks();
 }
 
+Reducer::~Reducer() {
+  for (auto& ctx : hookCtxs_) {
+    ctx->param.unregisterHook(ctx->hookId);
+  }
+}
+
 void Reducer::buildBuckets() {
   if (parameters_.empty()) {
     return;
@@ -99,7 +105,8 @@ void Reducer::registerHooks() {
       ctx->self = this;
       ctx->bIdx = bIdx;
       ctx->pIdx = pIdx;
-      param->registerHook(&parameterHookFn, ctx.get());
+      ctx->param = *param;
+      ctx->hookId = param->registerHook(&parameterHookFn, ctx.get());
       hookCtxs_.push_back(std::move(ctx));
     }
   }
diff --git a/src/Distributed/Reducer.h b/src/Distributed/Reducer.h
index 7d27726..220798f 100644
--- a/src/Distributed/Reducer.h
+++ b/src/Distributed/Reducer.h
@@ -19,12 +19,17 @@ class Reducer {
     Reducer* self;
     int64_t bIdx;
     int64_t pIdx;
+    Tensor param;  // the hooked tensor itself, whatever becomes of the module's parameter
+    int64_t hookId = -1;
   };
 
   Reducer(std::vector<TensorPtr> parameters, std::shared_ptr<DistributedProcessGroup> processGroup,
           int64_t bucketBytesCap = kDefaultBucketBytesCap);
 
-  ~Reducer() = default;
+  ~Reducer();
+
+  Reducer(const Reducer&) = delete;
+  Reducer& operator=(const Reducer&) = delete;
 
   void prepareForBackward();
   void broadcastParameters(int rootRank = 0) const;
-- 
2.43.0


From 0ed3dfd05636e0b588161454f1f5ead16c2dcaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 72/73] fix: a frozen parameter kept its bucket's gradients
 from being averaged

---
 src/Distributed/Reducer.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Distributed/Reducer.cpp b/src/Distributed/Reducer.cpp
index 9ea6205..74fc613 100644
--- a/src/Distributed/Reducer.cpp
+++ b/src/Distributed/Reducer.cpp
@@ -58,6 +58,11 @@ void Reducer::buildBuckets() {
     ASSERT(param->device() == device);
     ASSERT(param->dtype() == dtype);
 
+    if (!param->requiresGrad()) {
+      // has no gradient to wait for
+      continue;
+    }
+
     int64_t paramBytes = param->nbytes();
     if (currentBytes + paramBytes > bucketBytesCap_ && !currentParams.empty()) {
       buckets_.push_back(createBucket(currentParams, device, dtype));
@@ -170,6 +175,17 @@ void Reducer::broadcastParameters(int rootRank) const {
 
     copyFlattenedBufferToParams(bIdx);
   }
+
+  for (auto& param : parameters_) {
+    if (param->requiresGrad()) {
+      continue;
+    }
+    std::vector<Tensor> tensors = {*param};
+    auto work = processGroup_->broadcast(tensors, rootRank);
+    if (work) {
+      work->wait();
+    }
+  }
 }
 
 void Reducer::checkAllBucketsReady() {
-- 
2.43.0


From 3cfb28f6623e3697e1e7aef838891e7765822e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 73/73] fix: ranks whose gradients became ready in different
 orders reduced different buckets together

---
 src/Distributed/Reducer.cpp | 7 ++++++-
 src/Distributed/Reducer.h   | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/Reducer.cpp b/src/Distributed/Reducer.cpp
index 74fc613..c112432 100644
--- a/src/Distributed/Reducer.cpp
+++ b/src/Distributed/Reducer.cpp
@@ -132,7 +132,11 @@ void Reducer::onGradReady(int64_t bucketIdx, int64_t paramIdx, const Tensor& gra
   ASSERT(!bucket.reduceStarted);
   if (bucket.readyCount == static_cast<int64_t>(bucket.params.size())) {
     bucket.reduceStarted = true;
-    reduceBucket(bucketIdx);
+
+    // gradients may become ready in another order elsewhere: all ranks reduce in the order of the buckets
+    while (nextBucketIdx_ < static_cast<int64_t>(buckets_.size()) && buckets_[nextBucketIdx_].reduceStarted) {
+      reduceBucket(nextBucketIdx_++);
+    }
   }
 }
 
@@ -153,6 +157,7 @@ void Reducer::reduceBucket(int64_t bucketIdx) {
 
 void Reducer::prepareForBackward() {
   bucketReadyCnt_ = 0;
+  nextBucketIdx_ = 0;
   for (auto& bucket : buckets_) {
     bucket.readyCount = 0;
     bucket.reduceStarted = false;
diff --git a/src/Distributed/Reducer.h b/src/Distributed/Reducer.h
index 220798f..7330091 100644
--- a/src/Distributed/Reducer.h
+++ b/src/Distributed/Reducer.h
@@ -66,6 +66,7 @@ class Reducer {
   std::shared_ptr<DistributedProcessGroup> processGroup_;
   int64_t bucketBytesCap_;
   int64_t bucketReadyCnt_;
+  int64_t nextBucketIdx_ = 0;
   std::vector<Bucket> buckets_;
   std::vector<std::unique_ptr<ParameterHookCtx>> hookCtxs_;
 };
-- 
2.43.0

