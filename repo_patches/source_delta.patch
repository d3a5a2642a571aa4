From 3220786e2f02bef162f2abb114102be5a1a9f4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:29 +0000
Subject: [PATCH 01/21] fix: randn of f64 allocated f32 storage and overflowed
 it

---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 9ca8418..f93959d 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -790,7 +790,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn(const SizeVec &sizes,
     return ret;
   } else {
     std::normal_distribution<double> gen_norm{};
-    auto ret = create(INNC::f32, StridedLayout{sizes});
+    auto ret = create(INNC::f64, StridedLayout{sizes});
     auto dptr = reinterpret_cast<double *>(ret->data_->get_blob());
     for (size_t i = 0; i < ret->numel(); ++i) {
       *(dptr + i) = gen_norm(rng);
-- 
2.43.0


From 4d6000ca797f89b797f10903fe00d4e7a4c78ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:29 +0000
Subject: [PATCH 02/21] fix: Tensor::stride() threw for every tensor

---
 src/INNC/tensorImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index f93959d..b47dfd6 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -56,10 +56,10 @@ size_t TensorImpl::size(int d) const {
 }
 
 SignedVec TensorImpl::stride() const {
-  if (typeid(view) == typeid(std::shared_ptr<StridedLayout>)) {
-    return dynamic_cast<StridedLayout *>(view.get())->strides;
+  if (auto view_s = dynamic_cast<StridedLayout *>(view.get())) {
+    return view_s->strides;
   } else {
-    throw std::runtime_error("Scalar do not have stride");
+    throw std::runtime_error("Only strided tensors have stride");
   }
 }
 
-- 
2.43.0


From 10f68fb553625eb96c0b51f0efb457a1bc600487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:29 +0000
Subject: [PATCH 03/21] fix: Tensor::dim() was declared but never defined

---
 src/INNC/tensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/INNC/tensor.cpp b/src/INNC/tensor.cpp
index 4784581..8e4a935 100644
--- a/src/INNC/tensor.cpp
+++ b/src/INNC/tensor.cpp
@@ -70,6 +70,8 @@ Tensor Tensor::from_blob(void *data, const SizeVec &sizes, types dtype) {
 
 size_t Tensor::numel() const noexcept { return fptr->numel(); }
 
+size_t Tensor::dim() const noexcept { return fptr->dim(); }
+
 void Tensor::release() noexcept { fptr->release(); }
 
 INNC::types Tensor::type() const { return fptr->type(); }
-- 
2.43.0


From f81280a736f10ea4d8da227a4a05147ddec01a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:29 +0000
Subject: [PATCH 04/21] fix: broadcast_range never rejected incompatible sizes

---
 src/INNC/utils/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INNC/utils/utils.cpp b/src/INNC/utils/utils.cpp
index dd3afb6..2274fde 100644
--- a/src/INNC/utils/utils.cpp
+++ b/src/INNC/utils/utils.cpp
@@ -28,8 +28,8 @@ SizeVec broadcast_range(const SizeVec *u, const SizeVec *v) {
     if (i <= dim_v) {
       auto su = (*u)[dim_u - i];
       auto sv = (*v)[dim_v - i];
-      run_expect(su != 1 || sv != 1 || su == sv, "Size ", u, " and Size ", v,
-                 " are not broadcastable.");
+      run_expect(su == sv || (su == 1 && sv != 0) || (sv == 1 && su != 0),
+                 "Size ", *u, " and Size ", *v, " are not broadcastable.");
       ret[dim_u - i] = std::max(su, sv);
     } else {
       ret[dim_u - i] = (*u)[dim_u - i];
-- 
2.43.0


From 25f4b9914a0098394726712793516caee84fd893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:29 +0000
Subject: [PATCH 05/21] fix: backward of a division crashed unless both
 operands required grad

---
 src/INNC/function.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index f1b2c36..7cbc9cf 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -78,13 +78,17 @@ void tensor_div_back_numerator_f(TensorImpl &dst, TensorImpl &tf1,
                                                                     tf2);
 }
 void DivBack::step_back() {
-  try_accumulate_update(input_tfs[0].get());
-  tensor_div_back_numerator_f(*input_tfs[0]->grad, get_out_grad(),
-                              *input_tfs[1]);
-  try_accumulate_update(input_tfs[1].get());
-  native::tensor_div_back_denominator_helper::dispatch(input_tfs[1]->type(),
-                                                       this_tf->type())(
-      input_tfs[1]->grad.get(), &get_out_grad(), this_tf, input_tfs[1].get());
+  if (input_tfs[0]->requires_grad) {
+    try_accumulate_update(input_tfs[0].get());
+    tensor_div_back_numerator_f(*input_tfs[0]->grad, get_out_grad(),
+                                *input_tfs[1]);
+  }
+  if (input_tfs[1]->requires_grad) {
+    try_accumulate_update(input_tfs[1].get());
+    native::tensor_div_back_denominator_helper::dispatch(input_tfs[1]->type(),
+                                                         this_tf->type())(
+        input_tfs[1]->grad.get(), &get_out_grad(), this_tf, input_tfs[1].get());
+  }
 }
 
 void SumBack::step_back() {
-- 
2.43.0


From ee8c3421d3d026ad2e672ba6742f2022e3177a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:29 +0000
Subject: [PATCH 06/21] fix: backward of a division by a broadcast denominator
 threw

---
 include/INNC/ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 7412be1..2f94888 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -380,7 +380,7 @@ void tensor_div_back_denominator(TensorImpl *dst, const TensorImpl *outgrad,
   auto quot_ptr = reinterpret_cast<Quot *>(quot->data_->get_blob());
   auto den_ptr = reinterpret_cast<Den *>(den->data_->get_blob());
   for_each_sizevec(quot->size(), [=](const SizeVec &sv) {
-    *(dst_ptr + dst->cnt_from_index(sv)) -=
+    *(dst_ptr + dst->cnt_from_aug_index(sv)) -=
         *(outgrad_ptr + outgrad->cnt_from_aug_index(sv)) *
         *(quot_ptr + quot->cnt_from_aug_index(sv)) /
         *(den_ptr + den->cnt_from_aug_index(sv));
-- 
2.43.0


From abe0e6bd297f99788315f92dbc6ce2966ff349bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:29 +0000
Subject: [PATCH 07/21] fix: backward of mean ignored the incoming gradient

---
 src/INNC/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 7cbc9cf..8250d83 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -102,7 +102,8 @@ void MeanBack::step_back() {
                       TensorImpl::full(input_tfs[0]->view->sizes,
                                        1. / ((double)input_tfs[0]->numel()),
                                        input_tfs[0]->dtype)
-                          .get());
+                          .get(),
+                      &get_out_grad());
 }
 
 void NoBack::step_back() { try_accumulate_grad(input_tfs[0].get(), nullptr); }
-- 
2.43.0


From 8ef113810f16f3ad791d4e11027bd00f589f382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:23 +0000
Subject: [PATCH 08/21] fix: max/min compared with an element outside the view
 and lost the first element's grad

---
 include/INNC/ops.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 2f94888..5cc0802 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -245,16 +245,17 @@ void tensor_max(TensorImpl *to, const TensorImpl *from,
                 to_string(from->dlayout).c_str()));
   T *to_ptr = reinterpret_cast<T *>(to->data_->get_blob());
   T *from_ptr = reinterpret_cast<T *>(from->data_->get_blob());
-  *to_ptr = *from_ptr;
   SizeVec max_sv;
-  for_each_sizevec(from->view->sizes, [=, &max_sv](const SizeVec &sv) {
+  bool found = false;
+  for_each_sizevec(from->view->sizes, [=, &max_sv, &found](const SizeVec &sv) {
     T t = *(from_ptr + from->cnt_from_index(sv));
-    if (__LIKELY(*to_ptr >= t))
+    if (__LIKELY(found && *to_ptr >= t))
       return;
     *to_ptr = t;
     max_sv = sv;
+    found = true;
   });
-  if (grad != nullptr)
+  if (grad != nullptr && found)
     *(reinterpret_cast<T *>(grad->data_->get_blob()) +
       grad->cnt_from_index(max_sv)) = 1;
 }
@@ -272,16 +273,17 @@ void tensor_min(TensorImpl *to, const TensorImpl *from,
                 to_string(from->dlayout).c_str()));
   T *to_ptr = reinterpret_cast<T *>(to->data_->get_blob());
   T *from_ptr = reinterpret_cast<T *>(from->data_->get_blob());
-  *to_ptr = *from_ptr;
   SizeVec min_sv;
-  for_each_sizevec(from->view->sizes, [=, &min_sv](const SizeVec &sv) {
+  bool found = false;
+  for_each_sizevec(from->view->sizes, [=, &min_sv, &found](const SizeVec &sv) {
     T t = *(from_ptr + from->cnt_from_index(sv));
-    if (__LIKELY(*to_ptr <= t))
+    if (__LIKELY(found && *to_ptr <= t))
       return;
     *to_ptr = t;
     min_sv = sv;
+    found = true;
   });
-  if (grad != nullptr)
+  if (grad != nullptr && found)
     *(reinterpret_cast<T *>(grad->data_->get_blob()) +
       grad->cnt_from_index(min_sv)) = 1;
 }
-- 
2.43.0


From b995b946627ca1d8ad60ea0d735a82f485a280b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:23 +0000
Subject: [PATCH 09/21] fix: abs of a view wrote outside of its result

---
 src/INNC/tensorImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index b47dfd6..43450b4 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -392,11 +392,11 @@ std::shared_ptr<TensorImpl> TensorImpl::mean() {
 }
 
 std::shared_ptr<TensorImpl> TensorImpl::abs() {
-  auto ret = create(dtype, view);
+  auto ret = create(dtype, StridedLayout{view->sizes});
   if (!requires_grad) {
     native::tensor_abs_helper::dispatch(dtype, dtype)(ret.get(), this, nullptr);
   } else {
-    auto grad = create(dtype, view);
+    auto grad = create(dtype, StridedLayout{view->sizes});
     native::tensor_abs_helper::dispatch(dtype, dtype)(ret.get(), this,
                                                       grad.get());
     ret->requires_grad = true;
-- 
2.43.0


From 35975953fbef37c5056a32691ea4e9f5c97435e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:23 +0000
Subject: [PATCH 10/21] fix: all() looked at single bytes instead of elements

---
 src/INNC/tensorImpl.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 43450b4..45b9a89 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -742,6 +742,27 @@ std::shared_ptr<TensorImpl> TensorImpl::detach() {
   return create(dtype, view, data_, dlayout);
 }
 
+static bool is_nonzero_at(const TensorImpl &t, const SizeVec &index) {
+  auto ptr =
+      t.data_->get_blob() + t.cnt_from_index(index) * INNC::size_of(t.dtype);
+  switch (t.dtype) {
+  case i8:
+    return *reinterpret_cast<std::int8_t *>(ptr) != 0;
+  case i16:
+    return *reinterpret_cast<std::int16_t *>(ptr) != 0;
+  case i32:
+    return *reinterpret_cast<std::int32_t *>(ptr) != 0;
+  case i64:
+    return *reinterpret_cast<std::int64_t *>(ptr) != 0;
+  case f32:
+    return *reinterpret_cast<float *>(ptr) != 0;
+  case f64:
+    return *reinterpret_cast<double *>(ptr) != 0;
+  default:
+    throw std::logic_error("Unknown type");
+  }
+}
+
 bool TensorImpl::all() const {
   if (dlayout == layouts::strided) {
     for (auto r : view->sizes) {
@@ -760,14 +781,12 @@ bool TensorImpl::all() const {
           sv[ptr] = 0;
           ++sv[--ptr];
         }
-        if (!*reinterpret_cast<bool *>(
-                (data_->get_blob() + cnt_from_index(sv))))
+        if (!is_nonzero_at(*this, sv))
           return false;
         ++sv[last_idx];
       };
     } else {
-      return *reinterpret_cast<bool *>(
-          (data_->get_blob() + cnt_from_index(SizeVec{})));
+      return is_nonzero_at(*this, SizeVec{});
     }
   } else {
     throw std::logic_error(
-- 
2.43.0


From c1870f22a1e58a0c4d3ea360ffa1c5e729945af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:23 +0000
Subject: [PATCH 11/21] fix: unary minus turned i8 and i16 tensors into i32

---
 src/INNC/tensorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 45b9a89..bc92f2e 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -145,7 +145,7 @@ std::shared_ptr<TensorImpl> TensorImpl::operator+() {
 }
 
 std::shared_ptr<TensorImpl> TensorImpl::operator-() {
-  return *create(char(0)) - *this;
+  return *create(std::int8_t(0)) - *this;
 }
 
 std::shared_ptr<TensorImpl> operator+(TensorImpl &l, TensorImpl &r) {
-- 
2.43.0


From 24103ce6b676bf2fb66d1108079c0482b3cf3f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:23 +0000
Subject: [PATCH 12/21] fix: cat of an empty list dereferenced a missing tensor

---
 src/INNC/tensorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index bc92f2e..5076ce9 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -825,6 +825,7 @@ std::shared_ptr<TensorImpl> TensorImpl::randn_like(const TensorImpl &t) {
 std::shared_ptr<TensorImpl>
 TensorImpl::cat(const std::vector<std::shared_ptr<INNC::TensorImpl>> &input_ts,
                 const size_t dim) {
+  run_expect(!input_ts.empty(), "cat needs at least one tensor");
   run_expect(dim >= 0 && dim < input_ts[0]->dim(),
              "you give out a illegal dim");
   for (size_t i = 1; i < input_ts.size(); i++) {
-- 
2.43.0


From 681bd9f06b8de9f46417c099e107a52aeaf94fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:23 +0000
Subject: [PATCH 13/21] fix: integer division by zero killed the process

---
 include/INNC/ops.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/INNC/ops.hpp b/include/INNC/ops.hpp
index 5cc0802..dda252c 100644
--- a/include/INNC/ops.hpp
+++ b/include/INNC/ops.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "INNC/dispatcher.hpp"
+#include "INNC/exceptions.hpp"
 #include "INNC/tensorImpl.hpp"
 #include "INNC/types.hpp"
 #include "INNC/utils/utils.hpp"
@@ -54,6 +55,9 @@ void tensor_div(TensorImpl *dst, const TensorImpl *l, const TensorImpl *r) {
   auto l_ptr = reinterpret_cast<L *>(l->data_->get_blob());
   auto r_ptr = reinterpret_cast<R *>(r->data_->get_blob());
   for_each_sizevec(dst->view->sizes, [=](const SizeVec &sv) {
+    if constexpr (std::is_integral_v<L> && std::is_integral_v<R>)
+      run_expect(*(r_ptr + r->cnt_from_aug_index(sv)) != 0,
+                 "Integer division by zero.");
     *(dst_ptr + dst->cnt_from_aug_index(sv)) =
         *(l_ptr + l->cnt_from_aug_index(sv)) /
         *(r_ptr + r->cnt_from_aug_index(sv));
-- 
2.43.0


From 6894833fc186783e586bb10e72cecd2daae172f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:23 +0000
Subject: [PATCH 14/21] fix: reshape accepted negative sizes and divided by
 zero

---
 src/INNC/tensorImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 5076ce9..5670e61 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -604,6 +604,7 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
   size_t minus_one_exist = false;
   size_t minus_one_index;
   for (size_t i = 0; i < sizes_.size(); i++) {
+    run_expect(sizes_[i] >= -1, "Sizes cannot be negative, except for one -1.");
     if (sizes_[i] == -1) {
       run_expect(!minus_one_exist,
                  "Cannot have more than two minus ones in size.");
@@ -616,7 +617,7 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
     for (size_t i = 0; i < sizes_.size(); i++)
       if (i != minus_one_index)
         s *= sizes_[i];
-    run_expect(numel % s == 0, "The input of sizes and numel is illegal.");
+    run_expect(s != 0 && numel % s == 0, "The input of sizes and numel is illegal.");
     sizes_[minus_one_index] = numel / s;
   }
   SizeVec sizes__;
-- 
2.43.0


From 19a30851f26c907f436b96896f7cf2486bb5eae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:23 +0000
Subject: [PATCH 15/21] fix: reshape of a one-element tensor that requires grad
 read out of bounds

---
 src/INNC/tensorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 5670e61..f75d34b 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -656,6 +656,7 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
     tf->requires_grad = true;
     tf->grad_fn.reset(new NoBack(tf.get(), {input}));
     share_grad_storage(*tf, *input);
+    return tf;
   }
 
   bool isometry = true;
-- 
2.43.0


From d682885a848333c6d8b6cca434811a0c26cfbcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:23 +0000
Subject: [PATCH 16/21] fix: TensorInit of empty initializers dereferenced a
 null pointer

---
 include/INNC/tensor.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/INNC/tensor.hpp b/include/INNC/tensor.hpp
index 68f4ab4..0eae948 100644
--- a/include/INNC/tensor.hpp
+++ b/include/INNC/tensor.hpp
@@ -155,6 +155,8 @@ public:
     } else
       return;
     auto first_sub = args.begin();
+    if (first_sub->shape.empty()) [[unlikely]]
+      throw std::invalid_argument("Subtensor has no element");
     if (!std::all_of(args.begin(), args.end(), [first_sub](const auto &lhs) {
           return is_same_spec(lhs, *first_sub);
         })) [[unlikely]]
-- 
2.43.0


From 145670ab4e624e1d8247038449ad36e2ae6f7b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:51 +0000
Subject: [PATCH 17/21] fix: gradients of views aliased the storage of the
 base's gradient

Backward from a view lost its gradient, a view's retained grad showed the
base's, a base's grad was left unallocated as soon as it was sliced, and the
grad of a leaf that is itself a strided view was accessed out of bounds.
---
 include/INNC/tensorImpl.hpp |  3 +++
 src/INNC/function.cpp       | 13 +++++++++----
 src/INNC/tensorImpl.cpp     | 24 +++++++-----------------
 3 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/include/INNC/tensorImpl.hpp b/include/INNC/tensorImpl.hpp
index 4a3d517..75baace 100644
--- a/include/INNC/tensorImpl.hpp
+++ b/include/INNC/tensorImpl.hpp
@@ -91,6 +91,9 @@ public:
   std::shared_ptr<TensorImpl> abs();
   std::shared_ptr<TensorImpl> max();
   std::shared_ptr<TensorImpl> min();
+  // Creates a zero grad whose storage is laid out like `data_`, so that a view
+  // of `data_` is also a view of the storage of the grad.
+  void init_grad();
   void zero_grad() const noexcept;
   std::shared_ptr<TensorImpl> operator-();
   std::shared_ptr<TensorImpl> operator+();
diff --git a/src/INNC/function.cpp b/src/INNC/function.cpp
index 8250d83..25a626c 100644
--- a/src/INNC/function.cpp
+++ b/src/INNC/function.cpp
@@ -44,9 +44,7 @@ void Backward::try_accumulate_update(TensorImpl *tf_prev, bool zero_init) {
   if (tf_prev->grad_fn.get() != nullptr)
     ++tf_prev->grad_fn->accumulated_n_outway;
   if (tf_prev->grad.get() == nullptr) {
-    tf_prev->grad = TensorImpl::create(tf_prev->dtype, tf_prev->view);
-    if (zero_init)
-      tf_prev->grad->data_->zero_();
+    tf_prev->init_grad();
   } else if (!tf_prev->grad->data_->is_alloc()) {
     tf_prev->grad->data_->alloc();
     if (zero_init)
@@ -106,7 +104,14 @@ void MeanBack::step_back() {
                       &get_out_grad());
 }
 
-void NoBack::step_back() { try_accumulate_grad(input_tfs[0].get(), nullptr); }
+void NoBack::step_back() {
+  auto input = input_tfs[0].get();
+  if (!input->requires_grad)
+    return;
+  try_accumulate_update(input);
+  *TensorImpl::create(input->dtype, this_tf->view, input->grad->data_) +=
+      get_out_grad();
+}
 
 void CloneBack::step_back() {
   try_accumulate_grad(input_tfs[0].get(), &get_out_grad());
diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index f75d34b..d91e0df 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -342,7 +342,8 @@ void TensorImpl::backward() {
   refresh_n_outway(this);
   std::queue<TensorImpl *> q; // TODO 3 multiprocessing
   q.push(this);
-  grad = ones_like(*this);
+  init_grad();
+  *grad += *create(std::int8_t(1));
   grad_fn->back_version = ++Backward::global_back_version;
   while (!q.empty()) {
     auto t = q.front();
@@ -434,24 +435,17 @@ std::shared_ptr<TensorImpl> TensorImpl::min() {
   return ret;
 }
 
+void TensorImpl::init_grad() {
+  grad = create(dtype, view, std::make_shared<UntypedStorage>(data_->get_size()));
+  grad->data_->zero_();
+}
+
 void TensorImpl::zero_grad() const noexcept {
   if (grad.get() == nullptr)
     return;
   grad->data_->zero_();
 }
 
-void share_grad_storage(TensorImpl &to, TensorImpl &from,
-                        const std::shared_ptr<Layout> &view) {
-  if (from.grad == nullptr) {
-    from.grad = TensorImpl::create(from.dtype, from.view, false);
-  }
-  to.grad = TensorImpl::create(to.dtype, view, from.grad->data_);
-}
-
-void share_grad_storage(TensorImpl &to, TensorImpl &from) {
-  share_grad_storage(to, from, to.view);
-}
-
 std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
   if (dlayout == layouts::strided) {
     std::vector<std::string> each_dim = ssplit(slice, ',');
@@ -557,7 +551,6 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
       return ret;
     ret->requires_grad = true;
     ret->grad_fn.reset(new NoBack(ret.get(), {shared_from_this()}));
-    share_grad_storage(*ret, *this);
     return ret;
   } else {
     throw std::runtime_error("Not implemented");
@@ -589,7 +582,6 @@ TensorImpl::transpose(const std::shared_ptr<TensorImpl> &input, size_t dim0,
     return ret;
   ret->requires_grad = true;
   ret->grad_fn.reset(new NoBack(ret.get(), {input}));
-  share_grad_storage(*ret, *input);
   return ret;
 }
 
@@ -655,7 +647,6 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
       return tf;
     tf->requires_grad = true;
     tf->grad_fn.reset(new NoBack(tf.get(), {input}));
-    share_grad_storage(*tf, *input);
     return tf;
   }
 
@@ -699,7 +690,6 @@ TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
     return tf;
   tf->requires_grad = true;
   tf->grad_fn.reset(new NoBack(tf.get(), {last_node}));
-  share_grad_storage(*tf, *last_node);
   return tf;
 }
 
-- 
2.43.0


From f8027c742224a124dcd03467aaba653014849526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:37 +0000
Subject: [PATCH 18/21] fix: dropping a long graph exhausted the stack

Destroying a tensor destroyed the inputs of its grad_fn recursively, so a
chain of some 50000 operations crashed when its last handle went away.
Take the graph apart in a loop instead.
---
 src/INNC/tensorImpl.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index d91e0df..958e0be 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -67,7 +67,25 @@ std::string TensorImpl::to_string() const {
   return view->to_string_from(*data_, dtype);
 }
 
-TensorImpl::~TensorImpl() = default;
+TensorImpl::~TensorImpl() {
+  // Take the graph apart in a loop. Letting every node destroy its inputs
+  // recursively would exhaust the stack when the graph is long.
+  std::vector<std::shared_ptr<TensorImpl>> pending;
+  auto take_inputs = [&pending](TensorImpl &t) {
+    if (t.grad_fn.get() == nullptr)
+      return;
+    for (auto &it : t.grad_fn->input_tfs)
+      pending.push_back(std::move(it));
+    t.grad_fn->input_tfs.clear();
+  };
+  take_inputs(*this);
+  while (!pending.empty()) {
+    auto t = std::move(pending.back());
+    pending.pop_back();
+    if (t.use_count() == 1)
+      take_inputs(*t);
+  }
+}
 
 TensorImpl::TensorImpl(types dtype, layouts dlayout,
                        const std::shared_ptr<Layout> &view,
-- 
2.43.0


From 48423f5892b0c3c7fba13147c6580c6068c36942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:09 +0000
Subject: [PATCH 19/21] fix: slices accepted malformed entries and zero steps
 on empty dimensions

---
 src/INNC/tensorImpl.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 958e0be..816e2dc 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -480,8 +480,16 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
       std::vector<std::string> split_slice;
       if (dim < each_dim.size()) {
         split_slice = ssplit(each_dim[dim], ':');
-        for (auto &s : split_slice)
+        run_expect(split_slice.size() <= 3, "slice \"", each_dim[dim],
+                   "\" has more than three parts");
+        for (auto &s : split_slice) {
           trim_(s);
+          size_t parsed = 0;
+          if (!s.empty())
+            std::stoll(s, &parsed);
+          if (parsed != s.size())
+            throw std::invalid_argument("\"" + s + "\" is not an integer");
+        }
       } else
         split_slice = {"", "", ""};
       if (split_slice.size() == 1) { // like a[-2]
@@ -493,11 +501,6 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
                    " with size ", sizes[dim]);
         _offset += strides[dim] * idx;
       } else { // like a[-2:]
-        if (sizes[dim] == 0) {
-          _sizes.push_back(0);
-          _strides.push_back(0);
-          continue;
-        }
         for (int i = split_slice.size(); i < 3; ++i)
           split_slice.push_back("");
         long long step, beg, end;
@@ -506,6 +509,11 @@ std::shared_ptr<TensorImpl> TensorImpl::operator[](const std::string &slice) {
           run_expect(step != 0, "slice step cannot be zero");
         } else
           step = 1;
+        if (sizes[dim] == 0) {
+          _sizes.push_back(0);
+          _strides.push_back(0);
+          continue;
+        }
         if (split_slice[0].size() != 0) {
           beg = stoll(split_slice[0]);
           if (beg < 0)
-- 
2.43.0


From e7f1c5718b06e9b48eb1d25bad2877abe6713afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:42 +0000
Subject: [PATCH 20/21] fix: refuse reshapes whose extents multiply to more
 than a size_t holds

---
 src/INNC/tensorImpl.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 816e2dc..4b129d3 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -87,6 +87,20 @@ TensorImpl::~TensorImpl() {
   }
 }
 
+// The number of elements of a tensor of the given sizes, which must not wrap
+// around.
+static size_t checked_numel(const SizeVec &sizes) {
+  size_t numel = 1;
+  for (auto i : sizes)
+    if (i == 0)
+      return 0;
+  for (auto i : sizes) {
+    run_expect(numel <= SIZE_MAX / i, "Too many elements: (", sizes, ")");
+    numel *= i;
+  }
+  return numel;
+}
+
 TensorImpl::TensorImpl(types dtype, layouts dlayout,
                        const std::shared_ptr<Layout> &view,
                        const std::shared_ptr<UntypedStorage> &data_, Private)
@@ -648,9 +662,7 @@ SizeVec regularize_size(const SignedVec &sizes, size_t numel = 0) {
 std::shared_ptr<TensorImpl>
 TensorImpl::reshape(const std::shared_ptr<TensorImpl> &input,
                     const SizeVec &sizes) {
-  size_t numel = 1;
-  for (auto i : sizes)
-    numel *= i;
+  size_t numel = checked_numel(sizes);
   if (input->dlayout != layouts::strided)
     throw std::logic_error(
         sformat("This layout %s has not been implemented", layouts::sparse));
-- 
2.43.0


From 4fdd4a52e76785a594df0aa4a0706e885aa53301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:31 +0000
Subject: [PATCH 21/21] fix: refuse tensors whose size in bytes is more than a
 size_t holds

---
 src/INNC/tensorImpl.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/INNC/tensorImpl.cpp b/src/INNC/tensorImpl.cpp
index 4b129d3..5af7c46 100644
--- a/src/INNC/tensorImpl.cpp
+++ b/src/INNC/tensorImpl.cpp
@@ -120,10 +120,13 @@ TensorImpl::create(types dtype, const std::shared_ptr<Layout> &view,
 std::shared_ptr<TensorImpl>
 TensorImpl::create(types dtype, const std::shared_ptr<Layout> &view,
                    bool prealloc, layouts dlayout) {
-  auto ptr = create(dtype, view,
-                    std::make_unique<UntypedStorage>(
-                        size_of(dtype) * view->numel(), prealloc),
-                    dlayout);
+  auto n = checked_numel(view->sizes);
+  run_expect(n <= SIZE_MAX / size_of(dtype), "Too many elements: (",
+             view->sizes, ")");
+  auto ptr =
+      create(dtype, view,
+             std::make_unique<UntypedStorage>(size_of(dtype) * n, prealloc),
+             dlayout);
   if (prealloc)
     ptr->data_->alloc();
   return ptr;
-- 
2.43.0

