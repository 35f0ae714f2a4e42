From c60379ae94b9dd60cf1dbac14d687db062d4f435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:23 +0000
Subject: [PATCH 01/19] fix: ReLU1/ReLU6 limits that exceed the container range
 are no limits whatever the zero point

When six (one) does not fit 32 bits its stand-in was max_val, to which the
zero point was then added: outputs were clipped at max_val + zero (or
-max_val + zero from below) although the real limit is out of range.
---
 lib/src/private/mli_prv_tensor.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/private/mli_prv_tensor.h b/lib/src/private/mli_prv_tensor.h
index eac988c..fc53dad 100644
--- a/lib/src/private/mli_prv_tensor.h
+++ b/lib/src/private/mli_prv_tensor.h
@@ -968,6 +968,7 @@ mli_prv_get_relu_limits (const mli_relu_cfg * cfg, const mli_tensor * out) {
     // One and six are not casted to 16bit directly, only after comparison with min_val and max_val and all of them are int.
     // Min val and max val always fit to container range, while six and one don't have to.
     // when six doesn't fit in the container range, it will be clipped to the container range.
+    // max_val - min_val stands for values that are out of the container range with any zero point applied.
 
     switch (cfg->type) {
     case MLI_RELU_GEN:
@@ -976,7 +977,7 @@ mli_prv_get_relu_limits (const mli_relu_cfg * cfg, const mli_tensor * out) {
         break;
     case MLI_RELU_6:
         if (shift >= 0) {
-            six = (shift < 28) ? ((int32_t)6 << shift) / scale : max_val;
+            six = (shift < 28) ? ((int32_t)6 << shift) / scale : max_val - min_val;
         }
         else {
             six = (shift > -3) ?((int32_t)6 >> (-shift)) / scale : 0;
@@ -988,7 +989,7 @@ mli_prv_get_relu_limits (const mli_relu_cfg * cfg, const mli_tensor * out) {
         break;
     case MLI_RELU_1:
         if (shift >= 0) {
-            one = (shift < 30) ? ((int32_t)1 << shift) / scale : max_val;
+            one = (shift < 30) ? ((int32_t)1 << shift) / scale : max_val - min_val;
         }
         else {
             one = 0;
-- 
2.43.0


From 8a91c371b09954b6ec7e35113d824447cf350c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:02 +0000
Subject: [PATCH 02/19] fix: a 16-bit value cast into the 40-bit accumulator is
 not cut to 32 bits

---
 lib/src/pal/ref/mli_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pal/ref/mli_math.h b/lib/src/pal/ref/mli_math.h
index 5796b55..01de2ed 100644
--- a/lib/src/pal/ref/mli_math.h
+++ b/lib/src/pal/ref/mli_math.h
@@ -361,7 +361,7 @@ MLI_FORCE_INLINE int32_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
 
 template <>
 MLI_FORCE_INLINE mli_acc40_t mli_math_cast_fx(int16_t in_val, int shift_right) {
-    return (int32_t)mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
+    return mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
 }
 
 template <>
-- 
2.43.0


From 291e9ca7c0e4f4bae3bc3fb811c199dd0476ca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:42 +0000
Subject: [PATCH 03/19] fix: pooling does not write outside the output when the
 padding covers more positions than it has

---
 lib/src/kernels/pooling/mli_krn_pool_hwc.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/kernels/pooling/mli_krn_pool_hwc.h b/lib/src/kernels/pooling/mli_krn_pool_hwc.h
index 81b0ad1..b15adf1 100644
--- a/lib/src/kernels/pooling/mli_krn_pool_hwc.h
+++ b/lib/src/kernels/pooling/mli_krn_pool_hwc.h
@@ -417,6 +417,9 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
                     continue;
                 }
             }
+            // the padding may cover more positions than the output has
+            area.row_end = MIN((int)area.row_end, (int)out_.height);
+            area.clmn_end = MIN((int)area.clmn_end, (int)out_.width);
             mli_krn_pool_hwc_compute_pad<type, i_T, o_T, fixed_kernel_size, convert>(stride_w, stride_h,
                                             p_top, p_bot, p_left, p_right,
                                             area,
-- 
2.43.0


From 572cb5f0fc27d19eb6cf064eb69f8c96b1743e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:24 +0000
Subject: [PATCH 04/19] fix: MatMul reports the right tile offsets for the
 right input

---
 lib/src/kernels/convolution/mli_krn_matmul_runtime.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc b/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
index b4acf02..81b610d 100644
--- a/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
@@ -92,7 +92,7 @@ void MatMul::GetIOSizesAndOffsets(uint32_t input_left_size[kMatMulRank], uint32_
                                   int32_t output_offsets[kMatMulRank]) const{
   
   m_input_left.get_pos(input_left_offsets);
-  m_input_left.get_pos(input_right_offsets);
+  m_input_right.get_pos(input_right_offsets);
   m_output.get_pos(output_offsets);
   
   m_tile_input_left.get_dims(input_left_size);
-- 
2.43.0


From 5bfbc060cab7bdf8300f4af95d1293ac794a4f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:24 +0000
Subject: [PATCH 05/19] fix: MatMul subtracts the zero points in the
 accumulator type

---
 lib/src/kernels/convolution/mli_krn_matmul_ref.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
index 126205f..766be72 100644
--- a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
+++ b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
@@ -45,8 +45,8 @@ void MatMul_prepare_and_run(Tensor<InternalBuffer, kMatMulRank> &in_left,
   MLI_ASSERT(encoded_params.get_elem_size() == sizeof(int8_t));
   MLI_ASSERT(encoded_params.get_size() == kMatMulRank);
 
-  in1_t val1;
-  in2_t val2;
+  out_t val1;
+  out_t val2;
   out_t acc;
 
   /**
-- 
2.43.0


From 80fe94f93ff1d9a8df45343001213cc44abc9864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:24 +0000
Subject: [PATCH 06/19] fix: MatMul writes its output with the memory stride of
 the output

---
 lib/src/kernels/convolution/mli_krn_matmul_ref.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
index 766be72..cbcf986 100644
--- a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
+++ b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
@@ -62,6 +62,7 @@ void MatMul_prepare_and_run(Tensor<InternalBuffer, kMatMulRank> &in_left,
   int32_t right_mem_strides[kMatMulRank];
   in_left.get_mem_strides(left_mem_strides);
   in_right.get_mem_strides(right_mem_strides);
+  const int32_t out_mem_stride = output.get_mem_stride(kMatMulHeightDim);
   for(uint32_t left_height_index = 0; left_height_index < left_h; ++left_height_index) {
     for (uint32_t right_width_index = 0; right_width_index < right_w; ++right_width_index) {
       acc = 0;
@@ -70,7 +71,7 @@ void MatMul_prepare_and_run(Tensor<InternalBuffer, kMatMulRank> &in_left,
           val2 = in_right.template read<in2_t>(right_height_index * right_mem_strides[0] + right_width_index) - in_right_zp;
           acc += val1 * val2;
       }
-        output.template write<out_t>( left_height_index * right_w + right_width_index, static_cast<out_t>(acc) );
+        output.template write<out_t>( left_height_index * out_mem_stride + right_width_index, static_cast<out_t>(acc) );
     }
   }
 }
-- 
2.43.0


From 456335b466e496773ed8c56fdefbd82ffbac2f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:48 +0000
Subject: [PATCH 07/19] fix: data movement with a destination offset is not
 done as one plain copy

---
 lib/src/move/mli_mov_api.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 40f95c1..1218f73 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -240,6 +240,7 @@ mli_status mli_mov_prepare(mli_mov_handle_t* h, const mli_tensor* src, const mli
         is_possible_in_single1d_transfer &= no_padding;
         is_possible_in_single1d_transfer &= (cfg->perm_dim[i] == i);
         is_possible_in_single1d_transfer &= (cfg->sub_sample_step[i] == 1);
+        is_possible_in_single1d_transfer &= (cfg->dst_offset[i] == 0);
         stride *= src->shape[i];
     }
 
-- 
2.43.0


From 9b00efdd3f42c6ce1d9f412e5cea205534f6d10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:58 +0000
Subject: [PATCH 08/19] fix: Rescale subtracts the input bias without
 saturating to 8 bits

---
 lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp b/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp
index 39fa599..c5501d3 100644
--- a/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp
+++ b/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp
@@ -29,8 +29,8 @@ static MLI_FORCE_INLINE o_T rescale_value(
     constexpr int max_shift_left = -63;
     int32_t shift = MAX(max_shift_left, MIN(shift_right, max_shift_right));
 
-    i_T value = mli_math_sub_fx(in_val, in_bias);
-    int64_t scaled_value = mli_math_mul_fx<int32_t, int64_t> (static_cast<int32_t>(value),
+    int32_t value = mli_math_sub_fx(static_cast<int32_t>(in_val), static_cast<int32_t>(in_bias));
+    int64_t scaled_value = mli_math_mul_fx<int32_t, int64_t> (value,
                                                               static_cast<int32_t>(scale));
     scaled_value = mli_math_ashift_right_fx(scaled_value, shift);
     scaled_value = mli_math_add_fx(scaled_value, static_cast<int64_t>(out_bias));
-- 
2.43.0


From ad42136e194fce813b58e87687604fe1b28cc66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:15 +0000
Subject: [PATCH 09/19] fix: Rescale runs 8-to-32-bit and 32-to-32-bit
 rescaling with the kernel of these types

---
 lib/src/kernels/conversion/mli_krn_rescale_runtime.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
index 855e7cb..bbe4c49 100644
--- a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
+++ b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
@@ -177,11 +177,6 @@ mli_status Rescale::Issue() {
             else if (out_elem_size == sizeof(int16_t)) {
                 MLI_ASSERT(0);
             }
-            break;
-        case (sizeof(int16_t)):
-            if (out_elem_size == sizeof(int8_t)) {
-                MLI_ASSERT(0);
-            }
             else if (out_elem_size == sizeof(int32_t)) {
               mli_krn::mli_krn_rescale<int32_t, int32_t>(&m_tile_metadata.input,
                                                          &m_tile_metadata.in_bias,
@@ -192,6 +187,9 @@ mli_status Rescale::Issue() {
                                                          &m_tile_metadata.output);
             }
             break;
+        case (sizeof(int16_t)):
+            MLI_ASSERT(0);
+            break;
         case (sizeof(int8_t)):
             if (out_elem_size == sizeof(int8_t)) {
               mli_krn::mli_krn_rescale<int8_t, int8_t>(&m_tile_metadata.input,
@@ -206,7 +204,7 @@ mli_status Rescale::Issue() {
                 MLI_ASSERT(0);
             }
             else if (out_elem_size == sizeof(int32_t)) {
-              mli_krn::mli_krn_rescale<int32_t, int32_t>(&m_tile_metadata.input,
+              mli_krn::mli_krn_rescale<int8_t, int32_t>(&m_tile_metadata.input,
                                                          &m_tile_metadata.in_bias,
                                                          &m_tile_metadata.scale,
                                                          &m_tile_metadata.shift,
-- 
2.43.0


From 929d5e2328683ffb743d54327620116cfc62b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:06 +0000
Subject: [PATCH 10/19] fix: element-wise 3.0 kernels do not take uninitialised
 memory for the fractional bits

---
 include/mli_service_functions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mli_service_functions.hpp b/include/mli_service_functions.hpp
index d5bf6f9..9243e27 100644
--- a/include/mli_service_functions.hpp
+++ b/include/mli_service_functions.hpp
@@ -199,6 +199,8 @@ void ReconstructTensor(InternalBuffer& internal_buffer, mli_tensor& tensor,
     tensor.shape[i] = shape[i];
     tensor.mem_stride[i] = stride[i];
   }
+  // elements are plain integers: kernels must not see leftovers of the memory the object is placed in
+  tensor.el_params.fx.frac_bits = 0;
 }
 
 template<int rank>
-- 
2.43.0


From b561b8f42354bfe2f93573dbf5e6d96af96d3726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:22 +0000
Subject: [PATCH 11/19] fix: the buffer iterator does not read tensor
 dimensions that the tensor does not have

---
 include/mli_iterator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 96f8092..5523e34 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -517,6 +517,12 @@ class BufferIterator {
       for (uint32_t i = 0; i < iterRank; i++) {
         int32_t axis = cfg.get_order(i);
         if (axis == kSkipIterDim) continue;
+        // The iterator may have more dimensions than the tensor, they don't move the buffer offset
+        if (i >= tensorRank || axis >= static_cast<int32_t>(tensorRank)) {
+          m_first_offset_inc[axis] = m_offset_inc[axis] = m_last_offset_inc[axis] = 0;
+          m_buffer_dec[axis] = 0;
+          continue;
+        }
 
         uint32_t buffer_dim = MAX(cfg.get_size(axis), cfg.get_first_size(axis));
         // If tiles number equals to 0, that means attached buffer calculated for
-- 
2.43.0


From 4026d8653c4f6c17fa08619d4d7491aab71f21ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:35 +0000
Subject: [PATCH 12/19] fix: Permute 3.0 does not take uninitialised memory for
 the quantised dimension

---
 lib/src/kernels/diverse/mli_krn_permute_runtime.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
index c103cc5..e92b5c9 100644
--- a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
+++ b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
@@ -57,6 +57,8 @@ Permute::Permute(void* kernel_private_data_buffer, size_t size, uint64_t membase
 	else {
         MLI_ASSERT(0);
     }
+    // elements carry no quantization parameters, so there is nothing to be reordered along with them
+    m_metadata.m_tile_input.el_params.sa.dim = -1;
     for(uint32_t i = 0; i < m_metadata.m_tile_input.rank ; i++) {
         m_metadata.m_tile_input.shape[i] = input_tile_tensor.get_dim(i);
         m_metadata.m_tile_input.mem_stride[i] = private_buffer.input.get_mem_stride(i);
-- 
2.43.0


From 012e424366a31b8a0f57cbfcfb055962ff90083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:35 +0000
Subject: [PATCH 13/19] fix: Permute 3.0 processes 16-bit elements

---
 lib/src/kernels/diverse/mli_krn_permute_runtime.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
index e92b5c9..ba81b08 100644
--- a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
+++ b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
@@ -116,6 +116,13 @@ mli_status Permute::Issue() {
             }
             break;
 
+        case (sizeof(int16_t)):
+            for(uint32_t i = 0; i < kPermuteRank; i++) {
+                cfg.perm_dim[i] = m_perm_dim[i];
+            }
+            mli_ref::mli_krn_permute_run<int16_t, false>(&m_metadata.m_tile_input, &cfg, &m_metadata.m_tile_output);
+            break;
+
         case (sizeof(int8_t)):
             for(uint32_t i = 0; i < kPermuteRank; i++) {
                 cfg.perm_dim[i] = m_perm_dim[i];
-- 
2.43.0


From 769c4daba100052ac7c74bb72bc33cedddde38d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:35 +0000
Subject: [PATCH 14/19] fix: mli_hlp_point_to_subtensor advances the pointer of
 floating point tensors

---
 lib/src/helpers/src/mli_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index d9a9e69..1bf2195 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -148,7 +148,7 @@ mli_status mli_hlp_point_to_subtensor(const mli_tensor *in, const mli_point_to_s
         out->data.mem.pi16 = in->data.mem.pi16 + size;
         break;
     case MLI_EL_FP_32:
-        out->data.mem.f32 = in->data.mem.f32 + size;
+        out->data.mem.pf32 = in->data.mem.pf32 + size;
         break;
     case MLI_EL_SA_32:
         out->data.mem.pi32 = in->data.mem.pi32 + size;
-- 
2.43.0


From b8f4de78d5315708a8dcd191fac88beea8389e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:35 +0000
Subject: [PATCH 15/19] fix: mli_hlp_convert_tensor reports unsupported type
 combinations

---
 lib/src/helpers/src/mli_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index 1bf2195..54d8d5c 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -284,7 +284,7 @@ mli_status mli_hlp_convert_tensor(const mli_tensor * src, mli_tensor * dst) {
             ret = MLI_STATUS_TYPE_MISMATCH;
         }
     }
-    return MLI_STATUS_OK;
+    return ret;
 }
 
 const char* mli_hlp_compile_options_string() {
-- 
2.43.0


From 1f0b5fa1e0c2d1df929c330e631bda60a4d88f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:35 +0000
Subject: [PATCH 16/19] fix: create_subtensor makes the result per-tensor when
 the quantised dimension is removed

---
 lib/src/helpers/src/mli_helpers.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index 54d8d5c..fa40590 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -218,7 +218,7 @@ mli_status mli_hlp_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     int out_idx = 0;
     int skip_cnt = input_rank - out_rank;
     int out_asym_dim = -1;
-    int out_asym_offset = 0;
+    const int out_asym_offset = (isAsym && in->el_params.sa.dim >= 0) ? cfg->offset[in->el_params.sa.dim] : 0;
     for (int in_idx = 0; in_idx < input_rank; in_idx++) {
         if ((skip_cnt > 0) && (cfg->size[in_idx] == 1)) {
             skip_cnt--;
@@ -228,7 +228,6 @@ mli_status mli_hlp_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
         out->mem_stride[out_idx] = mem_strides[in_idx];
         if (isAsym && (in->el_params.sa.dim == in_idx)) {
             out_asym_dim = out_idx;
-            out_asym_offset = cfg->offset[in_idx];
         }
         out_idx++;
     }
@@ -237,7 +236,16 @@ mli_status mli_hlp_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     out->el_params = in->el_params;
 
     if (isAsym){
-        if (out->el_params.sa.dim >= 0) {
+        if (out->el_params.sa.dim >= 0 && out_asym_dim < 0) {
+            // The quantized dimension is removed: the parameters of its only index hold for the whole sub-tensor.
+            out->el_params.sa.dim = -1;
+            out->el_params.sa.scale.mem.i16 = in->el_params.sa.scale.mem.pi16[out_asym_offset];
+            out->el_params.sa.scale.capacity = 0;
+            out->el_params.sa.scale_frac_bits.mem.i8 = in->el_params.sa.scale_frac_bits.mem.pi8[out_asym_offset];
+            out->el_params.sa.scale_frac_bits.capacity = 0;
+            out->el_params.sa.zero_point.mem.i16 = in->el_params.sa.zero_point.mem.pi16[out_asym_offset];
+            out->el_params.sa.zero_point.capacity = 0;
+        } else if (out->el_params.sa.dim >= 0) {
             out->el_params.sa.scale.mem.pi16 += out_asym_offset;
             out->el_params.sa.scale_frac_bits.mem.pi8 += out_asym_offset;
             out->el_params.sa.dim = out_asym_dim;
-- 
2.43.0


From 8244f72becf82460adbffebcdf7c8baa88dae5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:35 +0000
Subject: [PATCH 17/19] fix: ReduceSum and ReduceMax assert a rank of at most
 four, not at least four

---
 lib/src/kernels/conversion/impl/mli_reduce_max_ref.hpp | 4 ++--
 lib/src/kernels/conversion/impl/mli_reduce_sum_ref.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/kernels/conversion/impl/mli_reduce_max_ref.hpp b/lib/src/kernels/conversion/impl/mli_reduce_max_ref.hpp
index 5755b75..ec1f0ac 100644
--- a/lib/src/kernels/conversion/impl/mli_reduce_max_ref.hpp
+++ b/lib/src/kernels/conversion/impl/mli_reduce_max_ref.hpp
@@ -32,8 +32,8 @@ mli_status MLI_FORCE_INLINE mli_reduce_max(const mli_tensor *in,
 
     constexpr int kMaxSupportedRank = 4;
 
-    MLI_ASSERT(kMaxSupportedRank <= in_prv.rank);
-    MLI_ASSERT(kMaxSupportedRank <= out_prv.rank);
+    MLI_ASSERT(kMaxSupportedRank >= in_prv.rank);
+    MLI_ASSERT(kMaxSupportedRank >= out_prv.rank);
 
     // for tensors with rank less than kMaxSupportedRank, the tensor is automatically extended to the  kMaxSupportedRank but with dim = 0
     // any dim = 0 should be dim = 1 to be able to go inside it 
diff --git a/lib/src/kernels/conversion/impl/mli_reduce_sum_ref.hpp b/lib/src/kernels/conversion/impl/mli_reduce_sum_ref.hpp
index eab7db3..e7e502c 100644
--- a/lib/src/kernels/conversion/impl/mli_reduce_sum_ref.hpp
+++ b/lib/src/kernels/conversion/impl/mli_reduce_sum_ref.hpp
@@ -32,8 +32,8 @@ mli_status MLI_FORCE_INLINE mli_reduce_sum(const mli_tensor *in,
     auto in_prv = mli_prv_get_generic_tensor<MLI_PTR(io_T)>(in);
     auto out_prv = mli_prv_get_generic_tensor<MLI_OUT_PTR(io_T)>(out);
 
-    MLI_ASSERT(static_cast<int>(kReduceSumRank) <= in_prv.rank);
-    MLI_ASSERT(static_cast<int>(kReduceSumRank) <= out_prv.rank);
+    MLI_ASSERT(static_cast<int>(kReduceSumRank) >= in_prv.rank);
+    MLI_ASSERT(static_cast<int>(kReduceSumRank) >= out_prv.rank);
 
     // for tensors with rank less than kReduceSumRank, the tensor is automatically extended to the  kReduceSumRank but with dim = 0
     // any dim = 0 should be dim = 1 to be able to go inside it 
-- 
2.43.0


From eacbc64c1dd3095367062b04081da0c150468202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:22 +0000
Subject: [PATCH 18/19] fix: Rescale names the element types of its 8-bit input
 and 32-bit output biases

---
 lib/src/kernels/conversion/mli_krn_rescale_runtime.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
index bbe4c49..bcb60f9 100644
--- a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
+++ b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
@@ -99,7 +99,7 @@ Rescale::Rescale(void* kernel_private_data_buffer, size_t size,
         m_tile_metadata.in_bias.data.mem.pi8 = encoded_params_internal.get_ptr<int8_t>();
       }
       encoded_params_internal.inc(m_tile_param_max_size);
-      m_tile_metadata.in_bias.el_type = MLI_EL_SA_32;
+      m_tile_metadata.in_bias.el_type = MLI_EL_SA_8;
     }
     else {
         MLI_ASSERT(0);
@@ -151,7 +151,7 @@ Rescale::Rescale(void* kernel_private_data_buffer, size_t size,
         m_tile_metadata.out_bias.rank = 1;
         m_tile_metadata.out_bias.data.mem.pi32 = encoded_params_internal.get_ptr<int32_t>();
       }
-      m_tile_metadata.out_bias.el_type = MLI_EL_SA_8;
+      m_tile_metadata.out_bias.el_type = MLI_EL_SA_32;
     }
     else {
         MLI_ASSERT(0);
-- 
2.43.0


From d8dc26524d4daf15f2951a8836ab39f24e639c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:45 +0000
Subject: [PATCH 19/19] fix: DepthwiseConv2d::Issue processed only the first
 image of a batch

The loop over the batch advanced copies of the tile buffers that nothing
reads, so every iteration convolved image 0 into output image 0.
---
 lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
index 0ad28b2..f9472fe 100644
--- a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
@@ -99,6 +99,8 @@ mli_status DepthwiseConv2d::Issue() {
         
       curr_inp_buf.inc(m_metadata.input.get_mem_stride(kGroupTensorBatchDim));
       curr_out_buf.inc(m_metadata.output.get_mem_stride(kGroupTensorBatchDim));
+      qinput.t.set_buf(curr_inp_buf);
+      m_tile_output.set_buf(curr_out_buf);
     }
     m_tile_input.set_buf(inp_buf);
     m_tile_output.set_buf(out_buf);
-- 
2.43.0

