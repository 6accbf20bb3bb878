From d281e4fcdae8618efe82142417b12bf8157d1b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 01/27] fix: rebuild the indirect BGEMM kernel after every
 preparation

The kernel was built once, at the first invocation, and kept forever. After
the input had been resized, or tensors had been moved (re-allocation, release
of memory, custom allocations), it still held the old shapes, pointers into
the old input memory and pointers to the old output transform. An allocation
failure while it was being set up left a half-built kernel behind.
---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 4eded66..dcf1f80 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -60,6 +60,10 @@ struct OpData {
   // This is used for the 'indirect bgemm' kernel type.
   std::unique_ptr<core::indirect_bgemm::Kernel> indirect_bgemm_kernel;
 
+  // The input data that the indirection buffer of `indirect_bgemm_kernel` points
+  // into, or null if the indirection buffer has to be filled (again).
+  const TBitpacked* indirection_input = nullptr;
+
   // IDs are the arbitrary identifiers used by TF Lite to identify and access
   // memory buffers. They are unique in the entire TF Lite context.
   int im2col_id = kTensorNotAllocated;
@@ -296,6 +300,10 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   // we shoud always re-do the one-time setup.
   op_data->one_time_setup_complete = false;
 
+  // The same holds for the indirect BGEMM kernel: it depends on the shapes, and
+  // on the values computed in the one-time setup.
+  op_data->indirect_bgemm_kernel.reset();
+
   return kTfLiteOk;
 }
 
@@ -478,15 +486,22 @@ void EvalOptIndirectBGEMM(TfLiteContext* context, TfLiteNode* node,
   if (!op_data->indirect_bgemm_kernel) {
     OutputTransform<DstScalar> output_transform;
     GetOutputTransform(output_transform, context, node, op_data);
-    op_data->indirect_bgemm_kernel =
-        std::move(core::indirect_bgemm::SelectRuntimeKernel(
-            &op_data->params, bitpacked_input_shape, output_shape,
-            output_transform));
-    op_data->indirect_bgemm_kernel->PackWeights(
-        GetTensorData<TBitpacked>(filter));
-    op_data->indirect_bgemm_kernel->FillIndirectionBuffer(
+    auto kernel = core::indirect_bgemm::SelectRuntimeKernel(
         &op_data->params, bitpacked_input_shape, output_shape,
-        GetTensorData<TBitpacked>(input));
+        output_transform);
+    kernel->PackWeights(GetTensorData<TBitpacked>(filter));
+    // Only keep the kernel once its weights have been packed successfully.
+    op_data->indirect_bgemm_kernel = std::move(kernel);
+    op_data->indirection_input = nullptr;
+  }
+
+  // The memory of the input tensor may have moved since the last invocation.
+  const auto* input_data = GetTensorData<TBitpacked>(input);
+  if (op_data->indirection_input != input_data) {
+    op_data->indirection_input = nullptr;
+    op_data->indirect_bgemm_kernel->FillIndirectionBuffer(
+        &op_data->params, bitpacked_input_shape, output_shape, input_data);
+    op_data->indirection_input = input_data;
   }
 
   BConv2DOptimizedIndirectBGEMM<DstScalar>(
-- 
2.43.0


From c7101361dddaab20dc8de09296977c2cd57a69eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 02/27] fix: report a failure to add the im2col tensor

The status of AddTensors was ignored, and the identifier of a tensor that was
never added was used as an index into the tensors of the context.
---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index dcf1f80..929da22 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -279,7 +279,8 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   if (need_im2col) {
     // Allocate the im2col tensor if necessary
     if (op_data->im2col_id == kTensorNotAllocated) {
-      context->AddTensors(context, 1, &op_data->im2col_id);
+      TF_LITE_ENSURE_STATUS(
+          context->AddTensors(context, 1, &op_data->im2col_id));
     }
     node->temporaries->data[op_data->im2col_index] = op_data->im2col_id;
 
-- 
2.43.0


From 73fd23909fe558ac4de2fde24f74e6c675140720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 03/27] fix: do not read missing multipliers for the
 zero-padding correction

Convolutions with bitpacked output have no post-activation multiplier, so the
reference kernel with zero-padding and bitpacked output read a null pointer
while it computed a correction that is only ever applied to float output.
---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 929da22..baa2494 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -343,8 +343,10 @@ void OneTimeSetup(TfLiteContext* context, TfLiteNode* node, OpData* op_data) {
   const std::int32_t channels_in_per_group =
       bconv2d_params->channels_in / bconv2d_params->groups;
 
-  // For 'same-zero' padding, compute the padding-correction.
-  if (bconv2d_params->padding_type == kTfLitePaddingSame &&
+  // For 'same-zero' padding, compute the padding-correction. It is only ever
+  // applied to float output.
+  if (output->type == kTfLiteFloat32 &&
+      bconv2d_params->padding_type == kTfLitePaddingSame &&
       bconv2d_params->pad_value == 0) {
     op_data->padding_buffer.resize(zero_padding_correction::GetCacheSize(
         bconv2d_params->filter_height, bconv2d_params->filter_width,
-- 
2.43.0


From cb3bdd02c249fe8518fe778c8defc733c345f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 04/27] fix: reject operator descriptions that used to crash or
 read out of bounds

Missing tensors, scalar tensors, unknown padding schemes, filters without
channels and inputs whose channels do not match `channels_in` were accepted,
and led to null dereferences, divisions by zero and reads outside tensors.
---
 larq_compute_engine/tflite/kernels/bconv2d.cc      | 14 ++++++++++++++
 larq_compute_engine/tflite/kernels/bmaxpool.cc     |  7 ++++++-
 larq_compute_engine/tflite/kernels/quantization.cc |  8 ++++++++
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index baa2494..ab626f7 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -147,6 +147,7 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   if (!op_data->successfully_initialized) return kTfLiteError;
 
   TF_LITE_ENSURE_EQ(context, node->inputs->size, 5);
+  TF_LITE_ENSURE_EQ(context, node->outputs->size, 1);
 
   const auto* input = GetInput(context, node, 0);
   const auto* filter = GetInput(context, node, 1);
@@ -155,6 +156,10 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   const auto* thresholds = GetInput(context, node, 4);
   auto* output = GetOutput(context, node, 0);
 
+  TF_LITE_ENSURE(context, input != nullptr);
+  TF_LITE_ENSURE(context, filter != nullptr);
+  TF_LITE_ENSURE(context, output != nullptr);
+
   TF_LITE_ENSURE_EQ(context, NumDimensions(input), 4);
   TF_LITE_ENSURE_EQ(context, NumDimensions(filter), 4);
   TF_LITE_ENSURE_EQ(context, input->type, kTfLiteInt32);
@@ -165,6 +170,12 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
                          output->type == kTfLiteFloat32,
                      "Supported output types are int8, int32, and float32.");
 
+  TF_LITE_ENSURE(context,
+                 bconv2d_params->padding_type != kTfLitePaddingUnknown);
+  TF_LITE_ENSURE_EQ(context, SizeOfDimension(input, 3),
+                    GetBitpackedSize(bconv2d_params->channels_in));
+  TF_LITE_ENSURE(context, SizeOfDimension(filter, 3) != 0);
+
   // Read the filter dimensions
   bconv2d_params->channels_out = SizeOfDimension(filter, 0);
   bconv2d_params->filter_height = SizeOfDimension(filter, 1);
@@ -214,11 +225,14 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
       &out_width);
 
   if (output->type == kTfLiteInt32) {
+    TF_LITE_ENSURE(context, thresholds != nullptr);
     TF_LITE_ENSURE_EQ(context, NumDimensions(thresholds), 1);
     TF_LITE_ENSURE_EQ(context, thresholds->type, kTfLiteInt32);
     TF_LITE_ENSURE_EQ(context, SizeOfDimension(thresholds, 0),
                       bconv2d_params->channels_out);
   } else {
+    TF_LITE_ENSURE(context, post_activation_multiplier != nullptr);
+    TF_LITE_ENSURE(context, post_activation_bias != nullptr);
     TF_LITE_ENSURE_EQ(context, post_activation_multiplier->type,
                       kTfLiteFloat32);
     TF_LITE_ENSURE_EQ(context, post_activation_bias->type, kTfLiteFloat32);
diff --git a/larq_compute_engine/tflite/kernels/bmaxpool.cc b/larq_compute_engine/tflite/kernels/bmaxpool.cc
index 8ff7d6f..cf0aaf0 100644
--- a/larq_compute_engine/tflite/kernels/bmaxpool.cc
+++ b/larq_compute_engine/tflite/kernels/bmaxpool.cc
@@ -28,7 +28,9 @@ void* Init(TfLiteContext* context, const char* buffer, size_t length) {
   poolparams->filter_width = m["filter_width"].AsInt32();
   poolparams->stride_height = m["stride_height"].AsInt32();
   poolparams->stride_width = m["stride_width"].AsInt32();
-  poolparams->padding_type = ConvertPadding((Padding)m["padding"].AsInt32());
+  poolparams->padding_type =
+      m["padding"].IsNull() ? kTfLitePaddingUnknown
+                            : ConvertPadding((Padding)m["padding"].AsInt32());
 
   return poolparams;
 }
@@ -45,6 +47,8 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   TF_LITE_ENSURE_EQ(context, NumOutputs(node), 1);
   TfLiteTensor* output = GetOutput(context, node, 0);
   const TfLiteTensor* input = GetInput(context, node, 0);
+  TF_LITE_ENSURE(context, output != nullptr);
+  TF_LITE_ENSURE(context, input != nullptr);
   TF_LITE_ENSURE_EQ(context, NumDimensions(input), 4);
   TF_LITE_ENSURE_EQ(context, input->type, kTfLiteInt32);
   TF_LITE_ENSURE_EQ(context, output->type, kTfLiteInt32);
@@ -52,6 +56,7 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   TF_LITE_ENSURE(context, poolparams->stride_width != 0);
   TF_LITE_ENSURE(context, poolparams->filter_height != 0);
   TF_LITE_ENSURE(context, poolparams->filter_width != 0);
+  TF_LITE_ENSURE(context, poolparams->padding_type != kTfLitePaddingUnknown);
 
   int height = SizeOfDimension(input, 1);
   int width = SizeOfDimension(input, 2);
diff --git a/larq_compute_engine/tflite/kernels/quantization.cc b/larq_compute_engine/tflite/kernels/quantization.cc
index 68b826d..36bbbec 100644
--- a/larq_compute_engine/tflite/kernels/quantization.cc
+++ b/larq_compute_engine/tflite/kernels/quantization.cc
@@ -23,12 +23,16 @@ TfLiteStatus QuantizePrepare(TfLiteContext* context, TfLiteNode* node) {
   const TfLiteTensor* input = GetInput(context, node, 0);
   TfLiteTensor* output = GetOutput(context, node, 0);
 
+  TF_LITE_ENSURE(context, input != nullptr);
+  TF_LITE_ENSURE(context, output != nullptr);
+
   TF_LITE_ENSURE(context, input->type == kTfLiteFloat32 ||
                               input->type == kTfLiteInt8 ||
                               input->type == kTfLiteBool);
   TF_LITE_ENSURE_EQ(context, output->type, kTfLiteInt32);
 
   int num_dims = NumDimensions(input);
+  TF_LITE_ENSURE(context, num_dims >= 1);
   TF_LITE_ENSURE_EQ(context, num_dims, NumDimensions(output));
 
   TfLiteIntArray* output_dims = TfLiteIntArrayCopy(input->dims);
@@ -47,6 +51,9 @@ TfLiteStatus DequantizePrepare(TfLiteContext* context, TfLiteNode* node) {
   const TfLiteTensor* input = GetInput(context, node, 0);
   TfLiteTensor* output = GetOutput(context, node, 0);
 
+  TF_LITE_ENSURE(context, input != nullptr);
+  TF_LITE_ENSURE(context, output != nullptr);
+
   TF_LITE_ENSURE_EQ(context, input->type, kTfLiteInt32);
   TF_LITE_ENSURE(context, output->type == kTfLiteFloat32 ||
                               output->type == kTfLiteInt8 ||
@@ -54,6 +61,7 @@ TfLiteStatus DequantizePrepare(TfLiteContext* context, TfLiteNode* node) {
 
   int num_dims = NumDimensions(input);
 
+  TF_LITE_ENSURE(context, num_dims >= 1);
   TF_LITE_ENSURE_EQ(context, num_dims, NumDimensions(output));
 
   // The first n-1 dimensions are equal
-- 
2.43.0


From 723512af2f4b4b220398722711a76b8e7fc2d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 05/27] fix: zero-padding correction for filters larger than
 the image

Where the (effective) filter sticks out at opposite sides of the image, no
correction was applied at all, so the result was that of one-padding.
---
 .../core/bconv2d/zero_padding_correction.h    | 43 +++++++++++++++++--
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/larq_compute_engine/core/bconv2d/zero_padding_correction.h b/larq_compute_engine/core/bconv2d/zero_padding_correction.h
index a8767ee..ddffe20 100644
--- a/larq_compute_engine/core/bconv2d/zero_padding_correction.h
+++ b/larq_compute_engine/core/bconv2d/zero_padding_correction.h
@@ -82,9 +82,9 @@ void CacheCorrectionValues(const TBitpacked* filter_data,
   // to obtain our correction value.
   //
   // So we could save this value for every tuple.
-  // However (T) and (B) cannot be both true at the same time,
-  // and neither can (L) and (R) because we will assume that the (effective)
-  // filter size is always smaller than the image.
+  // However (T) and (B) cannot be both true for the same filter value,
+  // and neither can (L) and (R). Unless the (effective) filter is larger than
+  // the image, it cannot even stick out at opposite sides at the same time.
   //
   // We have the following cases:
   //
@@ -259,7 +259,42 @@ void ApplyCorrection(const int input_batches, const int input_height,
           cache_X = (overflow_right >= 0 ? overflow_right : 0);
           cache_Y = overflow_bot;
         } else {
-          // This cannot happen.
+          // The (effective) filter is larger than the image: the kernel sticks
+          // out at opposite sides. Writing f(S) for the correction of a set of
+          // filter values, and T, B, L and R for the filter values that stick
+          // out at each side, we have (as T and B are disjoint, and so are L
+          // and R):
+          //   f(T u B u L u R) = f(T u L) + f(T u R) + f(B u L) + f(B u R)
+          //                      - f(T) - f(B) - f(L) - f(R)
+          const int top = overflow_top >= 0 ? overflow_top : 0;
+          const int bot = overflow_bot >= 0 ? overflow_bot : 0;
+          const int left = overflow_left >= 0 ? overflow_left : 0;
+          const int right = overflow_right >= 0 ? overflow_right : 0;
+          const auto cached = [&](int direction, int y, int x) {
+            return &padding_cache[((direction * effective_filter_height + y) *
+                                       effective_filter_width +
+                                   x) *
+                                  filter_count];
+          };
+          const float* top_left = cached(0, top, left);
+          const float* top_right = cached(1, top, right);
+          const float* bot_left = cached(2, bot, left);
+          const float* bot_right = cached(3, bot, right);
+          const float* only_top = cached(0, top, 0);
+          const float* only_bot = cached(2, bot, 0);
+          const float* only_left = cached(0, 0, left);
+          const float* only_right = cached(1, 0, right);
+          float* output_ptr =
+              &output_data[((batch * output_height + out_y) * output_width +
+                            out_x) *
+                           filter_count];
+          for (int out_c = 0; out_c < filter_count; ++out_c) {
+            output_ptr[out_c] +=
+                (top_left[out_c] + top_right[out_c] + bot_left[out_c] +
+                 bot_right[out_c]) -
+                (only_top[out_c] + only_bot[out_c] + only_left[out_c] +
+                 only_right[out_c]);
+          }
           continue;
         }
 
-- 
2.43.0


From 08169ba6309d3bcd86dd22b728426ae10ae452d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 06/27] fix: refuse int8 inputs and outputs the model cannot
 have

---
 larq_compute_engine/mlir/python/util.py | 43 +++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index df19b2f..ef2f432 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -173,6 +173,37 @@ def _find_int8_quantized_inputs_outputs(model):
     return input_quant_ops, output_dequant_ops
 
 
+def _validate_modified_io(
+    subgraph, remove_tensors_idxs, inference_input_type, inference_output_type
+):
+    """Validate that no float input/output is left and no removed tensor is in use."""
+    for pos, idxs, inference_type in (
+        ("input", subgraph.inputs, inference_input_type),
+        ("output", subgraph.outputs, inference_output_type),
+    ):
+        for idx in idxs:
+            tensor = subgraph.tensors[idx]
+            if inference_type == tf.int8 and (
+                tensor.type == tflite_schema.TensorType.FLOAT32
+            ):
+                raise ValueError(
+                    "Model is not integer quantized. Model {} with name '{}' cannot "
+                    "be changed to tf.int8.".format(pos, tensor.name)
+                )
+
+    used_tensors_idxs = set(subgraph.inputs) | set(subgraph.outputs)
+    for op in subgraph.operators:
+        used_tensors_idxs.update(op.inputs)
+        used_tensors_idxs.update(op.outputs)
+    for idx in remove_tensors_idxs & used_tensors_idxs:
+        raise ValueError(
+            "Model input/output types cannot be modified as the float tensor with "
+            "name '{}' is used elsewhere in the model.".format(
+                subgraph.tensors[idx].name
+            )
+        )
+
+
 def modify_integer_quantized_model_io_type(
     model,
     inference_input_type=tf.float32,
@@ -193,6 +224,13 @@ def modify_integer_quantized_model_io_type(
     if inference_input_type == tf.int8:
         # Remove the inputs and the quant operator
         for op in input_quant_ops:
+            if op.inputs[0] not in subgraph.inputs:
+                raise ValueError(
+                    "Model input type cannot be modified as the input with name '{}' "
+                    "is quantized more than once.".format(
+                        subgraph.tensors[op.inputs[0]].name
+                    )
+                )
             subgraph.inputs[subgraph.inputs == op.inputs[0]] = op.outputs[0]
             if model.signatureDefs:
                 signature_def = model.signatureDefs[0]
@@ -215,6 +253,11 @@ def modify_integer_quantized_model_io_type(
             remove_tensors_idxs.add(op.outputs[0])
             operators.remove(op)
 
+    # Ensure that the requested types could be set for all inputs and outputs
+    _validate_modified_io(
+        subgraph, remove_tensors_idxs, inference_input_type, inference_output_type
+    )
+
     # Remove tensors marked for deletion.
     _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)
 
-- 
2.43.0


From 1b301f4b442f0e97927e9409ea516a0fe8d7b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 07/27] fix: honour the requested types in graph-based
 conversion

---
 larq_compute_engine/mlir/python/converter.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/larq_compute_engine/mlir/python/converter.py b/larq_compute_engine/mlir/python/converter.py
index fc5192e..9262894 100644
--- a/larq_compute_engine/mlir/python/converter.py
+++ b/larq_compute_engine/mlir/python/converter.py
@@ -268,9 +268,7 @@ def convert_keras_model(
         experimental_default_int8_range,
     )
 
-    if should_quantize and (
-        inference_input_type != tf.float32 or inference_output_type != tf.float32
-    ):
+    if inference_input_type != tf.float32 or inference_output_type != tf.float32:
         tflite_buffer = modify_integer_quantized_model_io_type(
             tflite_buffer,
             inference_input_type=inference_input_type,
-- 
2.43.0


From c33d5e289e8167cc293c5804bf9dcd9a97341eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:58 +0000
Subject: [PATCH 08/27] fix: raise when an input cannot be converted to an
 array

array::ensure returns a null handle when the conversion fails (ragged lists,
objects whose conversion raises, no memory); using it crashed the process.
---
 larq_compute_engine/tflite/python/interpreter_wrapper_utils.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
index a8fd5dc..4ac267e 100644
--- a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
+++ b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
@@ -281,6 +281,10 @@ pybind11::list InterpreterWrapperBase<InterpreterType>::predict(
   for (size_t i = 0; i < inputs_size; ++i) {
     pybind11::array nparray =
         pybind11::array::ensure(input_list[i], pybind11::array::c_style);
+    // `ensure` returns a null handle when the conversion fails
+    if (!nparray) {
+      PY_ERROR("Failed to convert input " << i << " to a numpy array");
+    }
     const TfLiteTensor* tensor = get_tensor(interpreter_->inputs()[i]);
     if (!SetTensorFromNumpy(tensor, nparray)) {
       PY_ERROR("Failed to set tensor data of input " << i);
-- 
2.43.0


From aec557c514452f4ec55bc93fd782fd83c8038f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 09/27] fix: accept inputs whose dtype equals the expected one

---
 .../tflite/python/interpreter_wrapper_utils.h    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
index 4ac267e..d46fede 100644
--- a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
+++ b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
@@ -94,14 +94,14 @@ class InterpreterWrapperBase {
 };
 
 TfLiteType TfLiteTypeFromPyType(pybind11::dtype py_type) {
-  if (py_type.is(pybind11::dtype::of<float>())) return kTfLiteFloat32;
-  if (py_type.is(pybind11::dtype::of<std::uint8_t>())) return kTfLiteUInt8;
-  if (py_type.is(pybind11::dtype::of<std::int8_t>())) return kTfLiteInt8;
-  if (py_type.is(pybind11::dtype::of<std::int16_t>())) return kTfLiteInt16;
-  if (py_type.is(pybind11::dtype::of<std::int32_t>())) return kTfLiteInt32;
-  if (py_type.is(pybind11::dtype::of<std::int64_t>())) return kTfLiteInt64;
-  if (py_type.is(pybind11::dtype::of<bool>())) return kTfLiteBool;
-  if (py_type.is(pybind11::dtype::of<char*>())) return kTfLiteString;
+  if (py_type.equal(pybind11::dtype::of<float>())) return kTfLiteFloat32;
+  if (py_type.equal(pybind11::dtype::of<std::uint8_t>())) return kTfLiteUInt8;
+  if (py_type.equal(pybind11::dtype::of<std::int8_t>())) return kTfLiteInt8;
+  if (py_type.equal(pybind11::dtype::of<std::int16_t>())) return kTfLiteInt16;
+  if (py_type.equal(pybind11::dtype::of<std::int32_t>())) return kTfLiteInt32;
+  if (py_type.equal(pybind11::dtype::of<std::int64_t>())) return kTfLiteInt64;
+  if (py_type.equal(pybind11::dtype::of<bool>())) return kTfLiteBool;
+  if (py_type.equal(pybind11::dtype::of<char*>())) return kTfLiteString;
   return kTfLiteNoType;
 }
 
-- 
2.43.0


From e25653720ec567c48a206ac58152423bfa962af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 10/27] fix: do not keep tensor pointers across inferences in
 the Python wrapper

---
 .../tflite/python/interpreter_wrapper_utils.h          | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
index d46fede..3cefa54 100644
--- a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
+++ b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
@@ -72,17 +72,13 @@ class InterpreterWrapperBase {
   }
 
  protected:
-  // Calls to MicroInterpreter::tensor allocate memory, so we must cache them
+  // The interpreter may move its tensors while it runs (when a kernel adds
+  // tensors), so pointers to them must not be kept.
   TfLiteTensor* get_tensor(size_t index) {
-    auto iter = tensors.find(index);
-    if (iter != tensors.end()) return iter->second;
-    TfLiteTensor* tensor = interpreter_->tensor(index);
-    tensors[index] = tensor;
-    return tensor;
+    return interpreter_->tensor(index);
   }
 
   std::unique_ptr<InterpreterType> interpreter_;
-  std::map<int, TfLiteTensor*> tensors;
   template <typename TensorList>
   pybind11::list get_types(const TensorList& tensors);
   template <typename TensorList>
-- 
2.43.0


From 84601549fa1da0a70a1b66a14535b607c56de356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:05 +0000
Subject: [PATCH 11/27] fix: keep the intermediate tensors of operators when
 removing tensors

---
 larq_compute_engine/mlir/python/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index ef2f432..b047875 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -96,6 +96,8 @@ def _remove_tensors_from_model(
         for op in operators:
             update_tensors(op.inputs)
             update_tensors(op.outputs)
+            if op.intermediates is not None:
+                update_tensors(op.intermediates)
         if model.signatureDefs:
             signature_def = model.signatureDefs[0]
             _update_signature_def_tensors(signature_def.inputs, d_old_to_new_tensors)
-- 
2.43.0


From b5b19c6848536ab1b33c61e541020d8e88fbd753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 12/27] fix: update the signatures of the modified subgraph
 only

---
 larq_compute_engine/mlir/python/util.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index b047875..204633b 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -54,6 +54,15 @@ def _convert_model_from_object_to_bytearray(model_object):
     return bytes(builder.Output())
 
 
+def _get_signature_defs(model, subgraph):
+    """Get the SignatureDefs that describe the given subgraph."""
+    return [
+        signature_def
+        for signature_def in model.signatureDefs or []
+        if model.subgraphs[signature_def.subgraphIndex] is subgraph
+    ]
+
+
 def _update_signature_def_tensors(tensor_maps, map_old_to_new_tensors):
     """Update the tensors in the SignatureDef's TensorMaps."""
     for i in range(len(tensor_maps)):
@@ -98,8 +107,7 @@ def _remove_tensors_from_model(
             update_tensors(op.outputs)
             if op.intermediates is not None:
                 update_tensors(op.intermediates)
-        if model.signatureDefs:
-            signature_def = model.signatureDefs[0]
+        for signature_def in _get_signature_defs(model, subgraph):
             _update_signature_def_tensors(signature_def.inputs, d_old_to_new_tensors)
             _update_signature_def_tensors(signature_def.outputs, d_old_to_new_tensors)
         # Delete the tensors
@@ -234,8 +242,7 @@ def modify_integer_quantized_model_io_type(
                     )
                 )
             subgraph.inputs[subgraph.inputs == op.inputs[0]] = op.outputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.inputs)):
                     if signature_def.inputs[i].tensorIndex == op.inputs[0]:
                         signature_def.inputs[i].tensorIndex = op.outputs[0]
@@ -247,8 +254,7 @@ def modify_integer_quantized_model_io_type(
         # Remove the outputs and the dequant operator
         for op in output_dequant_ops:
             subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
@@ -341,8 +347,7 @@ def _strip_lcedequantize_ops_subgraph(
         # Remove the Dequantize operators
         for op in output_dequant_ops:
             subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
@@ -398,8 +403,7 @@ def _strip_lcedequantize_ops_subgraph(
     # Remove the LceDequantize operators
     for op in lce_output_dequant_ops:
         subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-        if model.signatureDefs:
-            signature_def = model.signatureDefs[0]
+        for signature_def in _get_signature_defs(model, subgraph):
             for i in range(len(signature_def.outputs)):
                 if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                     signature_def.outputs[i].tensorIndex = op.inputs[0]
-- 
2.43.0


From 7b91ebf1ec0caedfba23466ec37c54b95cb70670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 13/27] fix: keep dequantize operators whose results are used
 inside the model

---
 larq_compute_engine/mlir/python/util.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index 204633b..a7d4d36 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -351,8 +351,10 @@ def _strip_lcedequantize_ops_subgraph(
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
-            remove_tensors_idxs.add(op.outputs[0])
-            operators.remove(op)
+            # Keep the operator if its output is also used inside the model
+            if not any(op.outputs[0] in other.inputs for other in operators):
+                remove_tensors_idxs.add(op.outputs[0])
+                operators.remove(op)
 
         # Remove tensors marked for deletion.
         _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)
@@ -407,8 +409,10 @@ def _strip_lcedequantize_ops_subgraph(
             for i in range(len(signature_def.outputs)):
                 if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                     signature_def.outputs[i].tensorIndex = op.inputs[0]
-        remove_tensors_idxs.add(op.outputs[0])
-        operators.remove(op)
+        # Keep the operator if its output is also used inside the model
+        if not any(op.outputs[0] in other.inputs for other in operators):
+            remove_tensors_idxs.add(op.outputs[0])
+            operators.remove(op)
 
     # Remove tensors marked for deletion.
     _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)
-- 
2.43.0


From 447123f6f656051ece1a151cc4c1cc9d21aa3e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 14/27] fix: do not strip the outputs of control flow bodies

---
 larq_compute_engine/mlir/python/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index a7d4d36..fc3a840 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -278,8 +278,10 @@ def strip_lcedequantize_ops(model: bytes) -> bytes:
     # Convert the model to an object
     model = _convert_model_from_bytearray_to_object(model)
 
-    # Process each subgraph separately
-    for subgraph in model.subgraphs:
+    # Process each subgraph separately, except for those that are called by operators
+    for idx, subgraph in enumerate(model.subgraphs):
+        if idx > 0 and not _get_signature_defs(model, subgraph):
+            continue
         _strip_lcedequantize_ops_subgraph(model, subgraph)
 
     # Convert the model to a bytearray
-- 
2.43.0


From 73e5144d61791e0267f3024f7b7de60f63081b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:28 +0000
Subject: [PATCH 15/27] fix: fold constant Quantize and Dequantize ops of any
 rank and result type

Bitpack and Unpack read dimensions 0 to 3 whatever the rank, which is out of
bounds for constants of a lower rank and wrong for a higher one, and Unpack
cast every result type but f32 to a quantized type, which an i1 result is not.
---
 .../mlir/transforms/bitpack.cc                | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/bitpack.cc b/larq_compute_engine/mlir/transforms/bitpack.cc
index cbde408..56b2791 100644
--- a/larq_compute_engine/mlir/transforms/bitpack.cc
+++ b/larq_compute_engine/mlir/transforms/bitpack.cc
@@ -24,8 +24,11 @@ DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
   auto shape = shaped_type.getShape();
   auto element_type = shaped_type.getElementType();
 
-  int num_rows = shape[0] * shape[1] * shape[2];
-  int unpacked_channels = shape[3];
+  if (shape.empty()) return nullptr;
+
+  // The last dimension is the channel dimension, all others are rows.
+  int num_rows = ShapedType::getNumElements(shape.drop_back());
+  int unpacked_channels = shape.back();
   int packed_channels = GetBitpackedSize(unpacked_channels);
 
   std::vector<TBitpacked> new_values(num_rows * packed_channels);
@@ -49,9 +52,10 @@ DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
     return nullptr;
   }
 
-  RankedTensorType out_tensor_type =
-      RankedTensorType::get({shape[0], shape[1], shape[2], packed_channels},
-                            builder->getIntegerType(bitpacking_bitwidth));
+  std::vector<int64_t> out_shape = shape.vec();
+  out_shape.back() = packed_channels;
+  RankedTensorType out_tensor_type = RankedTensorType::get(
+      out_shape, builder->getIntegerType(bitpacking_bitwidth));
 
   return DenseElementsAttr::get<TBitpacked>(out_tensor_type, new_values);
 }
@@ -65,11 +69,13 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
   auto output_shape = result_type.getShape();
   auto output_type = result_type.getElementType();
 
-  int num_rows = output_shape[0] * output_shape[1] * output_shape[2];
-  int unpacked_channels = output_shape[3];
+  if (input_shape.empty() || output_shape.empty()) return nullptr;
+
+  int num_rows = ShapedType::getNumElements(output_shape.drop_back());
+  int unpacked_channels = output_shape.back();
   int packed_channels = GetBitpackedSize(unpacked_channels);
-  if (input_shape[0] != output_shape[0] || input_shape[1] != output_shape[1] ||
-      input_shape[2] != output_shape[2] || input_shape[3] != packed_channels) {
+  if (input_shape.drop_back() != output_shape.drop_back() ||
+      input_shape.back() != packed_channels) {
     return nullptr;
   }
 
@@ -91,8 +97,8 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
                   new_values.data());
 
     return DenseElementsAttr::get<float>(result_type, new_values);
-  } else {
-    auto quant_type = output_type.cast<mlir::quant::UniformQuantizedType>();
+  } else if (auto quant_type =
+                 output_type.dyn_cast<mlir::quant::UniformQuantizedType>()) {
     const double scale = quant_type.getScale();
     const int zero_point = quant_type.getZeroPoint();
 
@@ -106,6 +112,9 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
 
     return DenseElementsAttr::get<std::int8_t>(result_type, new_values);
   }
+
+  // constant-folding to other types is currently not supported
+  return nullptr;
 }
 
 }  // namespace TFL
-- 
2.43.0


From ab5743e6a4975b39ca98dd151dc98804fac3dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 16/27] fix: only match the legacy sign quantizer for constants
 between zero and one

sign(sign(x) + c) was taken for the sign quantizer whatever c is, although it
is a constant for |c| > 1, sign(x) for c = 0 and something that needs another
shape if c has to be broadcast.
---
 larq_compute_engine/mlir/transforms/common.h  | 19 +++++++++++++++++
 .../transforms/prepare_patterns_common.td     | 21 ++++++++++++++-----
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/common.h b/larq_compute_engine/mlir/transforms/common.h
index d192d9c..86fdbe9 100644
--- a/larq_compute_engine/mlir/transforms/common.h
+++ b/larq_compute_engine/mlir/transforms/common.h
@@ -2,6 +2,8 @@
 
 #include "mlir/IR/Attributes.h"
 #include "mlir/IR/BuiltinAttributes.h"
+#include "mlir/IR/BuiltinTypes.h"
+#include "mlir/IR/Value.h"
 
 namespace mlir {
 namespace TFL {
@@ -15,5 +17,22 @@ inline bool IsConstantValue(Attribute values, float expected_value) {
   return true;
 }
 
+// Whether all values lie strictly between `lower` and `upper`.
+inline bool IsConstantInRange(Attribute values, float lower, float upper) {
+  auto elements = values.dyn_cast<DenseElementsAttr>();
+  if (!elements || !elements.getElementType().isF32()) return false;
+
+  for (auto value : elements.getValues<float>()) {
+    if (!(lower < value && value < upper)) return false;
+  }
+  return true;
+}
+
+inline bool HaveSameShape(Value lhs, Value rhs) {
+  auto lhs_type = lhs.getType().dyn_cast<RankedTensorType>();
+  auto rhs_type = rhs.getType().dyn_cast<RankedTensorType>();
+  return lhs_type && rhs_type && lhs_type.getShape() == rhs_type.getShape();
+}
+
 }  // namespace TFL
 }  // namespace mlir
diff --git a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
index 3eed4cf..4b6f898 100644
--- a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
@@ -57,11 +57,22 @@ foreach SelectOp = [TF_SelectOp, TF_SelectV2Op]<Op> in
   defm : QuantDequantPatterns<SelectOp>;
 
 // A fallback for the old version of `ste_sign` that uses a specific `tf.sign`
-// based implementation of `larq.math.sign`.
-def : Pat<(TF_SignOp (TF_AddV2Op (TF_SignOp $arg), $c)),
-          (LQ_DequantizeOp (LQ_QuantizeOp $arg)), []>;
-def : Pat<(TF_SignOp (TF_AddV2Op $c, (TF_SignOp $arg))),
-          (LQ_DequantizeOp (LQ_QuantizeOp $arg)), []>;
+// based implementation of `larq.math.sign`. The added constant only decides the
+// sign of zero if it lies strictly between zero and one.
+def IsBetweenZeroAndOne : AttrConstraint<CPred<"IsConstantInRange($_self, 0.0f, 1.0f)">>;
+def HaveSameShape : Constraint<CPred<"HaveSameShape($0, $1)">>;
+def : Pat<(TF_SignOp:$output
+              (TF_AddV2Op
+                  (TF_SignOp $arg),
+                  (Arith_ConstantOp IsBetweenZeroAndOne))),
+          (LQ_DequantizeOp (LQ_QuantizeOp $arg)),
+          [(HaveSameShape $arg, $output)]>;
+def : Pat<(TF_SignOp:$output
+              (TF_AddV2Op
+                  (Arith_ConstantOp IsBetweenZeroAndOne),
+                  (TF_SignOp $arg))),
+          (LQ_DequantizeOp (LQ_QuantizeOp $arg)),
+          [(HaveSameShape $arg, $output)]>;
 
 // Copied from legalize_patterns.td
 class I32VectorElementsAttr<int len> : ElementsAttrBase<
-- 
2.43.0


From c55a70f118786982b93cf3b362a7733c5841c865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 17/27] fix: compute thresholds of bitpacked outputs without
 rounding errors

The quotient of bias and multiplier was rounded to float before it was rounded
down, so that the sign was wrong for an accumulator next to the zero crossing.
---
 .../mlir/transforms/optimize.cc                | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize.cc b/larq_compute_engine/mlir/transforms/optimize.cc
index 9646a3d..21e5ec9 100644
--- a/larq_compute_engine/mlir/transforms/optimize.cc
+++ b/larq_compute_engine/mlir/transforms/optimize.cc
@@ -180,10 +180,20 @@ void ComputeWriteBitpackedOutputThresholds(
       continue;
     }
 
-    // The general case.
-    thresholds.push_back(IntegerAttr::get(
-        element_type,
-        std::floor(0.5 * (bias / std::abs(mult) + backtransform_add))));
+    // The general case. As the division rounds, the result can be off by one
+    // when `bias / mult` is close to an integer, which we correct by evaluating
+    // the sign of y (the sign of the sum below is computed without rounding).
+    const double abs_mult = std::abs(mult);
+    const auto is_negative = [&](double x) {
+      return (backtransform_add - 2 * x) * abs_mult + bias < 0;
+    };
+    double threshold = std::floor(0.5 * (bias / abs_mult + backtransform_add));
+    if (is_negative(threshold)) {
+      --threshold;
+    } else if (!is_negative(threshold + 1)) {
+      ++threshold;
+    }
+    thresholds.push_back(IntegerAttr::get(element_type, threshold));
   }
 }
 
-- 
2.43.0


From 1b6a6177561f3acaafc1b173b696fe892dabcbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 18/27] fix: keep the activation function of a max pool
 followed by a quantizer

A max pool with a fused activation function was replaced with a binary max
pool, which has none: relu(max(x)) >= 0 always holds.
---
 .../mlir/transforms/optimize_patterns_target_arm.td             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
index 36f8a4b..e1f01af 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
@@ -9,7 +9,7 @@ def : Pat<(LQ_QuantizeOp
                   $stride_h,
                   $filter_width,
                   $filter_height,
-                  $fused_activation_function)),
+                  TFL_AF_None)),
           (LQ_BMaxPool2dOp
               (LQ_QuantizeOp $input),
               $padding,
-- 
2.43.0


From 7cb0a1c8bb98b8ac3e58bb6f2b42229c20dcd0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 19/27] fix: only fuse comparisons into quantizers that the
 quantizer can replace

Comparing an integer tensor gave a quantizer of an integer tensor, which is not
valid (or read the integer constant as floats), and comparing with a constant
of a larger shape than the input lost the broadcast.
---
 larq_compute_engine/mlir/transforms/common.h              | 5 +++--
 .../mlir/transforms/optimize_patterns_common.td           | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/common.h b/larq_compute_engine/mlir/transforms/common.h
index 86fdbe9..7ce6bd5 100644
--- a/larq_compute_engine/mlir/transforms/common.h
+++ b/larq_compute_engine/mlir/transforms/common.h
@@ -9,9 +9,10 @@ namespace mlir {
 namespace TFL {
 
 inline bool IsConstantValue(Attribute values, float expected_value) {
-  if (!values.isa<DenseElementsAttr>()) return false;
+  auto elements = values.dyn_cast<DenseElementsAttr>();
+  if (!elements || !elements.getElementType().isF32()) return false;
 
-  for (auto value : values.cast<DenseElementsAttr>().getValues<float>()) {
+  for (auto value : elements.getValues<float>()) {
     if (value != expected_value) return false;
   }
   return true;
diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
index 9bc11fa..d0629fb 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
@@ -8,6 +8,9 @@ include "larq_compute_engine/mlir/ir/lce_ops.td"
 def F32ElementsAttr : ElementsAttrBase<
   CPred<"$_self.cast<ElementsAttr>().getShapedType().getElementType().isF32()">, "float constant tensor">;
 
+def IsF32 : Constraint<CPred<"getElementTypeOrSelf($0.getType()).isF32()">>;
+def HaveSameShape : Constraint<CPred<"HaveSameShape($0, $1)">>;
+
 // Checks if the value has only one user.
 def HasOneUse : Constraint<CPred<"$0.hasOneUse()">>;
 
@@ -19,7 +22,8 @@ def : Pat<(LQ_QuantizeOp
                   $input,
                   (Arith_ConstantOp ConstantValue<"0.0f">))),
           (LQ_QuantizeOp $input),
-          [(HasOneUse $ge_op)], [], (addBenefit 100)>;
+          [(HasOneUse $ge_op), (HaveSameShape $input, $ge_op)], [],
+          (addBenefit 100)>;
 
 def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp:$ge_op
@@ -27,7 +31,7 @@ def : Pat<(LQ_QuantizeOp
                   $threshold)),
           (LQ_QuantizeOp
               (TFL_SubOp $input, $threshold, TFL_AF_None)),
-          [(HasOneUse $ge_op)]>;
+          [(HasOneUse $ge_op), (IsF32 $input)]>;
 
 def : Pat<(LQ_QuantizeOp
               (TFL_LessEqualOp:$ge_op $lhs, $rhs)),
-- 
2.43.0


From bdb9a697139f9c545b493adadfb0c0290b4f7533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 20/27] fix: only fuse constants with one value per channel
 into binary convolutions

Constants of other shapes were fused as well, which gave multipliers and biases
of shapes that the operator does not support, e.g. one value per pixel.
---
 larq_compute_engine/mlir/transforms/optimize.cc       | 10 ++++++++++
 .../mlir/transforms/optimize_patterns_common.td       | 11 +++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize.cc b/larq_compute_engine/mlir/transforms/optimize.cc
index 21e5ec9..95a6650 100644
--- a/larq_compute_engine/mlir/transforms/optimize.cc
+++ b/larq_compute_engine/mlir/transforms/optimize.cc
@@ -253,6 +253,16 @@ DenseElementsAttr GetBitpackedOutputThresholds(
   return DenseElementsAttr::get(type, thresholds);
 }
 
+// Whether `value` can be added to or multiplied with the vector `bias` without
+// changing its shape.
+bool IsPerChannel(Attribute value, Attribute bias) {
+  const auto value_type = value.cast<TypedAttr>().getType().cast<ShapedType>();
+  const auto bias_type = bias.cast<TypedAttr>().getType().cast<ShapedType>();
+  return value_type.getRank() <= 1 && bias_type.getRank() == 1 &&
+         (value_type.getNumElements() == 1 ||
+          value_type.getShape() == bias_type.getShape());
+}
+
 namespace optimize_target_arm {
 #include "larq_compute_engine/mlir/transforms/generated_optimize_target_arm.inc"
 }
diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
index d0629fb..2558937 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
@@ -39,7 +39,9 @@ def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp $rhs, $lhs)),
           [(HasOneUse $ge_op)]>;
 
-// TODO: Check shapes before fusing
+// Checks that the constant is a scalar or has one value per output channel.
+def IsPerChannel : Constraint<CPred<"IsPerChannel($0, $1)">>;
+
 multiclass FuseAddOrSubWithBConv2D<Op binaryOp> {
   def : Pat<(binaryOp
                 (LQ_Bconv2dOp:$output
@@ -72,12 +74,12 @@ multiclass FuseAddOrSubWithBConv2D<Op binaryOp> {
                 $padding,
                 $stride_height,
                 $stride_width),
-            [(HasOneUse $output)]>;
+            [(HasOneUse $output),
+             (IsPerChannel $value, $post_activation_bias)]>;
 }
 foreach binaryOp = [TFL_AddOp, TFL_SubOp] in
   defm : FuseAddOrSubWithBConv2D<binaryOp>;
 
-// TODO: Check shapes before fusing
 multiclass FuseMulOrDivWithBConv2D<Op binaryOp> {
   def : Pat<(binaryOp
                 (LQ_Bconv2dOp:$conv_output
@@ -111,7 +113,8 @@ multiclass FuseMulOrDivWithBConv2D<Op binaryOp> {
                 $padding,
                 $stride_height,
                 $stride_width),
-            [(HasOneUse $conv_output)]>;
+            [(HasOneUse $conv_output),
+             (IsPerChannel $value, $post_activation_bias)]>;
 }
 foreach binaryOp = [TFL_DivOp, TFL_MulOp] in
   defm : FuseMulOrDivWithBConv2D<binaryOp>;
-- 
2.43.0


From c08dae876bbaed8fbf2f78da08190dbf4038f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 21/27] fix: only fuse padding into strided convolutions if it
 pads the same pixels

The paddings were compared with each other only, so that an even padding of
e.g. (1, 1) became "SAME" padding where that pads (0, 1), which shifts the
result of a strided convolution by one pixel.
---
 .../mlir/transforms/fuse_padding.cc                | 14 ++++++++++++--
 larq_compute_engine/mlir/transforms/padding.h      | 12 ++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/fuse_padding.cc b/larq_compute_engine/mlir/transforms/fuse_padding.cc
index c6fced9..c7edc31 100644
--- a/larq_compute_engine/mlir/transforms/fuse_padding.cc
+++ b/larq_compute_engine/mlir/transforms/fuse_padding.cc
@@ -26,9 +26,19 @@ bool IsSamePaddingPartial(Attribute paddings_attr, Value input, Value output,
   if (!strides_attr.isa<IntegerAttr>()) return false;
   const int stride = strides_attr.cast<IntegerAttr>().getInt();
 
-  // Check that there is no padding in the batch and channel dimensions
+  // Both filter layouts (OHWI and 1HWO) have the same spatial dimensions
+  auto conv = output.getDefiningOp();
+  auto filter_shape = GetShape4D(conv->getOperand(1));
+  if (filter_shape.empty()) return false;
+  auto dilation = conv->getAttrOfType<IntegerAttr>(
+      dimension == 1 ? "dilation_h_factor" : "dilation_w_factor");
+  if (!dilation) return false;
+
   return IsSamePadding1D(paddings, dimension, input_shape[dimension],
-                         output_shape[dimension], stride);
+                         output_shape[dimension], stride) &&
+         IsSamePaddingStart(paddings.getValues<int>()[{dimension, 0}],
+                            input_shape[dimension], output_shape[dimension],
+                            stride, filter_shape[dimension], dilation.getInt());
 }
 
 namespace fuse_padding {
diff --git a/larq_compute_engine/mlir/transforms/padding.h b/larq_compute_engine/mlir/transforms/padding.h
index 69a8c75..8648d65 100644
--- a/larq_compute_engine/mlir/transforms/padding.h
+++ b/larq_compute_engine/mlir/transforms/padding.h
@@ -1,6 +1,8 @@
 #ifndef LARQ_COMPUTE_ENGINE_MLIR_TRANSFORMS_PADDING_H_
 #define LARQ_COMPUTE_ENGINE_MLIR_TRANSFORMS_PADDING_H_
 
+#include <algorithm>
+
 #include "larq_compute_engine/core/types.h"
 #include "mlir/IR/BuiltinAttributes.h"
 #include "mlir/IR/BuiltinTypes.h"
@@ -41,6 +43,16 @@ inline bool IsSamePadding1D(DenseElementsAttr paddings, uint64_t dimension,
          (pad_after == ((pad_total + 1) / 2));
 }
 
+// Whether a window of `filter_size` starts `pad_before` before the input with
+// "SAME" padding.
+inline bool IsSamePaddingStart(int pad_before, int input_size, int output_size,
+                               int stride, int filter_size, int dilation) {
+  const int pad_total = std::max(0, (output_size - 1) * stride +
+                                        (filter_size - 1) * dilation + 1 -
+                                        input_size);
+  return pad_before == pad_total / 2;
+}
+
 inline bool IsNoPadding(DenseElementsAttr paddings, uint64_t dimension) {
   return paddings.getValues<int>()[{dimension, 0}] == 0 &&
          paddings.getValues<int>()[{dimension, 1}] == 0;
-- 
2.43.0


From 877dc74f643e40026823aa14dee6d42f89d6531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:38 +0000
Subject: [PATCH 22/27] fix: do not fold constants to elements of a quantized
 type

MLIR asserts that the elements of a DenseElementsAttr are integers or floats
(and reads past the values without assertions), so that converting a model with
a constant that is binarized and then quantized to int8 could crash.
---
 larq_compute_engine/mlir/ir/lce_ops.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larq_compute_engine/mlir/ir/lce_ops.cc b/larq_compute_engine/mlir/ir/lce_ops.cc
index 3042083..6941c73 100644
--- a/larq_compute_engine/mlir/ir/lce_ops.cc
+++ b/larq_compute_engine/mlir/ir/lce_ops.cc
@@ -83,6 +83,8 @@ OpFoldResult DequantizeOp::fold(FoldAdaptor adaptor) {
   auto operands = adaptor.getOperands();
   auto result_type = getType().cast<ShapedType>();
   if (!operands[0]) return nullptr;
+  // A DenseElementsAttr cannot have elements of a quantized type
+  if (!result_type.getElementType().isF32()) return nullptr;
   return mlir::TFL::Unpack(operands[0], result_type);
 }
 
-- 
2.43.0


From 64a63fbe61d5f62f08de09a47a969d70584e0e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:34 +0000
Subject: [PATCH 23/27] fix: only write bitpacked activations of float binary
 convolutions

---
 .../mlir/transforms/bitpack_activations_patterns.td          | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/bitpack_activations_patterns.td b/larq_compute_engine/mlir/transforms/bitpack_activations_patterns.td
index f6beab3..22d97b2 100644
--- a/larq_compute_engine/mlir/transforms/bitpack_activations_patterns.td
+++ b/larq_compute_engine/mlir/transforms/bitpack_activations_patterns.td
@@ -11,6 +11,9 @@ def F32ElementsAttr : ElementsAttrBase<
 // Checks if the value has only one user.
 def HasOneUse : Constraint<CPred<"$0.hasOneUse()">>;
 
+// The sign of a quantized output is not always the sign of the float result
+def IsF32 : Constraint<CPred<"getElementTypeOrSelf($0.getType()).isF32()">>;
+
 def CreateNoneValue : NativeCodeCall<
   "$_builder.create<TFL::NoValueOp>($0.getLoc(), $_builder.getUnitAttr())">;
 def GetSignsOfVectorAndBroadcast4D : NativeCodeCall<"GetSignsOfVectorAndBroadcast4D($0)">;
@@ -55,6 +58,6 @@ class WriteBitpackedActivationsPat<ConstantStrAttr padding_type, string pad_valu
               padding_type,
               $stride_height,
               $stride_width),
-          [(HasOneUse $output)]>;
+          [(HasOneUse $output), (IsF32 $output)]>;
 def : WriteBitpackedActivationsPat<TFL_PAD_Valid, "0">;
 def : WriteBitpackedActivationsPat<TFL_PAD_Same, "1">;
-- 
2.43.0


From b6d4e9f60a91881bb856e9cac7aea7ce2cd0c967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:19 +0000
Subject: [PATCH 24/27] fix: report an error when a pass before variable
 freezing fails silently

---
 larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc b/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc
index be080ce..4647102 100644
--- a/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc
+++ b/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc
@@ -93,7 +93,8 @@ absl::Status ConvertTFExecutorToTFLOrFlatbuffer(
 
   tensorflow::AddPreVariableFreezingTFToLCETFLConversionPasses(&pass_manager);
   if (mlir::failed(pass_manager.run(module))) {
-    return statusHandler.ConsumeStatus();
+    return statusHandler.Combine(
+        absl::InternalError("Passes before variable freezing failed."));
   }
 
   // Freeze variables if a session is provided.
@@ -118,7 +119,8 @@ absl::Status ConvertTFExecutorToTFLOrFlatbuffer(
     pass_manager.addPass(mlir::odml::createPrintOpStatsPass(
         mlir::odml::GetAcceptedTFLiteDialects()));
     if (mlir::failed(pass_manager.run(module))) {
-      return statusHandler.ConsumeStatus();
+      return statusHandler.Combine(
+          absl::InternalError("Could not collect the op statistics."));
     }
 
     llvm::raw_string_ostream os(*result);
-- 
2.43.0


From 01993c7768dec1742bceca07fa22bed781f521fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:52 +0000
Subject: [PATCH 25/27] fix: pad the output transform for the widest over-read
 of the 64-bit Arm kernels

The kernels load multipliers and biases of eight channels at once, so with
one to three channels in the last block they read up to 28 bytes beyond the
end, while only 16 extra bytes were allocated.
---
 larq_compute_engine/core/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larq_compute_engine/core/types.h b/larq_compute_engine/core/types.h
index 24da7d4..ed23522 100644
--- a/larq_compute_engine/core/types.h
+++ b/larq_compute_engine/core/types.h
@@ -35,7 +35,7 @@ inline bool FastBoundsCheck(const int index, const int limit) {
 // In our kernels we may occasionally read (but never write) beyond the end of
 // an array. This is the maximum number of extra bytes that will be read, and
 // should be added as padding to the end of tensor allocations.
-#define LCE_EXTRA_BYTES 16
+#define LCE_EXTRA_BYTES 32
 
 // Define these once here, so they can be included everywhere.
 using TBitpacked = std::int32_t;
-- 
2.43.0


From 0802b23ea162b8eb1286e828b3ed5d4f8a9f0b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:52 +0000
Subject: [PATCH 26/27] fix: the streaming loop of the 32-bit accumulator Arm
 kernel ran past the depth

It advances by eight words but its limit was rounded down to four, so
depths of 8n+4 words accumulated four words from beyond the packed blocks.
---
 larq_compute_engine/core/bgemm/kernels_aarch64.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/core/bgemm/kernels_aarch64.h b/larq_compute_engine/core/bgemm/kernels_aarch64.h
index f555a2b..2cc613c 100644
--- a/larq_compute_engine/core/bgemm/kernels_aarch64.h
+++ b/larq_compute_engine/core/bgemm/kernels_aarch64.h
@@ -234,9 +234,9 @@ void BinaryKernelNeon4x4(const BinaryKernelParams<DstScalar, 4, 4>& params) {
       LCE_BMLA(v24, v4, v0, v1, v2, v3)
 
 #if RUY_OPT(MAX_STREAMING)
-      "cmp w12, #8\n"
+      "cmp w12, #16\n"
       "blt 78f\n"
-      "and w2, w12, #-4\n"
+      "and w2, w12, #-8\n"
 
       // Load the next 64 bytes of LHS and RHS data.
       "ld1 {v8.4s, v9.4s, v10.4s, v11.4s}, [%[lhs_ptr]], #64\n"
-- 
2.43.0


From c58cf6e07bfba80f74aafbf3516a0edee7cd54b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:52 +0000
Subject: [PATCH 27/27] fix: choose the indirect Arm kernels by the sums that
 can occur

The bound for 16-bit accumulators was computed from the size of the input
instead of the filter: filters larger than the image overflowed, and large
images were refused the optimised kernels.
---
 larq_compute_engine/core/indirect_bgemm/select_kernel.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/core/indirect_bgemm/select_kernel.h b/larq_compute_engine/core/indirect_bgemm/select_kernel.h
index 7f4c20a..ff6eb92 100644
--- a/larq_compute_engine/core/indirect_bgemm/select_kernel.h
+++ b/larq_compute_engine/core/indirect_bgemm/select_kernel.h
@@ -42,9 +42,10 @@ inline std::unique_ptr<Kernel> SelectRuntimeKernel(
   // on whether the bitpacked number of input channels is a multiple of 4, 2, or
   // 1, and whether that multiple is 1 or more than 1.
 
-  const auto max_accumulator_value = bitpacking_bitwidth *
-                                     bitpacked_input_shape.FlatSize() /
-                                     bconv2d_params->groups;
+  const auto max_accumulator_value =
+      bitpacking_bitwidth * bconv2d_params->filter_height *
+      bconv2d_params->filter_width * bitpacked_input_shape.Dims(3) /
+      bconv2d_params->groups;
   const bool fits_in_uint16_accumulators =
       max_accumulator_value < std::numeric_limits<std::uint16_t>::max();
 
-- 
2.43.0

