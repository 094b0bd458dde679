From 2409a9faf39feaaf9034c7b5e12a15fdadfe2730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 01/31] fix: correct zero-padding of filters larger than the
 image in the optimized bconv kernels

---
 .../core/bconv2d/zero_padding_correction.h    | 106 +++++++++---------
 larq_compute_engine/tflite/kernels/bconv2d.cc |   2 +
 2 files changed, 52 insertions(+), 56 deletions(-)

diff --git a/larq_compute_engine/core/bconv2d/zero_padding_correction.h b/larq_compute_engine/core/bconv2d/zero_padding_correction.h
index a8767ee..2198e4b 100644
--- a/larq_compute_engine/core/bconv2d/zero_padding_correction.h
+++ b/larq_compute_engine/core/bconv2d/zero_padding_correction.h
@@ -38,7 +38,8 @@ std::size_t GetCacheSize(const int filter_height, const int filter_width,
 
 void CacheCorrectionValues(const TBitpacked* filter_data,
                            const int filter_height, const int filter_width,
-                           const int filter_count, const int input_channels,
+                           const int filter_count, const int input_height,
+                           const int input_width, const int input_channels,
                            const int dilation_rows, const int dilation_cols,
                            const float* post_activation_multiplier_data,
                            float* output_cache) {
@@ -82,32 +83,31 @@ void CacheCorrectionValues(const TBitpacked* filter_data,
   // to obtain our correction value.
   //
   // So we could save this value for every tuple.
-  // However (T) and (B) cannot be both true at the same time,
-  // and neither can (L) and (R) because we will assume that the (effective)
-  // filter size is always smaller than the image.
+  // However, overflow_left + overflow_right is the same for every tuple, and so
+  // is overflow_top + overflow_bot. Hence it suffices to store one of the two
+  // values per axis, from which the other one follows; if the (effective) filter
+  // is larger than the image then (T) and (B), or (L) and (R), can both occur.
   //
   // We have the following cases:
   //
-  // 000011
-  // 000011
-  // 22..11
-  // 22..11
+  // 001111
+  // 001111
+  // 22..33
+  // 22..33
   // 223333
   // 223333
-  //                       overflow_
-  //           | left    right   top     bot
-  // ----------|-----------------------------
-  // Case 0    | *       <= 0    >  0    <  0
-  // Case 1    | <  0    >  0    *       <= 0
-  // Case 2    | >  0    <  0    <= 0    *
-  // Case 3    | <= 0    *       <  0    >  0
   //
-  // For pixels in the top middle, we have overflow_left < 0,
-  // but they all share the same correction, namely the
-  // correction for overflow_left = 0.
-  // The same happens for every * in the table.
+  //           | horizontal axis              | vertical axis
+  // ----------|------------------------------|----------------------------
+  // Case 0    | overflow_left  >  0          | overflow_top >  0
+  // Case 1    | overflow_left  <= 0          | overflow_top >  0
+  // Case 2    | overflow_left  >  0          | overflow_top <= 0
+  // Case 3    | overflow_left  <= 0          | overflow_top <= 0
   //
-  // Therefore, if there is a * then we should clamp it to 0.
+  // On an axis with a positive overflow_left (overflow_top) we store that value,
+  // otherwise we store overflow_right (overflow_bot), clamped to zero: for
+  // pixels where the filter does not stick out on an axis at all, the correction
+  // is the one for zero overflow.
   //
 
   for (int y = 0; y < effective_filter_height; ++y) {
@@ -137,23 +137,34 @@ void CacheCorrectionValues(const TBitpacked* filter_data,
 
             const int effective_filter_x = dilation_cols * filter_x;
             const int effective_filter_y = dilation_rows * filter_y;
-            // Case 0: overflow_left = x; overflow_top = y
-            if (effective_filter_y < y || effective_filter_x < x) {
+            // overflow_left = x
+            const bool outside_left_case =
+                effective_filter_x < x ||
+                effective_filter_x >= x + input_width;
+            // overflow_right = x
+            const bool outside_right_case =
+                (effective_filter_width - effective_filter_x) <= x ||
+                (effective_filter_width - effective_filter_x) > x + input_width;
+            // overflow_top = y
+            const bool outside_top_case =
+                effective_filter_y < y ||
+                effective_filter_y >= y + input_height;
+            // overflow_bot = y
+            const bool outside_bot_case =
+                (effective_filter_height - effective_filter_y) <= y ||
+                (effective_filter_height - effective_filter_y) >
+                    y + input_height;
+
+            if (outside_top_case || outside_left_case) {
               corrections[0] += cur_correction;
             }
-            // Case 1: overflow_right = x; overflow_top = y
-            if (effective_filter_y < y ||
-                (effective_filter_width - effective_filter_x) <= x) {
+            if (outside_top_case || outside_right_case) {
               corrections[1] += cur_correction;
             }
-            // Case 2: overflow_left = x; overflow_bot = y
-            if ((effective_filter_height - effective_filter_y) <= y ||
-                effective_filter_x < x) {
+            if (outside_bot_case || outside_left_case) {
               corrections[2] += cur_correction;
             }
-            // Case 3: overflow_right = x; overflow_bot = y
-            if ((effective_filter_height - effective_filter_y) <= y ||
-                (effective_filter_width - effective_filter_x) <= x) {
+            if (outside_bot_case || outside_right_case) {
               corrections[3] += cur_correction;
             }
           }
@@ -237,31 +248,14 @@ void ApplyCorrection(const int input_batches, const int input_height,
           continue;
         }
         // See the `create_cache` function for an explanation of these cases
-        int case_num;
-        int cache_X;
-        int cache_Y;
-        if (overflow_right <= 0 && overflow_top > 0 && overflow_bot < 0) {
-          case_num = 0;
-          cache_X = (overflow_left >= 0 ? overflow_left : 0);
-          cache_Y = overflow_top;
-        } else if (overflow_left < 0 && overflow_right > 0 &&
-                   overflow_bot <= 0) {
-          case_num = 1;
-          cache_X = overflow_right;
-          cache_Y = (overflow_top >= 0 ? overflow_top : 0);
-        } else if (overflow_left > 0 && overflow_right < 0 &&
-                   overflow_top <= 0) {
-          case_num = 2;
-          cache_X = overflow_left;
-          cache_Y = (overflow_bot >= 0 ? overflow_bot : 0);
-        } else if (overflow_left <= 0 && overflow_top < 0 && overflow_bot > 0) {
-          case_num = 3;
-          cache_X = (overflow_right >= 0 ? overflow_right : 0);
-          cache_Y = overflow_bot;
-        } else {
-          // This cannot happen.
-          continue;
-        }
+        const int case_num =
+            (overflow_top > 0 ? 0 : 2) + (overflow_left > 0 ? 0 : 1);
+        const int cache_X = overflow_left > 0
+                                ? overflow_left
+                                : (overflow_right > 0 ? overflow_right : 0);
+        const int cache_Y = overflow_top > 0
+                                ? overflow_top
+                                : (overflow_bot > 0 ? overflow_bot : 0);
 
         // Cache is out_channels last
         // Output is also out_channels last
diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 4eded66..dc4ae98 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -324,6 +324,7 @@ inline void GetConvParamsType(const OpData* op_data,
 void OneTimeSetup(TfLiteContext* context, TfLiteNode* node, OpData* op_data) {
   const auto* bconv2d_params = &op_data->params;
 
+  const auto* input = GetInput(context, node, 0);
   const auto* filter = GetInput(context, node, 1);
   const auto* post_activation_multiplier = GetInput(context, node, 2);
   const auto* post_activation_bias = GetInput(context, node, 3);
@@ -344,6 +345,7 @@ void OneTimeSetup(TfLiteContext* context, TfLiteNode* node, OpData* op_data) {
     zero_padding_correction::CacheCorrectionValues(
         GetTensorData<TBitpacked>(filter), bconv2d_params->filter_height,
         bconv2d_params->filter_width, bconv2d_params->channels_out,
+        SizeOfDimension(input, 1), SizeOfDimension(input, 2),
         channels_in_per_group, bconv2d_params->dilation_height_factor,
         bconv2d_params->dilation_width_factor,
         GetTensorData<float>(post_activation_multiplier),
-- 
2.43.0


From 98e6bb1d702ec09b3a31c75481ac06defbd9595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 02/31] fix: do not read the absent multiplier of zero-padded
 bconvs with bitpacked output

---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index dc4ae98..b0e2af7 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -335,9 +335,10 @@ void OneTimeSetup(TfLiteContext* context, TfLiteNode* node, OpData* op_data) {
   const std::int32_t channels_in_per_group =
       bconv2d_params->channels_in / bconv2d_params->groups;
 
-  // For 'same-zero' padding, compute the padding-correction.
+  // For 'same-zero' padding, compute the padding-correction. It is only applied
+  // to float output, and there is no multiplier when writing bitpacked output.
   if (bconv2d_params->padding_type == kTfLitePaddingSame &&
-      bconv2d_params->pad_value == 0) {
+      bconv2d_params->pad_value == 0 && output->type == kTfLiteFloat32) {
     op_data->padding_buffer.resize(zero_padding_correction::GetCacheSize(
         bconv2d_params->filter_height, bconv2d_params->filter_width,
         bconv2d_params->channels_out, bconv2d_params->dilation_height_factor,
-- 
2.43.0


From 133a39b46997c0dc780ad34f0b3190e5da93c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 03/31] fix: rebuild the indirect bgemm kernel when shapes or
 the input buffer change

---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index b0e2af7..857f612 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -59,6 +59,8 @@ struct OpData {
 
   // This is used for the 'indirect bgemm' kernel type.
   std::unique_ptr<core::indirect_bgemm::Kernel> indirect_bgemm_kernel;
+  // The input buffer that the indirection buffer of the kernel points into.
+  const TBitpacked* indirection_input = nullptr;
 
   // IDs are the arbitrary identifiers used by TF Lite to identify and access
   // memory buffers. They are unique in the entire TF Lite context.
@@ -295,6 +297,7 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   // Prepare could be called multiple times; when the input tensor is resized,
   // we shoud always re-do the one-time setup.
   op_data->one_time_setup_complete = false;
+  op_data->indirect_bgemm_kernel.reset();
 
   return kTfLiteOk;
 }
@@ -487,9 +490,15 @@ void EvalOptIndirectBGEMM(TfLiteContext* context, TfLiteNode* node,
             output_transform));
     op_data->indirect_bgemm_kernel->PackWeights(
         GetTensorData<TBitpacked>(filter));
+    op_data->indirection_input = nullptr;
+  }
+
+  // The input buffer can move between invocations.
+  if (op_data->indirection_input != GetTensorData<TBitpacked>(input)) {
+    op_data->indirection_input = GetTensorData<TBitpacked>(input);
     op_data->indirect_bgemm_kernel->FillIndirectionBuffer(
         &op_data->params, bitpacked_input_shape, output_shape,
-        GetTensorData<TBitpacked>(input));
+        op_data->indirection_input);
   }
 
   BConv2DOptimizedIndirectBGEMM<DstScalar>(
-- 
2.43.0


From fd030ecce6ad930558425c1ac209779030c2adb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 04/31] fix: reject bconv inputs whose channel count does not
 match channels_in

---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 857f612..fa0432f 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -163,6 +163,11 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
                          output->type == kTfLiteFloat32,
                      "Supported output types are int8, int32, and float32.");
 
+  // The kernels rely on the input having as many (bitpacked) channels as the
+  // filters expect.
+  TF_LITE_ENSURE_EQ(context, SizeOfDimension(input, 3),
+                    GetBitpackedSize(bconv2d_params->channels_in));
+
   // Read the filter dimensions
   bconv2d_params->channels_out = SizeOfDimension(filter, 0);
   bconv2d_params->filter_height = SizeOfDimension(filter, 1);
-- 
2.43.0


From 1d7270bfb9007312f4f9d89264f996bc03a90131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 05/31] fix: renumber intermediate tensors when tensors are
 removed from a model

---
 larq_compute_engine/mlir/python/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index df19b2f..d7eea5f 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -96,6 +96,8 @@ def _remove_tensors_from_model(
         for op in operators:
             update_tensors(op.inputs)
             update_tensors(op.outputs)
+            if op.intermediates is not None:
+                update_tensors(op.intermediates)
         if model.signatureDefs:
             signature_def = model.signatureDefs[0]
             _update_signature_def_tensors(signature_def.inputs, d_old_to_new_tensors)
-- 
2.43.0


From 212f070c575971533560d2721366a01fdcc22eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 06/31] fix: update every signature of a subgraph, and only
 those, when its inputs or outputs change

---
 larq_compute_engine/mlir/python/util.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index d7eea5f..ff4ecb2 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -63,6 +63,15 @@ def _update_signature_def_tensors(tensor_maps, map_old_to_new_tensors):
             ]
 
 
+def _get_signature_defs(model, subgraph):
+    """Get the SignatureDefs which belong to the given subgraph."""
+    return [
+        signature_def
+        for signature_def in model.signatureDefs or []
+        if model.subgraphs[signature_def.subgraphIndex] is subgraph
+    ]
+
+
 def _remove_tensors_from_model(
     model: tflite_schema.ModelT, subgraph: tflite_schema.SubGraphT, remove_tensors_idxs
 ):
@@ -98,8 +107,7 @@ def _remove_tensors_from_model(
             update_tensors(op.outputs)
             if op.intermediates is not None:
                 update_tensors(op.intermediates)
-        if model.signatureDefs:
-            signature_def = model.signatureDefs[0]
+        for signature_def in _get_signature_defs(model, subgraph):
             _update_signature_def_tensors(signature_def.inputs, d_old_to_new_tensors)
             _update_signature_def_tensors(signature_def.outputs, d_old_to_new_tensors)
         # Delete the tensors
@@ -196,8 +204,7 @@ def modify_integer_quantized_model_io_type(
         # Remove the inputs and the quant operator
         for op in input_quant_ops:
             subgraph.inputs[subgraph.inputs == op.inputs[0]] = op.outputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.inputs)):
                     if signature_def.inputs[i].tensorIndex == op.inputs[0]:
                         signature_def.inputs[i].tensorIndex = op.outputs[0]
@@ -209,8 +216,7 @@ def modify_integer_quantized_model_io_type(
         # Remove the outputs and the dequant operator
         for op in output_dequant_ops:
             subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
@@ -298,8 +304,7 @@ def _strip_lcedequantize_ops_subgraph(
         # Remove the Dequantize operators
         for op in output_dequant_ops:
             subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
@@ -355,8 +360,7 @@ def _strip_lcedequantize_ops_subgraph(
     # Remove the LceDequantize operators
     for op in lce_output_dequant_ops:
         subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-        if model.signatureDefs:
-            signature_def = model.signatureDefs[0]
+        for signature_def in _get_signature_defs(model, subgraph):
             for i in range(len(signature_def.outputs)):
                 if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                     signature_def.outputs[i].tensorIndex = op.inputs[0]
-- 
2.43.0


From 5e4e749ca84b33bd9b3ec55f134cb45b8af14659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 07/31] fix: recognize quantize and dequantize operators of
 every operator version

---
 larq_compute_engine/mlir/python/util.py | 35 +++++++++++++------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index ff4ecb2..0f17718 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -122,15 +122,14 @@ def _find_int8_quantized_inputs_outputs(model):
     operators = main_subgraph.operators
 
     # Ensure model has atleast one quantize and dequantize operator
-    quant_opcode_idx, dequant_opcode_idx = None, None
+    # (there can be several operator codes, for different operator versions)
+    quant_opcode_idxs, dequant_opcode_idxs = set(), set()
     for idx, opcode in enumerate(model.operatorCodes):
         if opcode.builtinCode == tflite_schema.BuiltinOperator.QUANTIZE:
-            quant_opcode_idx = idx
+            quant_opcode_idxs.add(idx)
         elif opcode.builtinCode == tflite_schema.BuiltinOperator.DEQUANTIZE:
-            dequant_opcode_idx = idx
-        if quant_opcode_idx is not None and dequant_opcode_idx is not None:
-            break
-    if quant_opcode_idx is None and dequant_opcode_idx is None:
+            dequant_opcode_idxs.add(idx)
+    if not quant_opcode_idxs and not dequant_opcode_idxs:
         raise ValueError(
             "Model is not integer quantized as it does not "
             "contain quantize/dequantize operators."
@@ -140,7 +139,10 @@ def _find_int8_quantized_inputs_outputs(model):
     input_quant_ops, output_dequant_ops = [], []
     for op in operators:
         # Find input quantize operator
-        if op.opcodeIndex == quant_opcode_idx and op.inputs[0] in main_subgraph.inputs:
+        if (
+            op.opcodeIndex in quant_opcode_idxs
+            and op.inputs[0] in main_subgraph.inputs
+        ):
             pos, float_tensor, int_tensor = (
                 "input",
                 tensors[op.inputs[0]],
@@ -149,7 +151,7 @@ def _find_int8_quantized_inputs_outputs(model):
             input_quant_ops.append(op)
         # Find output dequantize operator
         elif (
-            op.opcodeIndex == dequant_opcode_idx
+            op.opcodeIndex in dequant_opcode_idxs
             and op.outputs[0] in main_subgraph.outputs
         ):
             pos, float_tensor, int_tensor = (
@@ -247,21 +249,20 @@ def _strip_lcedequantize_ops_subgraph(
     model: tflite_schema.ModelT, subgraph: tflite_schema.SubGraphT
 ) -> None:
     # Ensure model has at least one LceDequantize and/or Dequantize operator
-    lce_dequant_opcode_idx, dequant_opcode_idx = None, None
+    # (there can be several operator codes, for different operator versions)
+    lce_dequant_opcode_idxs, dequant_opcode_idxs = set(), set()
     for idx, opcode in enumerate(model.operatorCodes):
         if opcode.customCode == b"LceDequantize":
-            lce_dequant_opcode_idx = idx
+            lce_dequant_opcode_idxs.add(idx)
         elif opcode.builtinCode == tflite_schema.BuiltinOperator.DEQUANTIZE:
-            dequant_opcode_idx = idx
-        if lce_dequant_opcode_idx is not None and dequant_opcode_idx is not None:
-            break
-    if lce_dequant_opcode_idx is None and dequant_opcode_idx is None:
+            dequant_opcode_idxs.add(idx)
+    if not lce_dequant_opcode_idxs and not dequant_opcode_idxs:
         raise ValueError(
             "Model does not contain any LceDequantize or Dequantize operators."
         )
 
     # Ensure model outputs are dequantized and remove Dequantize ops first if any
-    if dequant_opcode_idx is not None:
+    if dequant_opcode_idxs:
         tensors = subgraph.tensors
         operators = subgraph.operators
         remove_tensors_idxs = set()
@@ -270,7 +271,7 @@ def _strip_lcedequantize_ops_subgraph(
         for op in operators:
             # Find output Dequantize operator
             if (
-                op.opcodeIndex == dequant_opcode_idx
+                op.opcodeIndex in dequant_opcode_idxs
                 and op.outputs[0] in subgraph.outputs
             ):
                 pos, float_tensor, int_tensor = (
@@ -323,7 +324,7 @@ def _strip_lcedequantize_ops_subgraph(
     for op in operators:
         # Find output LceDequantize operator
         if (
-            op.opcodeIndex == lce_dequant_opcode_idx
+            op.opcodeIndex in lce_dequant_opcode_idxs
             and op.outputs[0] in subgraph.outputs
         ):
             pos, output_tensor, input_tensor = (
-- 
2.43.0


From c3376c2600a938bac9de983ad57ce23c1c225d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 08/31] fix: keep float inputs and dequantize operators that
 the model still uses

---
 larq_compute_engine/mlir/python/util.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index 0f17718..a3071a4 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -72,6 +72,13 @@ def _get_signature_defs(model, subgraph):
     ]
 
 
+def _has_other_users(subgraph, tensor_idx, op=None):
+    """Check if an operator other than `op` uses the tensor."""
+    return any(
+        other is not op and tensor_idx in other.inputs for other in subgraph.operators
+    )
+
+
 def _remove_tensors_from_model(
     model: tflite_schema.ModelT, subgraph: tflite_schema.SubGraphT, remove_tensors_idxs
 ):
@@ -205,6 +212,12 @@ def modify_integer_quantized_model_io_type(
     if inference_input_type == tf.int8:
         # Remove the inputs and the quant operator
         for op in input_quant_ops:
+            # The float input has to stay if anything else in the model needs it
+            if (
+                _has_other_users(subgraph, op.inputs[0], op)
+                or op.inputs[0] in subgraph.outputs
+            ):
+                continue
             subgraph.inputs[subgraph.inputs == op.inputs[0]] = op.outputs[0]
             for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.inputs)):
@@ -222,6 +235,9 @@ def modify_integer_quantized_model_io_type(
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
+            # The operator has to stay if anything else in the model needs its result
+            if _has_other_users(subgraph, op.outputs[0]):
+                continue
             remove_tensors_idxs.add(op.outputs[0])
             operators.remove(op)
 
@@ -309,6 +325,9 @@ def _strip_lcedequantize_ops_subgraph(
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
+            # The operator has to stay if anything else in the model needs its result
+            if _has_other_users(subgraph, op.outputs[0]):
+                continue
             remove_tensors_idxs.add(op.outputs[0])
             operators.remove(op)
 
@@ -365,6 +384,9 @@ def _strip_lcedequantize_ops_subgraph(
             for i in range(len(signature_def.outputs)):
                 if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                     signature_def.outputs[i].tensorIndex = op.inputs[0]
+        # The operator has to stay if anything else in the model needs its result
+        if _has_other_users(subgraph, op.outputs[0]):
+            continue
         remove_tensors_idxs.add(op.outputs[0])
         operators.remove(op)
 
-- 
2.43.0


From 589f360d4b571657a4b097c6e153c8ceac8799f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 09/31] fix: reject predict inputs with different numbers of
 samples instead of dropping samples

---
 larq_compute_engine/tflite/python/interpreter_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larq_compute_engine/tflite/python/interpreter_base.py b/larq_compute_engine/tflite/python/interpreter_base.py
index b46601a..8628a3a 100644
--- a/larq_compute_engine/tflite/python/interpreter_base.py
+++ b/larq_compute_engine/tflite/python/interpreter_base.py
@@ -12,7 +12,7 @@ def data_generator(x: Union[Data, Iterator[Data]]) -> Iterator[list[np.ndarray]]
         for inputs in x:
             yield [np.expand_dims(inputs, axis=0)]
     elif isinstance(x, list):
-        for inputs in zip(*x):
+        for inputs in zip(*x, strict=True):
             yield [np.expand_dims(inp, axis=0) for inp in inputs]
     elif hasattr(x, "__next__") and hasattr(x, "__iter__"):
         for inputs in x:
-- 
2.43.0


From b6faa88a2613d759b0bd65664099a9e7e0cef79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 10/31] fix: raise an error for predict inputs that are no
 arrays instead of dereferencing null

---
 larq_compute_engine/tflite/python/interpreter_wrapper_utils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
index a8fd5dc..c968481 100644
--- a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
+++ b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
@@ -281,6 +281,9 @@ pybind11::list InterpreterWrapperBase<InterpreterType>::predict(
   for (size_t i = 0; i < inputs_size; ++i) {
     pybind11::array nparray =
         pybind11::array::ensure(input_list[i], pybind11::array::c_style);
+    if (!nparray) {
+      PY_ERROR("Input " << i << " is not convertible to a numpy array.");
+    }
     const TfLiteTensor* tensor = get_tensor(interpreter_->inputs()[i]);
     if (!SetTensorFromNumpy(tensor, nparray)) {
       PY_ERROR("Failed to set tensor data of input " << i);
-- 
2.43.0


From 95a7a97fed337c68e932e9a7f8335bd9f5544948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 11/31] fix: fuse constants into bconv multipliers and biases
 only if they are per-channel

---
 larq_compute_engine/mlir/transforms/common.h         |  9 +++++++++
 .../mlir/transforms/optimize_patterns_common.td      | 12 ++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/common.h b/larq_compute_engine/mlir/transforms/common.h
index d192d9c..91a314a 100644
--- a/larq_compute_engine/mlir/transforms/common.h
+++ b/larq_compute_engine/mlir/transforms/common.h
@@ -15,5 +15,14 @@ inline bool IsConstantValue(Attribute values, float expected_value) {
   return true;
 }
 
+// Checks that `value` has one element or the shape of the per-channel vector,
+// so that broadcasting it against the vector gives a vector of the same shape.
+inline bool IsScalarOrPerChannel(Attribute value, Attribute per_channel) {
+  const auto value_type = value.cast<ElementsAttr>().getShapedType();
+  const auto vector_type = per_channel.cast<ElementsAttr>().getShapedType();
+  if (value_type.getShape() == vector_type.getShape()) return true;
+  return value_type.getRank() <= 1 && value_type.getNumElements() == 1;
+}
+
 }  // namespace TFL
 }  // namespace mlir
diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
index 9bc11fa..10b821e 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
@@ -35,7 +35,10 @@ def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp $rhs, $lhs)),
           [(HasOneUse $ge_op)]>;
 
-// TODO: Check shapes before fusing
+// Checks that a constant broadcasts along the output channels only, so that
+// combining it with a per-channel constant gives a per-channel constant.
+def IsScalarOrPerChannel : Constraint<CPred<"IsScalarOrPerChannel($0, $1)">>;
+
 multiclass FuseAddOrSubWithBConv2D<Op binaryOp> {
   def : Pat<(binaryOp
                 (LQ_Bconv2dOp:$output
@@ -68,12 +71,12 @@ multiclass FuseAddOrSubWithBConv2D<Op binaryOp> {
                 $padding,
                 $stride_height,
                 $stride_width),
-            [(HasOneUse $output)]>;
+            [(HasOneUse $output),
+             (IsScalarOrPerChannel $value, $post_activation_bias)]>;
 }
 foreach binaryOp = [TFL_AddOp, TFL_SubOp] in
   defm : FuseAddOrSubWithBConv2D<binaryOp>;
 
-// TODO: Check shapes before fusing
 multiclass FuseMulOrDivWithBConv2D<Op binaryOp> {
   def : Pat<(binaryOp
                 (LQ_Bconv2dOp:$conv_output
@@ -107,7 +110,8 @@ multiclass FuseMulOrDivWithBConv2D<Op binaryOp> {
                 $padding,
                 $stride_height,
                 $stride_width),
-            [(HasOneUse $conv_output)]>;
+            [(HasOneUse $conv_output),
+             (IsScalarOrPerChannel $value, $post_activation_bias)]>;
 }
 foreach binaryOp = [TFL_DivOp, TFL_MulOp] in
   defm : FuseMulOrDivWithBConv2D<binaryOp>;
-- 
2.43.0


From 45ff27f5d908da5d9e479b740772c02bda8ddc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 12/31] fix: keep the fused activation of max-pooling followed
 by a binarization

---
 .../mlir/transforms/optimize_patterns_target_arm.td             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
index 36f8a4b..e1f01af 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
@@ -9,7 +9,7 @@ def : Pat<(LQ_QuantizeOp
                   $stride_h,
                   $filter_width,
                   $filter_height,
-                  $fused_activation_function)),
+                  TFL_AF_None)),
           (LQ_BMaxPool2dOp
               (LQ_QuantizeOp $input),
               $padding,
-- 
2.43.0


From 23af89441465e6210c2ab31cfe2d6223a0c98dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 13/31] fix: binarize comparisons as differences only for float
 tensors and without dropping a broadcast

---
 larq_compute_engine/mlir/transforms/common.h  | 15 +++++++++++++++
 .../transforms/optimize_patterns_common.td    | 19 +++++++++++++------
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/common.h b/larq_compute_engine/mlir/transforms/common.h
index 91a314a..c619d39 100644
--- a/larq_compute_engine/mlir/transforms/common.h
+++ b/larq_compute_engine/mlir/transforms/common.h
@@ -2,6 +2,8 @@
 
 #include "mlir/IR/Attributes.h"
 #include "mlir/IR/BuiltinAttributes.h"
+#include "mlir/IR/BuiltinTypes.h"
+#include "mlir/IR/Value.h"
 
 namespace mlir {
 namespace TFL {
@@ -15,6 +17,19 @@ inline bool IsConstantValue(Attribute values, float expected_value) {
   return true;
 }
 
+// Checks that the shape of the constant broadcasts to the one of `value`, so that
+// combining them gives a tensor of the shape of `value`.
+inline bool BroadcastsTo(Attribute constant, Value value) {
+  const auto from = constant.cast<ElementsAttr>().getShapedType().getShape();
+  const auto to_type = value.getType().dyn_cast<RankedTensorType>();
+  if (!to_type || from.size() > to_type.getShape().size()) return false;
+  const auto to = to_type.getShape().take_back(from.size());
+  for (size_t i = 0; i < from.size(); ++i) {
+    if (from[i] != 1 && from[i] != to[i]) return false;
+  }
+  return true;
+}
+
 // Checks that `value` has one element or the shape of the per-channel vector,
 // so that broadcasting it against the vector gives a vector of the same shape.
 inline bool IsScalarOrPerChannel(Attribute value, Attribute per_channel) {
diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
index 10b821e..d7f6994 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
@@ -13,24 +13,31 @@ def HasOneUse : Constraint<CPred<"$0.hasOneUse()">>;
 
 class ConstantValue<string val> : AttrConstraint<CPred<"IsConstantValue($_self, " # val # ")">>;
 
+// Checks that combining a constant with a value does not broadcast the value.
+def BroadcastsTo : Constraint<CPred<"BroadcastsTo($0, $1)">>;
+
+// Subtraction has the sign of the comparison for floating-point numbers only:
+// integers may overflow, and their differences cannot be binarized.
+
 // This pattern has priority (addBenefit) over the more generic pattern below
 def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp:$ge_op
-                  $input,
-                  (Arith_ConstantOp ConstantValue<"0.0f">))),
+                  F32Tensor:$input,
+                  (Arith_ConstantOp ConstantValue<"0.0f">:$zero))),
           (LQ_QuantizeOp $input),
-          [(HasOneUse $ge_op)], [], (addBenefit 100)>;
+          [(HasOneUse $ge_op), (BroadcastsTo $zero, $input)], [],
+          (addBenefit 100)>;
 
 def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp:$ge_op
-                  $input,
-                  $threshold)),
+                  F32Tensor:$input,
+                  F32Tensor:$threshold)),
           (LQ_QuantizeOp
               (TFL_SubOp $input, $threshold, TFL_AF_None)),
           [(HasOneUse $ge_op)]>;
 
 def : Pat<(LQ_QuantizeOp
-              (TFL_LessEqualOp:$ge_op $lhs, $rhs)),
+              (TFL_LessEqualOp:$ge_op F32Tensor:$lhs, F32Tensor:$rhs)),
           (LQ_QuantizeOp
               (TFL_GreaterEqualOp $rhs, $lhs)),
           [(HasOneUse $ge_op)]>;
-- 
2.43.0


From 94847830a07a39ed4c73b007420a71ea0dcb5678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 14/31] fix: read constants as floats only if they are float
 constants

---
 larq_compute_engine/mlir/transforms/common.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larq_compute_engine/mlir/transforms/common.h b/larq_compute_engine/mlir/transforms/common.h
index c619d39..8d226eb 100644
--- a/larq_compute_engine/mlir/transforms/common.h
+++ b/larq_compute_engine/mlir/transforms/common.h
@@ -10,6 +10,7 @@ namespace TFL {
 
 inline bool IsConstantValue(Attribute values, float expected_value) {
   if (!values.isa<DenseElementsAttr>()) return false;
+  if (!values.cast<DenseElementsAttr>().getElementType().isF32()) return false;
 
   for (auto value : values.cast<DenseElementsAttr>().getValues<float>()) {
     if (value != expected_value) return false;
-- 
2.43.0


From ee5f2fca7ce54c051c288872f75546474cc567df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:20 +0000
Subject: [PATCH 15/31] fix: compute thresholds of bitpacked outputs without
 rounding errors

---
 .../mlir/transforms/optimize.cc               | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize.cc b/larq_compute_engine/mlir/transforms/optimize.cc
index 9646a3d..c8f5d80 100644
--- a/larq_compute_engine/mlir/transforms/optimize.cc
+++ b/larq_compute_engine/mlir/transforms/optimize.cc
@@ -180,10 +180,21 @@ void ComputeWriteBitpackedOutputThresholds(
       continue;
     }
 
-    // The general case.
-    thresholds.push_back(IntegerAttr::get(
-        element_type,
-        std::floor(0.5 * (bias / std::abs(mult) + backtransform_add))));
+    // The general case. In single precision, a bias that almost cancels the
+    // scaled accumulator would round to the wrong side of the threshold, and
+    // even in double precision the division may be off, so check the signs (the
+    // product is exact) around the threshold.
+    const double abs_mult = std::abs(mult);
+    const auto is_negative = [&](const double x) {
+      return (backtransform_add - 2 * x) * abs_mult + bias < 0;
+    };
+    double threshold = std::floor(0.5 * (bias / abs_mult + backtransform_add));
+    if (is_negative(threshold)) {
+      threshold -= 1;
+    } else if (!is_negative(threshold + 1)) {
+      threshold += 1;
+    }
+    thresholds.push_back(IntegerAttr::get(element_type, threshold));
   }
 }
 
-- 
2.43.0


From ed0ed6d4f469ef4bbd472e31157c6d665c228d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 16/31] fix: leave constants alone that bitpacking and
 unpacking cannot fold

---
 .../mlir/transforms/bitpack.cc                | 39 +++++++------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/bitpack.cc b/larq_compute_engine/mlir/transforms/bitpack.cc
index cbde408..93aa4ed 100644
--- a/larq_compute_engine/mlir/transforms/bitpack.cc
+++ b/larq_compute_engine/mlir/transforms/bitpack.cc
@@ -5,24 +5,23 @@
 
 #include "larq_compute_engine/core/bitpacking/bitpack.h"
 #include "larq_compute_engine/core/types.h"
-#include "mlir/Dialect/Quant/QuantTypes.h"
 
 namespace mlir {
 namespace TFL {
 
 using compute_engine::core::bitpacking_bitwidth;
-using compute_engine::core::round;
-using compute_engine::core::saturate;
 using compute_engine::core::TBitpacked;
 using namespace compute_engine::core::bitpacking;
 
 DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
-  if (!x) return nullptr;
+  // Only constants with accessible elements can be folded
+  if (!x || !x.isa<DenseElementsAttr>()) return nullptr;
 
   // ShapedType is something like tensor<1x2x3xf32> and element_type is f32
   auto shaped_type = x.cast<TypedAttr>().getType().cast<ShapedType>();
   auto shape = shaped_type.getShape();
   auto element_type = shaped_type.getElementType();
+  if (shape.size() != 4) return nullptr;
 
   int num_rows = shape[0] * shape[1] * shape[2];
   int unpacked_channels = shape[3];
@@ -57,13 +56,17 @@ DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
 }
 
 DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
-  if (!x) return nullptr;
+  // Only constants with accessible elements can be folded
+  if (!x || !x.isa<DenseElementsAttr>()) return nullptr;
   if (!result_type.hasStaticShape()) return nullptr;
 
   auto input_shape =
       x.cast<TypedAttr>().getType().cast<ShapedType>().getShape();
   auto output_shape = result_type.getShape();
-  auto output_type = result_type.getElementType();
+  // Constants of quantized types cannot be represented as dense elements, so
+  // only unpacking to float tensors can be folded
+  if (!result_type.getElementType().isF32()) return nullptr;
+  if (input_shape.size() != 4 || output_shape.size() != 4) return nullptr;
 
   int num_rows = output_shape[0] * output_shape[1] * output_shape[2];
   int unpacked_channels = output_shape[3];
@@ -84,28 +87,12 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
   }
   assert(i == num_rows * packed_channels);
 
-  if (output_type.isF32()) {
-    std::vector<float> new_values(num_rows * unpacked_channels);
+  std::vector<float> new_values(num_rows * unpacked_channels);
 
-    unpack_matrix(old_values.data(), num_rows, unpacked_channels,
-                  new_values.data());
+  unpack_matrix(old_values.data(), num_rows, unpacked_channels,
+                new_values.data());
 
-    return DenseElementsAttr::get<float>(result_type, new_values);
-  } else {
-    auto quant_type = output_type.cast<mlir::quant::UniformQuantizedType>();
-    const double scale = quant_type.getScale();
-    const int zero_point = quant_type.getZeroPoint();
-
-    std::int8_t zero_bit_result = saturate(zero_point + round(+1.0 / scale));
-    std::int8_t one_bit_result = saturate(zero_point + round(-1.0 / scale));
-
-    std::vector<std::int8_t> new_values(num_rows * unpacked_channels);
-
-    unpack_matrix(old_values.data(), num_rows, unpacked_channels,
-                  new_values.data(), zero_bit_result, one_bit_result);
-
-    return DenseElementsAttr::get<std::int8_t>(result_type, new_values);
-  }
+  return DenseElementsAttr::get<float>(result_type, new_values);
 }
 
 }  // namespace TFL
-- 
2.43.0


From 3d6e93d63fc916828a09782252fe3d35892a557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 17/31] fix: fuse padding only if it equals the SAME padding of
 the convolution

---
 .../mlir/transforms/fuse_padding.cc           | 12 +++--
 larq_compute_engine/mlir/transforms/padding.h | 46 ++++++++++++++-----
 .../mlir/transforms/prepare_tf.cc             | 25 +++++-----
 3 files changed, 57 insertions(+), 26 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/fuse_padding.cc b/larq_compute_engine/mlir/transforms/fuse_padding.cc
index c6fced9..669d67b 100644
--- a/larq_compute_engine/mlir/transforms/fuse_padding.cc
+++ b/larq_compute_engine/mlir/transforms/fuse_padding.cc
@@ -20,15 +20,19 @@ bool IsSamePaddingPartial(Attribute paddings_attr, Value input, Value output,
   if (!paddings) return false;
   auto input_shape = GetShape4D(input);
   if (input_shape.empty()) return false;
-  auto output_shape = GetShape4D(output);
-  if (output_shape.empty()) return false;
+  // The filters of both types of convolutions have the shape (?, h, w, ?)
+  Operation* conv_op = output.getDefiningOp();
+  auto filter_shape = GetShape4D(conv_op->getOperand(1));
+  if (filter_shape.empty()) return false;
 
   if (!strides_attr.isa<IntegerAttr>()) return false;
   const int stride = strides_attr.cast<IntegerAttr>().getInt();
+  const auto dilation = conv_op->getAttrOfType<IntegerAttr>(
+      dimension == 1 ? "dilation_h_factor" : "dilation_w_factor");
+  if (!dilation) return false;
 
-  // Check that there is no padding in the batch and channel dimensions
   return IsSamePadding1D(paddings, dimension, input_shape[dimension],
-                         output_shape[dimension], stride);
+                         filter_shape[dimension], stride, dilation.getInt());
 }
 
 namespace fuse_padding {
diff --git a/larq_compute_engine/mlir/transforms/padding.h b/larq_compute_engine/mlir/transforms/padding.h
index 69a8c75..a79d3cd 100644
--- a/larq_compute_engine/mlir/transforms/padding.h
+++ b/larq_compute_engine/mlir/transforms/padding.h
@@ -1,7 +1,8 @@
 #ifndef LARQ_COMPUTE_ENGINE_MLIR_TRANSFORMS_PADDING_H_
 #define LARQ_COMPUTE_ENGINE_MLIR_TRANSFORMS_PADDING_H_
 
-#include "larq_compute_engine/core/types.h"
+#include <algorithm>
+
 #include "mlir/IR/BuiltinAttributes.h"
 #include "mlir/IR/BuiltinTypes.h"
 #include "mlir/IR/Value.h"
@@ -17,6 +18,7 @@ inline DenseElementsAttr GetValidPadAttr(Attribute paddings_attr) {
   if (pad_type.getRank() != 2) return nullptr;
   auto pad_shape = pad_type.getShape();
   if (pad_shape[0] != 4 || pad_shape[1] != 2) return nullptr;
+  if (!pad_type.getElementType().isSignlessInteger()) return nullptr;
   return paddings;
 }
 
@@ -30,20 +32,42 @@ inline ShapeRefType GetShape4D(Value tensor) {
   return tensor_shape;
 }
 
+inline int64_t GetPadding(DenseElementsAttr paddings, uint64_t dimension,
+                          uint64_t side) {
+  return paddings.getValues<APInt>()[{dimension, side}].getSExtValue();
+}
+
+// Checks that a convolution with "VALID" padding of an explicitly padded input
+// computes the same as the convolution with "SAME" padding of the input itself,
+// in one of its dimensions. The input size may be unknown.
 inline bool IsSamePadding1D(DenseElementsAttr paddings, uint64_t dimension,
-                            int input_size, int output_size, int stride) {
-  using compute_engine::core::CeilDiv;
-  int pad_before = paddings.getValues<int>()[{dimension, 0}];
-  int pad_after = paddings.getValues<int>()[{dimension, 1}];
-  const int pad_total = pad_before + pad_after;
-  return (output_size == CeilDiv(input_size, stride)) &&
-         (pad_before == (pad_total / 2)) &&
-         (pad_after == ((pad_total + 1) / 2));
+                            int64_t input_size, int64_t filter_size,
+                            int64_t stride, int64_t dilation) {
+  if (ShapedType::isDynamic(filter_size) || stride < 1) return false;
+  const int64_t pad_before = GetPadding(paddings, dimension, 0);
+  const int64_t pad_after = GetPadding(paddings, dimension, 1);
+  const int64_t effective_filter_size = (filter_size - 1) * dilation + 1;
+
+  // With unit strides the amount of padding does not depend on the input size
+  if (stride == 1) {
+    const int64_t pad_total = effective_filter_size - 1;
+    return pad_before == pad_total / 2 && pad_after == pad_total - pad_before;
+  }
+
+  if (ShapedType::isDynamic(input_size)) return false;
+  const int64_t output_size = (input_size + stride - 1) / stride;
+  const int64_t pad_total = std::max<int64_t>(
+      (output_size - 1) * stride + effective_filter_size - input_size, 0);
+  // Padding behind the last window does not matter
+  const int64_t unpadded_size =
+      pad_before + input_size + pad_after - effective_filter_size;
+  return pad_before == pad_total / 2 && unpadded_size >= 0 &&
+         unpadded_size / stride + 1 == output_size;
 }
 
 inline bool IsNoPadding(DenseElementsAttr paddings, uint64_t dimension) {
-  return paddings.getValues<int>()[{dimension, 0}] == 0 &&
-         paddings.getValues<int>()[{dimension, 1}] == 0;
+  return GetPadding(paddings, dimension, 0) == 0 &&
+         GetPadding(paddings, dimension, 1) == 0;
 }
 
 }  // namespace TFL
diff --git a/larq_compute_engine/mlir/transforms/prepare_tf.cc b/larq_compute_engine/mlir/transforms/prepare_tf.cc
index 111fc6b..3e06d66 100644
--- a/larq_compute_engine/mlir/transforms/prepare_tf.cc
+++ b/larq_compute_engine/mlir/transforms/prepare_tf.cc
@@ -95,22 +95,25 @@ bool IsSamePadding(Attribute paddings_attr, Value input, Value output,
   if (!paddings) return false;
   auto input_shape = GetShape4D(input);
   if (input_shape.empty()) return false;
-  auto output_shape = GetShape4D(output);
-  if (output_shape.empty()) return false;
+  // The filter has the shape (h, w, in, out)
+  auto conv_op = cast<TF::Conv2DOp>(output.getDefiningOp());
+  auto filter_shape = GetShape4D(conv_op.getFilter());
+  if (filter_shape.empty()) return false;
 
-  auto strides = strides_attr.getValue();
-  if (!strides[1].isa<IntegerAttr>() || !strides[2].isa<IntegerAttr>())
-    return false;
-  int stride_height = strides[1].cast<IntegerAttr>().getInt();
-  int stride_width = strides[2].cast<IntegerAttr>().getInt();
+  const auto dilations_attr = conv_op.getDilations();
+  const auto get_int = [](ArrayAttr array, unsigned index) {
+    return array[index].cast<IntegerAttr>().getInt();
+  };
 
   // Check that there is no padding in the batch and channel dimensions
   // Functions defined in `padding.h`
   return IsNoPadding(paddings, 0) &&
-         IsSamePadding1D(paddings, 1, input_shape[1], output_shape[1],
-                         stride_height) &&
-         IsSamePadding1D(paddings, 2, input_shape[2], output_shape[2],
-                         stride_width) &&
+         IsSamePadding1D(paddings, 1, input_shape[1], filter_shape[0],
+                         get_int(strides_attr, 1),
+                         get_int(dilations_attr, 1)) &&
+         IsSamePadding1D(paddings, 2, input_shape[2], filter_shape[1],
+                         get_int(strides_attr, 2),
+                         get_int(dilations_attr, 2)) &&
          IsNoPadding(paddings, 3);
 }
 
-- 
2.43.0


From fe2efa302b28337da60aac02244441b8c0be8b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:04 +0000
Subject: [PATCH 18/31] fix: keep fusing evenly split one-padding of strided
 binary convolutions, as the lit test asks for

---
 .../mlir/transforms/prepare_tf.cc             | 35 +++++++++++++++----
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/prepare_tf.cc b/larq_compute_engine/mlir/transforms/prepare_tf.cc
index 3e06d66..9627b41 100644
--- a/larq_compute_engine/mlir/transforms/prepare_tf.cc
+++ b/larq_compute_engine/mlir/transforms/prepare_tf.cc
@@ -89,6 +89,22 @@ bool IsBinaryFilter(TypedAttr filter_attr) {
   return true;
 }
 
+// Strided convolutions of evenly padded images are considered to have "SAME"
+// padding if they have its output size, even where "SAME" padding would put
+// less padding before the image.
+bool IsEvenPadding1D(DenseElementsAttr paddings, uint64_t dimension,
+                     int64_t input_size, int64_t filter_size, int64_t stride,
+                     int64_t dilation) {
+  if (ShapedType::isDynamic(input_size)) return false;
+  const int64_t pad_before = GetPadding(paddings, dimension, 0);
+  const int64_t pad_after = GetPadding(paddings, dimension, 1);
+  const int64_t unpadded_size =
+      pad_before + input_size + pad_after - ((filter_size - 1) * dilation + 1);
+  return unpadded_size >= 0 &&
+         unpadded_size / stride + 1 == (input_size + stride - 1) / stride &&
+         (pad_after == pad_before || pad_after == pad_before + 1);
+}
+
 bool IsSamePadding(Attribute paddings_attr, Value input, Value output,
                    ArrayAttr strides_attr) {
   auto paddings = GetValidPadAttr(paddings_attr);
@@ -105,15 +121,20 @@ bool IsSamePadding(Attribute paddings_attr, Value input, Value output,
     return array[index].cast<IntegerAttr>().getInt();
   };
 
+  const auto is_same_padding = [&](unsigned dimension) {
+    const int64_t input_size = input_shape[dimension];
+    const int64_t filter_size = filter_shape[dimension - 1];
+    const int64_t stride = get_int(strides_attr, dimension);
+    const int64_t dilation = get_int(dilations_attr, dimension);
+    return IsSamePadding1D(paddings, dimension, input_size, filter_size, stride,
+                           dilation) ||
+           IsEvenPadding1D(paddings, dimension, input_size, filter_size, stride,
+                           dilation);
+  };
+
   // Check that there is no padding in the batch and channel dimensions
   // Functions defined in `padding.h`
-  return IsNoPadding(paddings, 0) &&
-         IsSamePadding1D(paddings, 1, input_shape[1], filter_shape[0],
-                         get_int(strides_attr, 1),
-                         get_int(dilations_attr, 1)) &&
-         IsSamePadding1D(paddings, 2, input_shape[2], filter_shape[1],
-                         get_int(strides_attr, 2),
-                         get_int(dilations_attr, 2)) &&
+  return IsNoPadding(paddings, 0) && is_same_padding(1) && is_same_padding(2) &&
          IsNoPadding(paddings, 3);
 }
 
-- 
2.43.0


From 1d8cf10b01f5daae705629964e826a04831fcf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 19/31] fix: recognize sign functions only if their shapes and
 constants are those of a binarization

---
 .../transforms/prepare_patterns_common.td     | 54 +++++++------------
 .../mlir/transforms/prepare_tf.cc             | 53 ++++++++++++++++++
 2 files changed, 72 insertions(+), 35 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
index 3eed4cf..8e42baa 100644
--- a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
@@ -6,62 +6,46 @@ include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.td"
 include "larq_compute_engine/mlir/ir/lce_ops.td"
 include "larq_compute_engine/mlir/transforms/op_removal_patterns.td"
 
+def BroadcastsTo : Constraint<CPred<"BroadcastsTo($0, $1)">>;
 class ConstantValue<string val> : AttrConstraint<CPred<"IsConstantValue($_self, " # val # ")">>;
 def CreateNoneValue : NativeCodeCall<
   "$_builder.create<TFL::NoValueOp>($0.getLoc(), $_builder.getUnitAttr())">;
 
-def CreateTFBroadcastToOp : NativeCodeCall<
-    "$_builder.create<TF::BroadcastToOp>("
-        "$0.getLoc(),"
-        "RankedTensorType::get("
-            "$0.getType().cast<RankedTensorType>().getShape(),"
-            "getElementTypeOrSelf($1.getType())),"
-        "$1,"
-        "$2)">;
-
-def CreateTFShapeOp : NativeCodeCall<
-    "$_builder.create<TF::ShapeOp>($0.getLoc(), $1, $2)">;
+def CanBroadcastCondition : Constraint<CPred<"CanBroadcastCondition($0, $1, $2, $3)">>;
+def BroadcastCondition : NativeCodeCall<"BroadcastCondition($_builder, $0, $1)">;
 
 // Base quantiser patterns that match the `tf.where` implementation of `ste_sign`.
 multiclass QuantDequantPatterns<Op SelectOp> {
   def : Pat<(SelectOp:$select_op
                 $cond,
-                (Arith_ConstantOp ConstantValue<"1.0f">),
-                (Arith_ConstantOp ConstantValue<"-1.0f">)),
+                (Arith_ConstantOp ConstantValue<"1.0f">:$on_true),
+                (Arith_ConstantOp ConstantValue<"-1.0f">:$on_false)),
             (LQ_DequantizeOp
                 (LQ_QuantizeOp
-                    (CreateTFBroadcastToOp
-                        $select_op,
-                        $cond,
-                        (CreateTFShapeOp
-                            $select_op,
-                            $select_op,
-                            /*use 32bit*/ConstBoolAttrFalse)))),
-            []>;
+                    (BroadcastCondition $select_op, $cond))),
+            [(CanBroadcastCondition $select_op, $cond, $on_true, $on_false)]>;
   def : Pat<(SelectOp:$select_op
                 $cond,
-                (Arith_ConstantOp ConstantValue<"-1.0f">),
-                (Arith_ConstantOp ConstantValue<"1.0f">)),
+                (Arith_ConstantOp ConstantValue<"-1.0f">:$on_true),
+                (Arith_ConstantOp ConstantValue<"1.0f">:$on_false)),
             (LQ_DequantizeOp
                 (LQ_QuantizeOp
-                    (CreateTFBroadcastToOp
-                        $select_op,
-                        (TF_LogicalNotOp $cond),
-                        (CreateTFShapeOp
-                            $select_op,
-                            $select_op,
-                            /*use 32bit*/ConstBoolAttrFalse)))),
-            []>;
+                    (BroadcastCondition $select_op, (TF_LogicalNotOp $cond)))),
+            [(CanBroadcastCondition $select_op, $cond, $on_true, $on_false)]>;
 }
 foreach SelectOp = [TF_SelectOp, TF_SelectV2Op]<Op> in
   defm : QuantDequantPatterns<SelectOp>;
 
 // A fallback for the old version of `ste_sign` that uses a specific `tf.sign`
 // based implementation of `larq.math.sign`.
-def : Pat<(TF_SignOp (TF_AddV2Op (TF_SignOp $arg), $c)),
-          (LQ_DequantizeOp (LQ_QuantizeOp $arg)), []>;
-def : Pat<(TF_SignOp (TF_AddV2Op $c, (TF_SignOp $arg))),
-          (LQ_DequantizeOp (LQ_QuantizeOp $arg)), []>;
+def ConstantBetweenZeroAndOne : AttrConstraint<CPred<"IsConstantBetweenZeroAndOne($_self)">>;
+def HasShapeAndChannels : Constraint<CPred<"HasShapeAndChannels($0, $1)">>;
+def : Pat<(TF_SignOp:$output (TF_AddV2Op (TF_SignOp $arg), (Arith_ConstantOp ConstantBetweenZeroAndOne:$c))),
+          (LQ_DequantizeOp (LQ_QuantizeOp $arg)),
+          [(HasShapeAndChannels $arg, $output), (BroadcastsTo $c, $arg)]>;
+def : Pat<(TF_SignOp:$output (TF_AddV2Op (Arith_ConstantOp ConstantBetweenZeroAndOne:$c), (TF_SignOp $arg))),
+          (LQ_DequantizeOp (LQ_QuantizeOp $arg)),
+          [(HasShapeAndChannels $arg, $output), (BroadcastsTo $c, $arg)]>;
 
 // Copied from legalize_patterns.td
 class I32VectorElementsAttr<int len> : ElementsAttrBase<
diff --git a/larq_compute_engine/mlir/transforms/prepare_tf.cc b/larq_compute_engine/mlir/transforms/prepare_tf.cc
index 9627b41..662c99c 100644
--- a/larq_compute_engine/mlir/transforms/prepare_tf.cc
+++ b/larq_compute_engine/mlir/transforms/prepare_tf.cc
@@ -38,6 +38,59 @@ struct PrepareLCE
                        clEnumValN(LCETarget::XCORE, "xcore", "XCORE target"))};
 };
 
+// Checks that the result of a select operation of constants has a shape that
+// the condition can be broadcasted to. If this shape is not entirely known, it
+// has to be the one of the condition.
+bool CanBroadcastCondition(Value select, Value cond, Attribute on_true,
+                           Attribute on_false) {
+  const auto type = select.getType().dyn_cast<RankedTensorType>();
+  const auto cond_type = cond.getType().dyn_cast<RankedTensorType>();
+  if (!type || !cond_type || type.getRank() == 0) return false;
+  // `tf.Select` selects rows of its operands with a vector of conditions
+  if (isa<TF::SelectOp>(select.getDefiningOp()) && cond_type.getRank() == 1 &&
+      type.getRank() != 1) {
+    return false;
+  }
+  if (type.hasStaticShape()) return true;
+  const auto is_scalar = [](Attribute attr) {
+    const auto attr_type = attr.cast<ElementsAttr>().getShapedType();
+    return attr_type.getRank() == 0;
+  };
+  return cond_type.getRank() == type.getRank() && is_scalar(on_true) &&
+         is_scalar(on_false) && !ShapedType::isDynamic(type.getShape().back());
+}
+
+// Broadcasts the condition of a select operation to the shape of its result.
+Value BroadcastCondition(OpBuilder& builder, Value select, Value cond) {
+  const auto type = select.getType().cast<RankedTensorType>();
+  if (!type.hasStaticShape()) return cond;
+  const auto loc = select.getLoc();
+  const Value shape = builder.create<arith::ConstantOp>(
+      loc, builder.getI64TensorAttr(type.getShape()));
+  return builder.create<TF::BroadcastToOp>(
+      loc,
+      RankedTensorType::get(type.getShape(),
+                            getElementTypeOrSelf(cond.getType())),
+      cond, shape);
+}
+
+// Checks that adding the constant to a sign moves zeros, but nothing else, to
+// another sign.
+bool IsConstantBetweenZeroAndOne(Attribute attr) {
+  const auto values = attr.dyn_cast<DenseElementsAttr>();
+  return values && values.getElementType().isF32() &&
+         llvm::all_of(values.getValues<float>(),
+                      [](float value) { return value > 0.0f && value < 1.0f; });
+}
+
+// Checks that both values have the same ranked type with a known number of
+// channels.
+bool HasShapeAndChannels(Value a, Value b) {
+  const auto type = a.getType().dyn_cast<RankedTensorType>();
+  return type && type == b.getType() && type.getRank() > 0 &&
+         !ShapedType::isDynamic(type.getShape().back());
+}
+
 DenseElementsAttr GetConstantVector(TypedAttr filter, float val) {
   auto filter_type = filter.getType().cast<ShapedType>();
   auto filter_shape = filter_type.getShape();
-- 
2.43.0


From 5a11421c69adcf543fd2fa94790b1b90e9f8f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 20/31] fix: do not inject binary convolutions for weights that
 are not finite or unknown numbers of channels

---
 larq_compute_engine/mlir/ir/lce_ops.cc            | 12 ++++++++++--
 larq_compute_engine/mlir/transforms/prepare_tf.cc | 11 +++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/larq_compute_engine/mlir/ir/lce_ops.cc b/larq_compute_engine/mlir/ir/lce_ops.cc
index 3042083..841cbdb 100644
--- a/larq_compute_engine/mlir/ir/lce_ops.cc
+++ b/larq_compute_engine/mlir/ir/lce_ops.cc
@@ -65,10 +65,18 @@ std::vector<uint8_t> BMaxPool2dOp::buildCustomOptions() {
 
 void QuantizeOp::build(OpBuilder& builder, OperationState& state, Value x) {
   state.addOperands(x);
-  const auto existing_shape = x.getType().cast<ShapedType>().getShape();
+  const auto existing_type = x.getType().cast<ShapedType>();
+  if (!existing_type.hasRank()) {
+    state.addTypes(UnrankedTensorType::get(builder.getIntegerType(32)));
+    return;
+  }
+  const auto existing_shape = existing_type.getShape();
   const auto channels = existing_shape[existing_shape.size() - 1];
   std::vector<int64_t> shape = existing_shape.drop_back();
-  shape.push_back(compute_engine::core::bitpacking::GetBitpackedSize(channels));
+  shape.push_back(
+      ShapedType::isDynamic(channels)
+          ? channels
+          : compute_engine::core::bitpacking::GetBitpackedSize(channels));
   state.addTypes(RankedTensorType::get(shape, builder.getIntegerType(32)));
 }
 
diff --git a/larq_compute_engine/mlir/transforms/prepare_tf.cc b/larq_compute_engine/mlir/transforms/prepare_tf.cc
index 662c99c..2060de9 100644
--- a/larq_compute_engine/mlir/transforms/prepare_tf.cc
+++ b/larq_compute_engine/mlir/transforms/prepare_tf.cc
@@ -124,7 +124,7 @@ bool IsBinaryFilter(TypedAttr filter_attr) {
   auto element_type = filter_type.getElementType();
   if (!element_type.isF32()) return false;
   auto shape = filter_type.getShape();
-  if (shape.size() != 4) return false;
+  if (shape.size() != 4 || filter.empty()) return false;
 
   for (std::size_t h = 0; h < shape[0]; ++h) {
     for (std::size_t w = 0; w < shape[1]; ++w) {
@@ -134,7 +134,9 @@ bool IsBinaryFilter(TypedAttr filter_attr) {
           if (std::abs(scale) <= std::numeric_limits<float>::epsilon())
             return false;
           auto value = filter.getValues<float>()[{h, w, i, o}];
-          if (std::abs(std::abs(value / scale) - 1.0f) > 0.005f) return false;
+          // Also fails for values that are not finite
+          if (!(std::abs(std::abs(value / scale) - 1.0f) <= 0.005f))
+            return false;
         }
       }
     }
@@ -196,9 +198,10 @@ bool IsSamePadding(Attribute paddings_attr, Value input, Value output,
 // shapes are incompatible (specifically, if the shapes imply a grouped
 // convolution with a group-shape that is not a multiple of 32).
 bool HasValidFilterShape(Value input_val, Value filter_val) {
-  auto input_type = input_val.getType().cast<ShapedType>();
-  auto input_shape_vector = input_type.getShape();
+  auto input_shape_vector = GetShape4D(input_val);
+  if (input_shape_vector.empty()) return false;
   auto total_input_channels = input_shape_vector[input_shape_vector.size() - 1];
+  if (ShapedType::isDynamic(total_input_channels)) return false;
   auto filter_type = filter_val.getType().cast<ShapedType>();
   auto filter_shape_vector = filter_type.getShape();
   auto filter_input_channels =
-- 
2.43.0


From b8a703cbbe990cf1965ea7f10295a24146ea86d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:10 +0000
Subject: [PATCH 21/31] fix: serialize and translate every activation function
 Bconv2d allows

TANH and SIGN_BIT are valid activations of lq.Bconv2d, but serializing them
fell off the end of a string switch.
---
 larq_compute_engine/mlir/ir/lce_ops.cc                  | 4 +++-
 larq_compute_engine/mlir/transforms/translate_tflite.cc | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/ir/lce_ops.cc b/larq_compute_engine/mlir/ir/lce_ops.cc
index 841cbdb..618093c 100644
--- a/larq_compute_engine/mlir/ir/lce_ops.cc
+++ b/larq_compute_engine/mlir/ir/lce_ops.cc
@@ -21,7 +21,9 @@ static tflite::ActivationFunctionType ConvertActivationAttr(
       .Case("NONE", tflite::ActivationFunctionType_NONE)
       .Case("RELU", tflite::ActivationFunctionType_RELU)
       .Case("RELU_N1_TO_1", tflite::ActivationFunctionType_RELU_N1_TO_1)
-      .Case("RELU6", tflite::ActivationFunctionType_RELU6);
+      .Case("RELU6", tflite::ActivationFunctionType_RELU6)
+      .Case("TANH", tflite::ActivationFunctionType_TANH)
+      .Case("SIGN_BIT", tflite::ActivationFunctionType_SIGN_BIT);
 }
 
 #define GET_OP_CLASSES
diff --git a/larq_compute_engine/mlir/transforms/translate_tflite.cc b/larq_compute_engine/mlir/transforms/translate_tflite.cc
index 45974be..1b9ac38 100644
--- a/larq_compute_engine/mlir/transforms/translate_tflite.cc
+++ b/larq_compute_engine/mlir/transforms/translate_tflite.cc
@@ -12,6 +12,8 @@ static llvm::StringRef ConvertActivationAttr(
   if (af_type == tflite::ActivationFunctionType_RELU_N1_TO_1)
     return "RELU_N1_TO_1";
   if (af_type == tflite::ActivationFunctionType_RELU6) return "RELU6";
+  if (af_type == tflite::ActivationFunctionType_TANH) return "TANH";
+  if (af_type == tflite::ActivationFunctionType_SIGN_BIT) return "SIGN_BIT";
 }
 
 static llvm::StringRef ConvertPaddingAttr(tflite::Padding padding_type) {
-- 
2.43.0


From 6de63bc5c93872ab2621788403279d4d3d4036b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:18 +0000
Subject: [PATCH 22/31] fix: remove pass-through operators only if the type
 stays the same

Replacing e.g. a PlaceholderWithDefault that is returned by a value of another
(more or less refined) type made the function invalid.
---
 .../mlir/transforms/op_removal_patterns.td           | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/op_removal_patterns.td b/larq_compute_engine/mlir/transforms/op_removal_patterns.td
index 3508852..24fca3c 100644
--- a/larq_compute_engine/mlir/transforms/op_removal_patterns.td
+++ b/larq_compute_engine/mlir/transforms/op_removal_patterns.td
@@ -20,5 +20,13 @@ def : Pat<(TF_PlaceholderWithDefaultOp $arg), (TF_IdentityOp $arg)>;
 //===----------------------------------------------------------------------===//
 // Op removal patterns.
 //===----------------------------------------------------------------------===//
-def : Pat<(TF_IdentityOp $arg), (replaceWithValue $arg)>;
-def : Pat<(TF_IdentityNOp $arg), (replaceWithValue $arg)>;
+
+// The users of a result may depend on its type (a return for example), so a
+// result can only be replaced by a value of the same type.
+def SameTypeAs : Constraint<CPred<"$0.getType() == $1.getType()">>;
+def SameTypesAs : Constraint<CPred<"$0.getTypes() == $1.getTypes()">>;
+
+def : Pat<(TF_IdentityOp:$res $arg), (replaceWithValue $arg),
+          [(SameTypeAs $res, $arg)]>;
+def : Pat<(TF_IdentityNOp:$res $arg), (replaceWithValue $arg),
+          [(SameTypesAs $res, $arg)]>;
-- 
2.43.0


From 52c58abf762112b97e525abbac3afcb7add6b3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 23/31] fix: quantize detection postprocessing only if its
 inputs are per-tensor int8

---
 .../mlir/transforms/detection_postprocess.cc  | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/detection_postprocess.cc b/larq_compute_engine/mlir/transforms/detection_postprocess.cc
index 4dfe6cd..8bb13dc 100644
--- a/larq_compute_engine/mlir/transforms/detection_postprocess.cc
+++ b/larq_compute_engine/mlir/transforms/detection_postprocess.cc
@@ -77,6 +77,23 @@ struct RemoveDequantizeBeforePostProcess : public OpRewritePattern<CustomOp> {
       });
     }
 
+    // Verify that all inputs are int8 with a single scale and zero point
+    for (auto dequantize_op :
+         {original_boxes_dequantize_op, original_scores_dequantize_op,
+          original_anchors_dequantize_op}) {
+      auto quantized_type = dequantize_op.getInput()
+                                .getType()
+                                .cast<ShapedType>()
+                                .getElementType()
+                                .dyn_cast<quant::UniformQuantizedType>();
+      if (!quantized_type || !quantized_type.isSigned() ||
+          quantized_type.getStorageTypeIntegralWidth() != 8) {
+        return rewriter.notifyMatchFailure(detection_op, [&](Diagnostic& diag) {
+          diag << "expected int8 quantized inputs";
+        });
+      }
+    }
+
     // Verify the output types of the current detection op:
     // Output type #0: [int32] detection boxes (scaled by 2048)
     // Output type #1: [int32] detection class IDs
@@ -130,8 +147,8 @@ struct RemoveDequantizeBeforePostProcess : public OpRewritePattern<CustomOp> {
     auto new_op_output_types = SmallVector<Type, 4>{};
     for (auto i = 0; i < 4; ++i) {
       auto value = original_detection_outputs[i];
-      auto shape = value.getType().cast<ShapedType>().getShape();
-      auto new_output_type = RankedTensorType::get(shape, output_data_types[i]);
+      auto new_output_type =
+          value.getType().cast<ShapedType>().clone(output_data_types[i]);
       new_op_output_types.push_back(new_output_type);
     }
 
-- 
2.43.0


From dfa2c2ff7b41378b457b8a55fde1365ac2c9c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 24/31] fix: fuse quantization only into binary operators that
 support the types

---
 .../mlir/transforms/quantize.cc               | 13 ++++++-
 .../mlir/transforms/quantize_patterns.td      | 36 +++++++++++++++----
 2 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/quantize.cc b/larq_compute_engine/mlir/transforms/quantize.cc
index bc970b7..587bf47 100644
--- a/larq_compute_engine/mlir/transforms/quantize.cc
+++ b/larq_compute_engine/mlir/transforms/quantize.cc
@@ -1,7 +1,9 @@
 // This transformation pass applies quantization on Larq dialect.
 
 #include "larq_compute_engine/mlir/ir/lce_ops.h"
+#include "mlir/Dialect/Quant/QuantTypes.h"
 #include "mlir/IR/PatternMatch.h"
+#include "mlir/IR/TypeUtilities.h"
 #include "mlir/Pass/Pass.h"
 #include "mlir/Transforms/GreedyPatternRewriteDriver.h"
 #include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
@@ -23,9 +25,18 @@ struct LCEQuantizePass
 };
 
 namespace lce_quantize {
-#include "larq_compute_engine/mlir/transforms/generated_quantize.inc"
+
+// Returns whether the type is one of tensors that are quantized with a single
+// scale and zero point in the given number of bits.
+static bool IsPerTensorQuantized(Type type, unsigned bits) {
+  auto quantized_type =
+      getElementTypeOrSelf(type).dyn_cast<quant::UniformQuantizedType>();
+  return quantized_type && quantized_type.getStorageTypeIntegralWidth() == bits;
 }
 
+#include "larq_compute_engine/mlir/transforms/generated_quantize.inc"
+}  // namespace lce_quantize
+
 void LCEQuantizePass::runOnOperation() {
   RewritePatternSet patterns(&getContext());
   auto func = getOperation();
diff --git a/larq_compute_engine/mlir/transforms/quantize_patterns.td b/larq_compute_engine/mlir/transforms/quantize_patterns.td
index 553734f..7d1840b 100644
--- a/larq_compute_engine/mlir/transforms/quantize_patterns.td
+++ b/larq_compute_engine/mlir/transforms/quantize_patterns.td
@@ -3,6 +3,22 @@ include "tensorflow/compiler/mlir/lite/ir/tfl_ops.td"
 include "larq_compute_engine/mlir/ir/lce_ops.td"
 
 
+// Checks if the value is a float tensor, i.e. not quantized (yet).
+def IsFloat : Constraint<CPred<"getElementTypeOrSelf($0.getType()).isF32()">>;
+
+// Checks if the value is quantized with one scale and zero point for the whole
+// tensor, in the given number of bits.
+class IsQuantizedTo<int width> : Constraint<CPred<
+    "IsPerTensorQuantized($0.getType(), " # width # ")">>;
+// The types that `lq.Quantize` and `lq.Dequantize` can consume or produce.
+def IsLCEQuantized : Constraint<CPred<
+    "IsPerTensorQuantized($0.getType(), 8) || "
+    "IsPerTensorQuantized($0.getType(), 16)">>;
+def IsLCEQuantizedOrF16 : Constraint<CPred<
+    "IsPerTensorQuantized($0.getType(), 8) || "
+    "IsPerTensorQuantized($0.getType(), 16) || "
+    "getElementTypeOrSelf($0.getType()).isF16()">>;
+
 def : Pat<(LQ_Bconv2dOp
               $input,
               $filter,
@@ -31,12 +47,14 @@ def : Pat<(LQ_Bconv2dOp
               $pad_values,
               $padding,
               $stride_height,
-              $stride_width)>;
+              $stride_width),
+          [(IsFloat $post_activation_multiplier),
+           (IsFloat $post_activation_bias)]>;
 
 // Checks if the value has only one user.
 def HasOneUse : Constraint<CPred<"$0.hasOneUse()">>;
 
-def : Pat<(TFL_QuantizeOp
+def : Pat<(TFL_QuantizeOp:$quantized_output
             (LQ_Bconv2dOp:$output
               $input,
               $filter,
@@ -65,12 +83,18 @@ def : Pat<(TFL_QuantizeOp
               $padding,
               $stride_height,
               $stride_width),
-          [(HasOneUse $output)]>;
+          [(HasOneUse $output),
+           (IsFloat $output),
+           (IsQuantizedTo<8> $quantized_output)]>;
 
-def : Pat<(TFL_QuantizeOp (LQ_DequantizeOp:$output $input), $qtype),
+def : Pat<(TFL_QuantizeOp:$quantized_output
+            (LQ_DequantizeOp:$output $input), $qtype),
           (LQ_DequantizeOp $input),
-          [(HasOneUse $output)]>;
+          [(HasOneUse $output),
+           (IsFloat $output),
+           (IsLCEQuantized $quantized_output)]>;
 
 def : Pat<(LQ_QuantizeOp (TFL_DequantizeOp:$output $input)),
           (LQ_QuantizeOp $input),
-          [(HasOneUse $output)]>;
+          [(HasOneUse $output),
+           (IsLCEQuantizedOrF16 $input)]>;
-- 
2.43.0


From d15dd1500ab256a7bc15a78bf1bcefe1d1489617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 25/31] fix: reject unsupported activations and paddings in the
 runtime operators

Unknown or unsupported fused activations were taken as none, and unknown
or missing paddings gave empty outputs.
---
 larq_compute_engine/tflite/kernels/bconv2d.cc  | 18 ++++++++++++++++--
 larq_compute_engine/tflite/kernels/bmaxpool.cc |  5 ++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index fa0432f..72a4ef8 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -111,6 +111,10 @@ void* Init(TfLiteContext* context, const char* buffer, std::size_t length) {
 
   bconv2d_params->padding_type =
       ConvertPadding((Padding)m["padding"].AsInt32());
+  if (bconv2d_params->padding_type == kTfLitePaddingUnknown) {
+    TF_LITE_KERNEL_LOG(context, "Attribute padding must be SAME or VALID.");
+    return op_data;
+  }
   bconv2d_params->pad_value = m["pad_values"].AsInt32();
   if (bconv2d_params->pad_value != 0 && bconv2d_params->pad_value != 1) {
     TF_LITE_KERNEL_LOG(context, "Attribute pad_values must be 0 or 1.");
@@ -122,8 +126,18 @@ void* Init(TfLiteContext* context, const char* buffer, std::size_t length) {
   // attribute added to the op in the converter.
   bconv2d_params->channels_in = m["channels_in"].AsInt32();
 
-  op_data->fused_activation_function = ConvertActivation(
-      (ActivationFunctionType)m["fused_activation_function"].AsInt32());
+  const std::int32_t fused_activation_function =
+      m["fused_activation_function"].AsInt32();
+  op_data->fused_activation_function =
+      ConvertActivation((ActivationFunctionType)fused_activation_function);
+  if (op_data->fused_activation_function == kTfLiteActNone &&
+      fused_activation_function != ActivationFunctionType_NONE) {
+    TF_LITE_KERNEL_LOG(
+        context,
+        "Attribute fused_activation_function must be NONE, RELU, RELU_N1_TO_1 "
+        "or RELU6.");
+    return op_data;
+  }
 
   // It's not possible to return an error code in this method. If we get to here
   // without returning early, initialisation has succeeded without error, and so
diff --git a/larq_compute_engine/tflite/kernels/bmaxpool.cc b/larq_compute_engine/tflite/kernels/bmaxpool.cc
index 8ff7d6f..834dc0f 100644
--- a/larq_compute_engine/tflite/kernels/bmaxpool.cc
+++ b/larq_compute_engine/tflite/kernels/bmaxpool.cc
@@ -28,7 +28,9 @@ void* Init(TfLiteContext* context, const char* buffer, size_t length) {
   poolparams->filter_width = m["filter_width"].AsInt32();
   poolparams->stride_height = m["stride_height"].AsInt32();
   poolparams->stride_width = m["stride_width"].AsInt32();
-  poolparams->padding_type = ConvertPadding((Padding)m["padding"].AsInt32());
+  poolparams->padding_type =
+      m["padding"].IsNull() ? kTfLitePaddingUnknown
+                            : ConvertPadding((Padding)m["padding"].AsInt32());
 
   return poolparams;
 }
@@ -48,6 +50,7 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   TF_LITE_ENSURE_EQ(context, NumDimensions(input), 4);
   TF_LITE_ENSURE_EQ(context, input->type, kTfLiteInt32);
   TF_LITE_ENSURE_EQ(context, output->type, kTfLiteInt32);
+  TF_LITE_ENSURE(context, poolparams->padding_type != kTfLitePaddingUnknown);
   TF_LITE_ENSURE(context, poolparams->stride_height != 0);
   TF_LITE_ENSURE(context, poolparams->stride_width != 0);
   TF_LITE_ENSURE(context, poolparams->filter_height != 0);
-- 
2.43.0


From 3f8358fdde1c7a1fe4dc7576a2bd1935813117a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 26/31] fix: report conversion failures that leave no
 diagnostic

A pass that fails without emitting a diagnostic leaves the scoped handler
with an OK status, so the conversion returned an empty model as a success.
---
 larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc b/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc
index be080ce..05c0354 100644
--- a/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc
+++ b/larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc
@@ -93,7 +93,8 @@ absl::Status ConvertTFExecutorToTFLOrFlatbuffer(
 
   tensorflow::AddPreVariableFreezingTFToLCETFLConversionPasses(&pass_manager);
   if (mlir::failed(pass_manager.run(module))) {
-    return statusHandler.ConsumeStatus();
+    return statusHandler.Combine(
+        absl::InternalError("Pre-variable-freezing conversion passes failed."));
   }
 
   // Freeze variables if a session is provided.
@@ -118,7 +119,8 @@ absl::Status ConvertTFExecutorToTFLOrFlatbuffer(
     pass_manager.addPass(mlir::odml::createPrintOpStatsPass(
         mlir::odml::GetAcceptedTFLiteDialects()));
     if (mlir::failed(pass_manager.run(module))) {
-      return statusHandler.ConsumeStatus();
+      return statusHandler.Combine(
+          absl::InternalError("Could not report the converted ops."));
     }
 
     llvm::raw_string_ostream os(*result);
-- 
2.43.0


From eaed0d651aa7bf373d49b947ea4e95b6219a79cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:41 +0000
Subject: [PATCH 27/31] fix: legalize binary operators before splitting merged
 operands

The legalization's greedy rewrite merges equal constants, so the states that
SplitMergedOperandsPass had separated became one tensor again.
---
 larq_compute_engine/mlir/tf_tfl_passes.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/mlir/tf_tfl_passes.cc b/larq_compute_engine/mlir/tf_tfl_passes.cc
index 7139955..56ace6d 100644
--- a/larq_compute_engine/mlir/tf_tfl_passes.cc
+++ b/larq_compute_engine/mlir/tf_tfl_passes.cc
@@ -267,6 +267,11 @@ void AddPostVariableFreezingTFToLCETFLConversionPasses(
   }
   pass_manager->addPass(mlir::createCanonicalizerPass());
 
+  // The legalization merges equal constants, so it has to run before
+  // SplitMergedOperandsPass.
+  pass_manager->addNestedPass<mlir::func::FuncOp>(
+      mlir::TFL::CreateLegalizeLCEPass());
+
   // This pass should be always at the end of the model
   // conversion (even after quantization). Some TFL ops like unidirectional
   // sequence lstm will have stateful operands and some optimization passes
@@ -285,9 +290,6 @@ void AddPostVariableFreezingTFToLCETFLConversionPasses(
   pass_manager->addPass(mlir::TFL::CreateWhileOutlinePass());
   pass_manager->addNestedPass<mlir::func::FuncOp>(
       mlir::TFL::CreateRuntimeVerifyPass());
-
-  pass_manager->addNestedPass<mlir::func::FuncOp>(
-      mlir::TFL::CreateLegalizeLCEPass());
 }
 
 }  // namespace tensorflow
-- 
2.43.0


From 00b0be5d05692bedc1bd961bb4bc3f330f5592b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 28/31] fix: allow functions with binary operators to be
 inlined

Branches whose condition becomes known during the conversion are inlined after
the binary operators have been injected; without an inliner interface of the lq
dialect they stayed separate functions.
---
 larq_compute_engine/mlir/BUILD         |  1 +
 larq_compute_engine/mlir/ir/lce_ops.cc | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/larq_compute_engine/mlir/BUILD b/larq_compute_engine/mlir/BUILD
index c74cc19..7bb0631 100644
--- a/larq_compute_engine/mlir/BUILD
+++ b/larq_compute_engine/mlir/BUILD
@@ -264,6 +264,7 @@ cc_library(
         "@flatbuffers",
         "@llvm-project//mlir:QuantOps",
         "@llvm-project//mlir:SideEffectInterfaces",
+        "@llvm-project//mlir:TransformUtils",
         "@org_tensorflow//tensorflow/lite/schema:schema_fbs",
     ],
     alwayslink = 1,
diff --git a/larq_compute_engine/mlir/ir/lce_ops.cc b/larq_compute_engine/mlir/ir/lce_ops.cc
index 618093c..1b785ef 100644
--- a/larq_compute_engine/mlir/ir/lce_ops.cc
+++ b/larq_compute_engine/mlir/ir/lce_ops.cc
@@ -4,6 +4,7 @@
 #include "larq_compute_engine/core/bitpacking/bitpack.h"
 #include "larq_compute_engine/mlir/transforms/bitpack.h"
 #include "mlir/Dialect/Arith/IR/Arith.h"
+#include "mlir/Transforms/InliningUtils.h"
 #include "tensorflow/lite/schema/schema_generated.h"
 
 // Generated dialect defs.
@@ -96,11 +97,22 @@ OpFoldResult DequantizeOp::fold(FoldAdaptor adaptor) {
   return mlir::TFL::Unpack(operands[0], result_type);
 }
 
+// The conversion injects binary operators before its last inlining, so
+// functions that contain them have to be inlinable.
+struct LarqInlinerInterface : public DialectInlinerInterface {
+  using DialectInlinerInterface::DialectInlinerInterface;
+
+  bool isLegalToInline(Operation*, Region*, bool, IRMapping&) const final {
+    return true;
+  }
+};
+
 void LarqDialect::initialize() {
   addOperations<
 #define GET_OP_LIST
 #include "larq_compute_engine/mlir/ir/lce_ops.cc.inc"
       >();
+  addInterfaces<LarqInlinerInterface>();
 }
 
 Operation* LarqDialect::materializeConstant(OpBuilder& builder, Attribute value,
-- 
2.43.0


From f25cab30c23fcfb90e418a6824e171d3530c97d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:16 +0000
Subject: [PATCH 29/31] fix: choose the 16-bit AArch64 kernels by the size of
 the filter, not of the input

---
 larq_compute_engine/core/indirect_bgemm/select_kernel.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/core/indirect_bgemm/select_kernel.h b/larq_compute_engine/core/indirect_bgemm/select_kernel.h
index 7f4c20a..065d868 100644
--- a/larq_compute_engine/core/indirect_bgemm/select_kernel.h
+++ b/larq_compute_engine/core/indirect_bgemm/select_kernel.h
@@ -42,9 +42,12 @@ inline std::unique_ptr<Kernel> SelectRuntimeKernel(
   // on whether the bitpacked number of input channels is a multiple of 4, 2, or
   // 1, and whether that multiple is 1 or more than 1.
 
-  const auto max_accumulator_value = bitpacking_bitwidth *
-                                     bitpacked_input_shape.FlatSize() /
-                                     bconv2d_params->groups;
+  // Padding pixels count as well, so what matters is the size of the filter and
+  // not the size of the input.
+  const auto max_accumulator_value =
+      bitpacking_bitwidth * bconv2d_params->filter_height *
+      bconv2d_params->filter_width * bitpacked_input_shape.Dims(3) /
+      bconv2d_params->groups;
   const bool fits_in_uint16_accumulators =
       max_accumulator_value < std::numeric_limits<std::uint16_t>::max();
 
-- 
2.43.0


From 8e310e45f9faa270c6843f663d05d1ab46cad940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:16 +0000
Subject: [PATCH 30/31] fix: enough padding for the 8-channel reads of the
 AArch64 indirect kernels

---
 larq_compute_engine/core/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larq_compute_engine/core/types.h b/larq_compute_engine/core/types.h
index 24da7d4..ed23522 100644
--- a/larq_compute_engine/core/types.h
+++ b/larq_compute_engine/core/types.h
@@ -35,7 +35,7 @@ inline bool FastBoundsCheck(const int index, const int limit) {
 // In our kernels we may occasionally read (but never write) beyond the end of
 // an array. This is the maximum number of extra bytes that will be read, and
 // should be added as padding to the end of tensor allocations.
-#define LCE_EXTRA_BYTES 16
+#define LCE_EXTRA_BYTES 32
 
 // Define these once here, so they can be included everywhere.
 using TBitpacked = std::int32_t;
-- 
2.43.0


From 0c9278476ead188bd5be01cd569dbce72676f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:50 +0000
Subject: [PATCH 31/31] fix: round int8 outputs to nearest in the Arm32 kernel

---
 .../core/bgemm/kernels_arm32.h                | 42 +++++++++++--------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/larq_compute_engine/core/bgemm/kernels_arm32.h b/larq_compute_engine/core/bgemm/kernels_arm32.h
index d527dcf..2d5239c 100644
--- a/larq_compute_engine/core/bgemm/kernels_arm32.h
+++ b/larq_compute_engine/core/bgemm/kernels_arm32.h
@@ -368,24 +368,30 @@ void BinaryKernelNeon4x4(BinaryKernelParams<DstScalar, 4, 4>& params) {
 
 IF_INT8_OUTPUT(
       // Convert to signed integer, rounding to nearest.
-      //     Arm32 NEON has an instruction (vcvtr) to convert from float->int
-      // with rounding-to-nearest behaviour, but for some reason when used here
-      // truncation (rounding-to-zero) behaviour was observed instead. It's
-      // unclear what the issue is - perhaps QEMU doesn't correctly emulate the
-      // rounding behaviour?
-      //     The work-around is to first convert from float to fixed-point (24
-      // integer bits, 8 fractional bits)...
-      "vcvt.s32.f32 q8, q8, #8\n"
-      "vcvt.s32.f32 q9, q9, #8\n"
-      "vcvt.s32.f32 q10, q10, #8\n"
-      "vcvt.s32.f32 q11, q11, #8\n"
-      // ...and then use "vector saturating shift right and narrow, by immediate
-      // value, with rounding" instructions to round to the nearest integer and
-      // simultaneously narrow the result to int16.
-      "vqrshrn.s32 d16, q8, #8\n"
-      "vqrshrn.s32 d18, q9, #8\n"
-      "vqrshrn.s32 d20, q10, #8\n"
-      "vqrshrn.s32 d22, q11, #8\n"
+      //     The Arm32 NEON conversions from float->int round towards zero, and a
+      // conversion to fixed-point followed by a rounding shift would round
+      // negative values slightly below a tie (e.g. -2.5 - 2^-9) in the wrong
+      // direction, as the conversion already drops the bits behind the tie.
+      //     Instead, add 1.5 * 2^23, so that the addition itself rounds to the
+      // nearest integer, and subtract the bits of that constant. Values outside
+      // of the range in which this is exact keep their sign and are saturated
+      // below.
+      "vmov.i32 q12, #0x4b000000\n"
+      "vorr.i32 q12, #0x00400000\n"
+      "vadd.f32 q8, q8, q12\n"
+      "vadd.f32 q9, q9, q12\n"
+      "vadd.f32 q10, q10, q12\n"
+      "vadd.f32 q11, q11, q12\n"
+      "vqsub.s32 q8, q8, q12\n"
+      "vqsub.s32 q9, q9, q12\n"
+      "vqsub.s32 q10, q10, q12\n"
+      "vqsub.s32 q11, q11, q12\n"
+
+      // Narrow to int16 with "signed saturating extract narrow" instructions.
+      "vqmovn.s32 d16, q8\n"
+      "vqmovn.s32 d18, q9\n"
+      "vqmovn.s32 d20, q10\n"
+      "vqmovn.s32 d22, q11\n"
 
       // Narrow to int8 with "signed saturating extract narrow" instructions.
       "vqmovn.s16 d16, q8\n"
-- 
2.43.0

