#!/usr/bin/env python3
"""Single source of properties.jsonl (run by hand after editing)."""
import json, os
C='larq_compute_engine/core/'; T='larq_compute_engine/tflite/'; M='larq_compute_engine/mlir/'; X=M+'transforms/'
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    d['anchors'].update(kw); P.append(d)

p('K01','Binary convolution computes the exact +/-1 convolution',
 'For every supported geometry, the LceBconv2d operator with float output returns, for each output element, multiplier*activation(sum of products of the +/-1 input and +/-1 weight values under the window)+bias. Positions outside the image count as +1 (one-padding) or contribute nothing (zero-padding), the output has the standard SAME/VALID shape, and grouped convolutions only see the channels of their own group.',
 ['inputs','configurations'],'all input/filter sizes, channel counts, groups, strides, dilations, paddings, activations and bit contents',
 'The kernel tests run a sampled grid on random data and compare against TFLite float convolution on a Bazel build that does not run here; corner geometries (filter larger than the image, dilation, channels not a multiple of 32) are mostly unsampled.',
 [C+'bconv2d/reference.h',C+'bconv2d/output_transform.h',T+'kernels/bconv2d.cc',C+'bconv2d/params.h'],
 [('reference binary convolution loop',C+'bconv2d/reference.h'),('backtransform, clamp, multiplier and bias',C+'bconv2d/output_transform.h'),('padding and output-shape computation',T+'kernels/bconv2d.cc')])
p('K02','All binary-convolution kernel implementations agree',
 'Whenever more than one of the registered LceBconv2d implementations (reference, im2col/BGEMM, indirect BGEMM) accepts a configuration, they produce the same output tensor for it: bit-identical, except that with zero-padding the order of float additions in the border correction may round differently. This includes zero-padded convolutions, where the optimized kernels correct for the padding after the fact, and every output type.',
 ['inputs','configurations'],'all geometries, paddings, activations, output types, channel counts around the packing and tile widths, and bit contents',
 'Sampled random comparison only; the remainder-tile, correction-cache and padded-border paths are input-shape dependent, and a wrong border correction is invisible on interior pixels.',
 [C+'bconv2d/optimized_bgemm.h',C+'bconv2d/optimized_indirect_bgemm.h',C+'bconv2d/zero_padding_correction.h',C+'indirect_bgemm/kernel_4x2_portable.h',C+'indirect_bgemm/kernel.h',C+'bgemm/bgemm.h'],
 [('im2col + BGEMM',C+'bconv2d/optimized_bgemm.h'),('indirect BGEMM',C+'indirect_bgemm/kernel.h'),('zero padding correction cache',C+'bconv2d/zero_padding_correction.h')])
p('K03','Bitpacked convolution output is exactly the thresholded accumulator',
 'With bitpacked output, output channel c of a pixel is the 1-bit (value -1) exactly when the number of mismatching bits under the window exceeds the threshold given for c, for all threshold values including the extremes that force a constant bit. Bits of the last output word that belong to no channel are 0, and every implementation agrees.',
 ['inputs','configurations'],'all channel counts (including non-multiples of 32), thresholds, geometries and bit contents',
 'Existing tests only use thresholds derived from random multipliers and never look at the unused bits of the last word.',
 [C+'bconv2d/output_transform.h',C+'bconv2d/reference.h',C+'bgemm/kernels_common.h',C+'indirect_bgemm/kernel_4x2_portable.h'],
 [('threshold comparison',C+'bconv2d/output_transform.h'),('bit assembly',C+'bconv2d/reference.h')])
p('K04','int8 convolution output is the float result correctly quantized',
 'With int8 output, every element equals the float result of the same convolution divided by the output scale, rounded to the nearest integer (exact ties may go either way), shifted by the output zero point and saturated to [-128,127], and all implementations give the same element. The fused activation is applied before quantization, whatever the zero point.',
 ['inputs','configurations'],'all scales, zero points, multipliers, biases, activations, geometries and bit contents',
 'Tests compare with a tolerance of one quantization step on random data, which hides rounding and saturation faults.',
 [C+'bconv2d/output_transform.h',T+'kernels/bconv2d.cc',C+'types.h'],
 [('scale and zero-point folding at set-up',T+'kernels/bconv2d.cc'),('rounding and saturation',C+'types.h')])
p('K05','Kernels stay inside their tensors',
 'For every configuration an LCE operator accepts, evaluating it writes exactly its output tensor and reads only its input tensors plus at most the documented slack of 16 bytes past their end. No evaluation has undefined behaviour observable as an out-of-bounds access, and the inputs are left unmodified.',
 ['inputs','configurations'],'all accepted shapes and options of the four operators and all implementations',
 'Tests run without instrumentation on a sampled grid, where an overrun normally lands in arena padding.',
 [C+'bconv2d/reference.h',C+'bconv2d/optimized_bgemm.h',C+'bconv2d/optimized_indirect_bgemm.h',C+'bmaxpool.h',C+'bitpacking/bitpack.h',T+'kernels/bconv2d.cc'],
 [('index arithmetic of all kernels',C),('temporary and output tensor sizing',T+'kernels/bconv2d.cc')])
p('K06','Operator state never leaks between shapes, buffers or invocations',
 'Whatever sequence of allocating, resizing (any new batch, height or width), moving tensor buffers, rewriting inputs and invoking an LCE operator has seen, the next invocation returns what a freshly created operator returns for the same shapes and data. Two operator instances in one interpreter do not influence each other.',
 ['histories'],'all sequences of resize / re-allocate / rewrite input / invoke operations',
 'Tests build a fresh interpreter per case and invoke it once or a few times on one shape; caches that survive a resize are never exercised.',
 [T+'kernels/bconv2d.cc',T+'kernels/bmaxpool.cc',T+'kernels/quantization.cc',C+'indirect_bgemm/kernel.h'],
 [('one-time set-up flag and cached packed weights / indirection buffer / padding cache',T+'kernels/bconv2d.cc')],
 state=[dict(name='operator data',meaning='packed weights, indirection buffer, padding-correction cache and one-time set-up flag kept across invocations')])
p('K07','Unsupported configurations are rejected, not miscomputed',
 'An LCE operator given a malformed or unsupported configuration (missing or ill-typed options, wrong tensor types, ranks or counts, channel or group counts that do not fit the tensors, thresholds or multipliers of the wrong type or length, zero-padding where only one-padding is possible) fails preparation with an error status. It never crashes, and every configuration it does accept is computed as specified.',
 ['configurations'],'all combinations of option values, tensor types, ranks and shapes from small alphabets',
 'There are a handful of negative tests; the rejection logic is a conjunction of many conditions whose interactions are not covered.',
 [T+'kernels/bconv2d.cc',T+'kernels/quantization.cc',T+'kernels/bmaxpool.cc'],
 [('Init/Prepare validation',T+'kernels/bconv2d.cc')])
p('K08','Binary matrix multiplication is independent of threading and blocking',
 'The result of the binary GEMM is the same whatever the number of threads, the way the output is cut into blocks, the order or concurrency in which blocks are computed and the order in which operands are packed. Every output element is the exact mismatch count between its row and column after the output transform.',
 ['schedules','inputs'],'all block partitions, all block orders and interleavings of block computations, all matrix shapes around the tile sizes',
 'Tests use whichever partition the threading library picks on the test machine for a few shapes.',
 [C+'bgemm/bgemm.h',C+'bgemm/kernels.h',C+'bgemm/kernels_common.h',C+'bgemm/ruy_pack.h',C+'bgemm/ruy_trmul_params.h'],
 [('kernel entry on a [start,end) block',C+'bgemm/kernels.h'),('operand packing',C+'bgemm/ruy_pack.h')])
p('K09','LceQuantize bitpacks exactly the signs',
 'LceQuantize sets bit j of word w of each innermost row exactly when element 32*w+j of that row is negative (float), below the zero point (int8) or false (bool), and leaves the unused bits of the last word 0. This holds for every rank, row length and value, and the output shape is the input shape with the last dimension divided by 32 rounded up.',
 ['inputs','configurations'],'all values (including -0, infinities, extremes), zero points, row lengths and ranks',
 'Tests use random data on a few shapes; per-position and tail-word faults and exact zero-point boundaries need systematic enumeration.',
 [C+'bitpacking/bitpack.h',C+'bitpacking/utils.h',T+'kernels/quantization.cc'],
 [('bit packing',C+'bitpacking/bitpack.h'),('shape computation',T+'kernels/quantization.cc')])
p('K10','LceDequantize restores exactly the signs',
 'LceDequantize writes +1 for a 0-bit and -1 for a 1-bit as float, as the nearest representable int8 values for the given scale and zero point (saturated), or as true/false for bool, for every element of every row, ignoring unused bits. Wherever the type can represent -1 (float, bool, and int8 with a 1-bit value below the zero point), quantizing its result gives back the original words with the unused bits cleared.',
 ['inputs','configurations'],'all bit patterns, scales, zero points, row lengths and ranks',
 'Sampled random data with one quantization setting.',
 [C+'bitpacking/bitpack.h',T+'kernels/quantization.cc',C+'types.h'],
 [('unpack_matrix',C+'bitpacking/bitpack.h'),('evaluation and int8 constants',T+'kernels/quantization.cc')])
p('K11','LceBMaxPool2d equals max pooling of the unpacked values',
 'For every filter, stride, padding and image size, LceBMaxPool2d returns the bitpacked form of the maximum over the in-image positions of each window of the +/-1 values its input encodes. The output shape is the standard SAME/VALID pooling shape.',
 ['inputs','configurations'],'all geometries and bit contents',
 'Random data on a sampled grid; windows that hang over two borders are rarely sampled.',
 [C+'bmaxpool.h',T+'kernels/bmaxpool.cc'],[('pool loop',C+'bmaxpool.h'),('shape and padding',T+'kernels/bmaxpool.cc')])
p('K12','Registered operators resolve to the documented implementation',
 'Registering the LCE operators makes exactly the four custom operators resolvable, each to an implementation that behaves as documented, and the convolution to the default optimized, indirect or reference implementation according to the selected flags. Registration leaves all other operators of the resolver untouched.',
 ['configurations'],'all combinations of the registration flags',
 'No test enumerates the flag combinations.',
 [T+'kernels/lce_ops_register.h',T+'kernels/bconv2d.cc'],[('registration',T+'kernels/lce_ops_register.h')])
p('K13','Serialized operator options mean the same to converter and runtime',
 'For every combination of attribute values of a converted LCE operator, the options the converter serializes are read back by the runtime operator (and by the reverse translation) with exactly the same meaning. Operators without attributes serialize empty options.',
 ['configurations','inputs'],'all attribute values (strides, dilations, channel counts, paddings, pad values, activations, filter sizes)',
 'The existing unit test checks one attribute assignment on the writer side only; nothing joins writer and reader.',
 [M+'ir/lce_ops.cc',T+'kernels/bconv2d.cc',T+'kernels/bmaxpool.cc',X+'translate_tflite.cc'],
 [('buildCustomOptions',M+'ir/lce_ops.cc'),('Init',T+'kernels/bconv2d.cc'),('translation back',X+'translate_tflite.cc')])
p('A01','Binary convolutions on AArch64 compute exactly the specified values',
 'On AArch64, the binary convolution operator computes, with each of its implementations (reference, optimized matrix multiplication, indirect), exactly the specified output for every shape, padding, activation, output type, accumulator width and content, however the matrix multiplication is divided among calls. It reads and writes no memory outside its tensors beyond the extra bytes the library documents for padding buffers, and keeps the calling convention. Implementations with 16-bit accumulators are only used when no accumulator can overflow.',
 ['inputs','configurations'],'all row/column/depth remainders, padded pixels, output types, bit contents and divisions of the matrix multiplication',
 'Needs an ARM machine; the repository has none in its CPU tests and samples random shapes in its own.',
 [C+'bgemm/kernels_aarch64.h',C+'indirect_bgemm/kernel_8x4x1_aarch64.h',C+'indirect_bgemm/kernel_8x4x2_aarch64.h',C+'indirect_bgemm/kernel_8x4x4_aarch64.h',C+'indirect_bgemm/select_kernel.h',C+'types.h'],
 [('inline assembly',C),('kernel selection',C+'indirect_bgemm/select_kernel.h')])
p('A02','Quantize, dequantize and max-pool on AArch64 compute exactly the specified values',
 'On AArch64, LceQuantize packs exactly the sign bits of every element (bit set iff the element is below zero, or below the zero point for int8), LceDequantize gives back exactly the values of those bits, and LceBMaxPool2d the maximum over the window, for every shape, type and content, without touching memory outside their tensors.',
 ['inputs','configurations'],'all shapes and channel remainders around the block sizes of the assembly, all element values and bit patterns',
 'Needs an ARM machine; the assembly has separate loops for blocks of 64/128 elements that tests sample.',
 [C+'bitpacking/bitpack_aarch64.h',C+'bitpacking/bitpack.h',C+'bmaxpool.h'],
 [('assembly bit packing',C+'bitpacking/bitpack_aarch64.h')])
p('A03','Operator state on AArch64 follows every history of resizes and runs',
 'On AArch64, after any sequence of preparing, resizing, rewriting the inputs and running, each run of a binary convolution gives exactly what a fresh operator gives for the current shapes and contents: packed weights, indirection buffers and padding corrections left from earlier shapes are never used.',
 ['histories'],'all sequences of operations up to a depth over several input shapes and implementations',
 'Tests prepare and run once; the AArch64 kernels use other weight layouts and buffers than the portable ones.',
 [C+'indirect_bgemm/kernel.h',C+'indirect_bgemm/select_kernel.h',T+'kernels/bconv2d.cc'],
 [('operator preparation',T+'kernels/bconv2d.cc')])
p('A04','Binary convolutions on 32-bit ARM compute exactly the specified values',
 'On 32-bit ARM with NEON, the binary convolution operator computes, with each of its implementations (reference, optimized matrix multiplication, indirect), exactly the specified output for every shape, padding, activation, output type and content, however the matrix multiplication is divided among calls: float outputs are the exact affine function of the clamped accumulator, int8 outputs are rounded to a nearest integer and saturated, bitpacked outputs compare the mismatch count with the threshold. It reads and writes no memory outside its tensors beyond the extra bytes the library documents for padding buffers, and keeps the calling convention.',
 ['inputs','configurations'],'all row/column/depth remainders, padded pixels, output types and constants, bit contents and divisions of the matrix multiplication',
 'Needs an ARM machine; the repository tests the kernel under an emulator, on sampled shapes.',
 [C+'bgemm/kernels_arm32.h',C+'bgemm/kernels.h',C+'bgemm/ruy_pack.h',C+'bconv2d/output_transform.h',C+'types.h'],
 [('inline assembly',C+'bgemm/kernels_arm32.h'),('kernel dispatch',C+'bgemm/kernels.h')])
p('A05','Quantize, dequantize and max-pool on 32-bit ARM compute exactly the specified values',
 'On 32-bit ARM, LceQuantize packs exactly the sign bits of every element (bit set iff the element is below zero, or below the zero point for int8), LceDequantize gives back exactly the values of those bits, and LceBMaxPool2d the maximum over the window, for every shape, type and content, without touching memory outside their tensors.',
 ['inputs','configurations'],'all shapes and channel remainders around word borders, all element values and bit patterns',
 'Needs an ARM machine: types, alignments and code paths differ on 32-bit platforms.',
 [C+'bitpacking/bitpack.h',C+'bmaxpool.h',T+'kernels/quantization.cc'],
 [('bit packing',C+'bitpacking/bitpack.h')])
p('A06','Operator state on 32-bit ARM follows every history of resizes and runs',
 'On 32-bit ARM, after any sequence of preparing, resizing, moving the buffers, rewriting the inputs and running, each run of an operator gives exactly what a fresh operator gives for the current shapes and contents: packed weights, indirection buffers and padding corrections left from earlier shapes or other operators are never used.',
 ['histories'],'all sequences of operations up to a depth over several input shapes and implementations, alone and in pairs',
 'Tests prepare and run once; the 32-bit kernels use other weight layouts, and cached addresses are 32-bit.',
 [T+'kernels/bconv2d.cc',C+'indirect_bgemm/kernel.h',C+'bgemm/bgemm.h'],
 [('operator preparation',T+'kernels/bconv2d.cc')])
p('M01','Batch-size pass only fixes unknown leading dimensions',
 'The batch-size pass turns the leading dimension of every ranked tensor argument of a function into 1 when it is unknown, and leaves every other dimension, type, attribute, argument and result untouched. The function signature and its entry-block arguments always agree afterwards, and running the pass again changes nothing.',
 ['programs'],'all function signatures over ranks, static/dynamic dimensions, element types, non-tensor and unranked arguments',
 'The one runnable test has a few fixed signatures.',
 [X+'set_batch_size.cc'],[('SetBatchSize pass',X+'set_batch_size.cc')])
p('M02','Injecting binary operators preserves the model function',
 'The pass that recognises binarized layers in a TensorFlow graph only rewrites subgraphs whose meaning the binary operators reproduce: for every input, the rewritten graph returns the values of the original one (up to float rounding of the layer scales). Subgraphs that do not match exactly (non-binary weights, unsuitable padding, pad value or data format, batch/channel strides, invalid groups) are left as they are, and convolutions with SAME padding by zeros are only rewritten for the ARM target.',
 ['programs','inputs'],'all graphs from a grammar of sign functions, paddings, convolution attributes, filters and constants',
 'lit tests show a few positive and negative examples and do not run in this environment; they never execute the rewritten graph.',
 [X+'prepare_tf.cc',X+'prepare_patterns_common.td',X+'prepare_patterns_target_arm.td',X+'padding.h'],
 [('sign, convolution and padding patterns',X+'prepare_patterns_common.td'),('binary filter and padding predicates',X+'prepare_tf.cc')])
p('M03','Optimization passes preserve the model function',
 'Fusing comparisons, additions, multiplications, activations and max-pooling into binary operators never changes the values a model computes (up to float rounding), for any operand values, shapes, fused activations or number of users of the intermediate values. Optimizations documented for the ARM target only are not applied for other targets.',
 ['programs','inputs'],'all graphs from a grammar of producer/consumer pairs with their attributes, constants and use counts',
 'lit tests check the syntactic result for a few examples, never the values.',
 [X+'optimize.cc',X+'optimize_patterns_common.td',X+'optimize_patterns_target_arm.td'],
 [('fusion patterns',X+'optimize_patterns_common.td'),('max-pool pattern',X+'optimize_patterns_target_arm.td')])
p('M04','Bitpacked-output thresholds reproduce the sign of the real output',
 'When a convolution feeding only a binarization is turned into one that writes bits directly, the bit written for every possible accumulator value is the sign of the real-valued output: clamped accumulator times multiplier plus bias. This holds for positive, negative and zero multipliers, all biases, all activations, and both implementations of padding for which it is applied.',
 ['inputs','programs'],'all accumulator values, multipliers, biases, activations and filter sizes',
 'One lit test with fixed constants; the threshold arithmetic has many sign and rounding cases.',
 [X+'optimize.cc',X+'bitpack_activations_patterns.td'],
 [('threshold computation',X+'optimize.cc'),('pattern with weight flipping',X+'bitpack_activations_patterns.td')])
p('M05','Packing weights and folding constants lose no sign',
 'Bitpacking convolution weights, and constant-folding binarization and its inverse, give exactly the words and values the runtime operators would compute for the same tensor, for every shape and content. Constants that cannot be folded are left in place without crashing.',
 ['inputs','programs'],'all shapes, ranks, element types and contents of constants',
 'Two lit tests with splat constants.',
 [X+'bitpack.cc',X+'bitpack_weights.cc',X+'bitpack_weights_patterns.td',M+'ir/lce_ops.cc'],
 [('Bitpack/Unpack of attributes',X+'bitpack.cc'),('folders',M+'ir/lce_ops.cc')])
p('M06','Explicit padding is fused only when it equals SAME padding',
 'A padding operation is merged into the following (depthwise or binary) convolution as SAME padding only when the merged convolution reads exactly the same padded image, so that every output value is unchanged. Any other amount, placement, value or dimension of padding, and padding with other users, is left alone.',
 ['programs','inputs'],'all pad amounts, strides, dilations, kernel and image sizes (static or unknown)',
 'lit tests cover a few stride-1 cases; with strides several pad amounts give the same output size but different values.',
 [X+'padding.h',X+'fuse_padding.cc',X+'fuse_padding.td',X+'prepare_tf.cc'],
 [('SAME-padding predicate',X+'padding.h')])
p('M07','Quantization rewrites keep binary operators consistent',
 'Rewriting quantize/dequantize operators around binary operators never changes the computed function: the rewritten operator consumes and produces the same quantized values with the same scale and zero point, it is an operator the runtime supports, and intermediate values with other users are left alone. (Only the rounding of a convolution\'s multipliers and biases to quantized values may be dropped; they stay in float.)',
 ['programs','inputs'],'all graphs from a grammar of quantize/dequantize chains around binary operators with their scales, zero points and use counts',
 'A few syntactic lit examples.',
 [X+'quantize.cc',X+'quantize_patterns.td'],[('patterns',X+'quantize_patterns.td')])
p('M08','Pass-through operator removal preserves the graph function',
 'Removing pass-through operators leaves every result of the graph computing the same value from the same inputs, in the same position, and touches no other operator.',
 ['programs'],'all small graphs of pass-through and opaque operators with shared and multi-result values',
 'One lit test per operator in isolation.',
 [X+'op_removal.cc',X+'op_removal_patterns.td'],[('patterns',X+'op_removal_patterns.td')])
p('M09','Legalization to custom operators and back is lossless',
 'Converting binary operators to TFLite custom operators keeps operands, results, names and options, and translating such custom operators back yields the original operators with the original attributes; other custom operators are left unchanged by both.',
 ['programs','configurations'],'all binary operators with all attribute values, mixed with foreign custom operators',
 'One fixed lit example per operator, forward direction only.',
 [X+'legalize_tflite.cc',X+'translate_tflite.cc',M+'ir/lce_ops.cc'],
 [('legalization',X+'legalize_tflite.cc'),('translation',X+'translate_tflite.cc')])
p('M10','Detection post-processing rewrite preserves its outputs',
 'The quantization of the detection post-processing operator applies only to operators with the expected inputs and outputs, feeds it the un-dequantized inputs in the same order, keeps its options and output shapes, and dequantizes exactly the scores output with the scores input\'s parameters. Everything else is left unchanged.',
 ['programs'],'all combinations of operand producers, arities, result types and quantization parameters',
 'One lit example.',
 [X+'detection_postprocess.cc'],[('rewrite pattern',X+'detection_postprocess.cc')])
p('M11','Models are converted completely, for every target and setting',
 'For every target, quantization request, batch size and representation of the weights (constants, their signs, wrapped constants, global tensors, variables of a session), both native conversion entry points convert a model completely. The result has batch size 1 if it was dynamic and float inputs, contains no operator of TensorFlow or of the conversion itself, has a runtime binary convolution with packed constant weights for every binarizable layer (with an int8 or bitpacked result when default ranges are given), keeps the quantization of fake-quantized weights, consists of one function, and computes what the original model computed. Operators LCE does not touch (composite functions, tensor lists, control flow, assets and hash tables, variables, session initializers, custom operators, quantized operators) reach the TensorFlow Lite passes that convert them, in the order in which they depend on one another, and the states of stateful operators stay separate tensors.',
 ['programs','configurations'],'all models from a grammar of layers x weight representations x targets x quantization requests x entry points',
 'Only end-to-end conversions exercise the pipeline, for a few settings, on a build that does not run here.',
 [M+'tf_tfl_passes.cc',M+'tf_to_tfl_flatbuffer.cc',M+'python/graphdef_tfl_flatbuffer.cc',M+'python/saved_model_tfl_flatbuffer.cc',X],[('pipeline assembly',M+'tf_tfl_passes.cc'),('conversion driver',M+'tf_to_tfl_flatbuffer.cc')])
p('M12','Converted binary layers run as the original layer computes',
 'Taking a binarized layer through injection, optimization, weight packing and serialization of its options, and executing the resulting operators with the runtime kernels, gives the values of the original TensorFlow layer for every input. This holds for each target and each implementation of the runtime kernels that accepts the result.',
 ['programs','inputs'],'all layers from a grammar (sign variant, padding, strides, dilation, scale, bias, activation, pooling, following binarization) and inputs',
 'End-to-end tests train a few fixed models on a TensorFlow build that does not run here.',
 [X,M+'ir/lce_ops.cc',T+'kernels/bconv2d.cc',T+'kernels/bmaxpool.cc',T+'kernels/quantization.cc'],
 [('pass pipeline and kernels together',X)])
p('M13','Conversion settings reach the conversion unchanged',
 'The native entry points pass every setting on unchanged: the target, whether and with which default ranges to quantize, the input arrays with their types and shapes, the output arrays, the saved model directory, tags, exported names and version, and the session. Quantization covers every input of the model. An unknown target, no exported name where one is needed and a model without a single entry function are rejected. The exporter is asked for custom operators (and neither for select operators nor for StableHLO), operators keep the first 50 characters of their names, and the result is exactly what the exporter wrote.',
 ['configurations'],'all combinations of the arguments of both entry points from small alphabets, valid and invalid, and all lengths of names',
 'The entry points need a TensorFlow build that does not run here; Python tests replace them by mocks.',
 [M+'python/common.cc',M+'python/graphdef_tfl_flatbuffer.cc',M+'python/saved_model_tfl_flatbuffer.cc',M+'tf_to_tfl_flatbuffer.cc'],
 [('entry points',M+'python/graphdef_tfl_flatbuffer.cc'),('entry points',M+'python/saved_model_tfl_flatbuffer.cc')])
p('M14','A conversion in which any step fails raises an error',
 'If any step of a conversion fails (loading or importing the model, any pass, freezing variables, the export, the final verification), with or without a diagnostic, or the graph contains TensorFlow 1 control flow or an operator the runtime does not support, then the entry point raises an error instead of returning a model, and no later step of the conversion runs.',
 ['faults'],'every step of a conversion failing, silently or not, for each entry point and setting',
 'No test injects a failure.',
 [M+'tf_to_tfl_flatbuffer.cc',M+'python/common.cc',M+'python/graphdef_tfl_flatbuffer.cc',M+'python/saved_model_tfl_flatbuffer.cc'],
 [('error handling of the driver',M+'tf_to_tfl_flatbuffer.cc')])
p('Y01','Converter options are validated and forwarded faithfully',
 'Converting a Keras model or saved model rejects every invalid option (type, target, graph mode, non-model, non-float32 policy, unsupported saved model) with an error before converting, and otherwise calls the native converter with exactly the model, the requested target and quantization range and the names, types and shapes of the model\'s inputs and outputs. A converted quantized model has exactly the requested input/output types; with float32 types the converter\'s result is returned unchanged.',
 ['configurations'],'all combinations of the public converter arguments from small alphabets, valid and invalid',
 'One test checks a few invalid arguments with a mocked converter.',
 [M+'python/converter.py'],[('argument validation and forwarding',M+'python/converter.py')])
p('Y02','Changing model input/output types preserves the model function',
 'Requesting integer model inputs or outputs removes exactly the quantize operators at the inputs and dequantize operators at the outputs, so that the resulting model computes the same integer tensors as before and every remaining reference, name and quantization parameter in the file stays valid. Inputs and outputs that have no quantize or dequantize operator stay as they are; where an operator cannot be removed (the float tensor is used elsewhere, or is not int8-quantized) the model fails with an error or keeps a valid float interface, and is never corrupted.',
 ['programs'],'all small model graphs with shared, multiple and repeated inputs/outputs and quantize/dequantize positions',
 'End-to-end tests convert one toy model with one input and one output.',
 [M+'python/util.py',M+'python/converter.py'],[('IO type modification',M+'python/util.py')])
p('Y03','Stripping LceDequantize preserves the bitpacked outputs',
 'Stripping a model removes the Dequantize operators (from int8) that produce model outputs and then the LceDequantize operators that produce model outputs, so that exactly these outputs become the int8 or bitpacked tensors, in the same order, with every other output, operator, buffer and signature reference of every subgraph unchanged and valid. Models where an output cannot be stripped are rejected or keep that output valid.',
 ['programs'],'all small model graphs with multiple outputs, shared dequantize results and unused buffers',
 'One toy model in the tests.',
 [M+'python/util.py'],[('strip_lcedequantize_ops',M+'python/util.py')])
p('Y04','Interpreter.predict maps inputs to outputs in order',
 'Prediction over arrays, lists of arrays or iterators with at least one sample returns, for every sample in order, the model\'s outputs for that sample, with one array per model output whose leading dimension is the number of samples. Wrongly shaped, typed or structured inputs raise an error, and every accepted form of the same data gives the same result.',
 ['inputs','configurations'],'all input containers, numbers of inputs/outputs/samples, shapes and dtypes from small alphabets',
 'Tests predict on one toy model with one or two containers.',
 [T+'python/interpreter_base.py',T+'python/interpreter.py'],[('predict and generators',T+'python/interpreter_base.py')])
p('Y05','The interpreter binding moves data faithfully and rejects mismatches',
 'The native interpreter binding reports the types, shapes, scales and zero points of the model\'s inputs and outputs, copies every input array to the matching tensor byte for byte before invoking the model, and returns every output tensor with its own shape, type and bytes. Arrays with the wrong count, type or shape, and failing invocations, raise an error and never touch memory outside the tensors.',
 ['inputs','fault_sequences','configurations'],'all tensor types, ranks, shapes, mismatches and failing interpreter calls',
 'Only exercised through toy models.',
 [T+'python/interpreter_wrapper_lite.cc',T+'python/interpreter_wrapper_utils.h'],[('wrapper',T+'python/interpreter_wrapper_utils.h')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
