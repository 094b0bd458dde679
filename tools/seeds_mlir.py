X = 'larq_compute_engine/mlir/'
TR = X + 'transforms/'
KN = 'larq_compute_engine/tflite/kernels/'
def ty(s, e='f32'): return 'tensor<' + ''.join('%dx' % d if d >= 0 else '?x' for d in s) + e + '>'
def num(v): return repr(float(v))
def dense(v, s, e='f32'): return 'dense<%s> : %s' % (nest([num(x) if e == 'f32' else str(int(x)) for x in v], list(s)), ty(s, e))
def nest(v, s):
    if not s: return v[0]
    if len(s) == 1: return '[' + ', '.join(v) + ']'
    k = len(v) // s[0]
    return '[' + ', '.join(nest(v[i * k:(i + 1) * k], s[1:]) for i in range(s[0])) + ']'
def bconv(x, f, m, b, ts, ci, act='NONE', pv=0, pad='VALID', st=(1, 1), di=(1, 1), thr='%none'):
    return ('"lq.Bconv2d"(%s, %s, %s, %s, %s) {channels_in = %d : i32, dilation_height_factor = %d : i32, dilation_width_factor = %d : i32, fused_activation_function = "%s", pad_values = %d : i32, padding = "%s", stride_height = %d : i32, stride_width = %d : i32} : %s'
            % (x, f, m, b, thr, ci, di[0], di[1], act, pv, pad, st[0], st[1], ts))
NONE = '  %none = "tfl.no_value"() {value} : () -> none\n'
def fn(args, rets, body, ret):
    return 'func.func @f(%s) -> (%s) {\n%s  return %s : %s\n}\n' % (args, rets, body, ret, rets)
def raw(t): return 'R"MLIR(' + t + ')MLIR"'
def same(text, build, ins, after=''):
    return 'DEMO({\n  const std::string text = %s;\n  Inputs in;\n%s  Same(text, [](OpPassManager& pm) { %s }, in%s);\n})\n' % (raw(text), ins, build, ', [](ModuleOp m) {%s}' % after if after else '')
def fill(s, e, expr, reps=6):
    return '  for (int k = 0; k < %d; ++k) in.push_back({Fill({%s}, "%s", [&](int64_t i) -> double { return %s; })});\n' % (reps, ', '.join(map(str, s)), e, expr)
BITS = lambda ch: '(double)(int32_t)(((uint64_t)(i + 1) * 2654435761ull * (k * 2 + 1) >> 7) & %d)' % ((1 << min(ch, 31)) - 1)
FLT = 'std::vector<double>{-2, -1, -0.5, -0.25, 0, 0.25, 0.5, 1, 2}[(i * (k + 2) + k * k + (i >> 1)) % 9]'
PREP = lambda t: 'pm.addPass(TFL::CreatePrepareLCEPass(LCETarget::%s));' % t
OPT = lambda t: 'pm.addPass(TFL::CreateOptimizeLCEPass(LCETarget::%s));' % t
QUANT = 'pm.addPass(TFL::CreateLCEQuantizePass());'
PAD = 'pm.addPass(TFL::CreateFusePaddingPass());'
def w(n, o, scale=lambda c: 1): return [((1 if (i * 7 + i // 3 + c * 5) % 3 else -1) * scale(c)) for i in range(n) for c in range(o)]
def tfconv(x, f, xt, ft, ot, st=(1, 1), di=(1, 1), pad='VALID'):
    return '"tf.Conv2D"(%s, %s) {data_format = "NHWC", dilations = [1, %d, %d, 1], explicit_paddings = [], padding = "%s", strides = [1, %d, %d, 1], use_cudnn_on_gpu = true} : (%s, %s) -> %s' % (x, f, di[0], di[1], pad, st[0], st[1], xt, ft, ot)

SEEDS = []
def seed(id, prop, needs, what, edits, demo, kind='mlir', **k):
    SEEDS.append(dict(id=id, property=prop, needs=needs, what=what, edits=edits, demo=demo, kind=kind, **k))

# ------------------------------------------------------------------------ M02
F3 = [2, 2, 3, 3]
def m02(st, scale, padded):
    xs, os = [1, 4, 5, 3], [1, 3, 4, 3]
    if padded:
        ps = [1, 5, 6, 3]; os = [1, (5 - 2) // st[0] + 1, (6 - 2) // st[1] + 1, 3]
        b = ('  %d = "lq.Dequantize"(%x) : (tensor<1x4x5x1xi32>) -> tensor<1x4x5x3xf32>\n  %p = arith.constant dense<[[0, 0], [0, 1], [0, 1], [0, 0]]> : tensor<4x2xi32>\n  %v = arith.constant dense<1.0> : tensor<f32>\n'
             '  %q = "tf.PadV2"(%d, %p, %v) : (tensor<1x4x5x3xf32>, tensor<4x2xi32>, tensor<f32>) -> ' + ty(ps) + '\n')
        x, xt = '%q', ty(ps)
    else:
        b = '  %d = "lq.Dequantize"(%x) : (tensor<1x4x5x1xi32>) -> tensor<1x4x5x3xf32>\n'
        x, xt = '%d', ty(xs)
    b += '  %f = arith.constant ' + dense(w(12, 3, scale), F3) + '\n  %r = ' + tfconv(x, '%f', xt, ty(F3), ty(os), st) + '\n'
    return fn('%x: tensor<1x4x5x1xi32>', ty(os), b, '%r')
seed('m02a', 'M02', 'a binary filter whose output channels have different scales', 'every output channel is scaled like the first one',
     [(TR + 'prepare_tf.cc', 'auto scale = std::abs(filter.getValues<float>()[{0, 0, 0, i}]);', 'auto scale = std::abs(*filter.getValues<float>().begin());')],
     same(m02((1, 1), lambda c: [0.5, 1, 2][c], False), PREP('ARM'), fill([1, 4, 5, 1], 'i32', BITS(3))), passes=['prepare_tf'])
seed('m02b', 'M02', 'a one-padded binary convolution with different vertical and horizontal strides', 'the vertical stride is used in both directions when explicit one-padding is absorbed',
     [(TR + 'prepare_patterns_common.td', 'ExtractI32At<2>:$strides),', 'ExtractI32At<1>:$strides),', 2)],
     same(m02((1, 3), lambda c: 1, True).replace('', ''), PREP('ARM'), fill([1, 4, 5, 1], 'i32', BITS(3))), passes=['prepare_tf'])
seed('m02c', 'M02', 'a filter in which one value away from the first row has another magnitude', 'only the first rows of a filter are compared with its scale, so that filters that are not binary are binarized',
     [(TR + 'prepare_tf.cc', 'for (std::size_t h = 0; h < shape[0]; ++h) {', 'for (std::size_t h = 0; h < (shape[0] + 1) / 2; ++h) {')],
     same(m02((1, 1), lambda c: 1, False).replace('1.0]]]]', '3.0]]]]').replace('1.0]]]]> : tensor<2x2x3x3xf32>', '3.0]]]]> : tensor<2x2x3x3xf32>'), PREP('ARM'), fill([1, 4, 5, 1], 'i32', BITS(3))), passes=['prepare_tf'])

# ------------------------------------------------------------------------ M03
def chain(ops, attrs={}, extra='', mul=[1, 1, 1], bias=[0, 0, 0], hw=(3, 4), f=(2, 2), di=(1, 1), **a):
    H, W = hw
    same_ = a.get('pad') == 'SAME'
    os = [1, H if same_ else H - (f[0] - 1) * di[0], W if same_ else W - (f[1] - 1) * di[1], 3]
    fs = [3, f[0], f[1], 3]
    b = NONE + '  %f = arith.constant ' + dense(w(f[0] * f[1] * 3, 3), fs) + '\n  %m = arith.constant ' + dense(mul, [3]) + '\n  %b = arith.constant ' + dense(bias, [3]) + '\n'
    b += '  %v0 = ' + bconv('%x', '%f', '%m', '%b', '(tensor<1x%dx%dx1xi32>, %s, tensor<3xf32>, tensor<3xf32>, none) -> %s' % (H, W, ty(fs), ty(os)), 3, di=di, **a) + '\n'
    for i, o in enumerate(ops):
        if isinstance(o, str): b += '  %%v%d = "tfl.%s"(%%v%d) : (%s) -> %s\n' % (i + 1, o, i, ty(os), ty(os))
        else:
            b += '  %%c%d = arith.constant %s\n' % (i, dense(o[1], [len(o[1])]))
            b += '  %%v%d = "tfl.%s"(%%v%d, %%c%d) {fused_activation_function = "NONE"} : (%s, tensor<%dxf32>) -> %s\n' % (i + 1, o[0], i, i, ty(os), len(o[1]), ty(os))
    r = '%%v%d' % len(ops)
    if extra: return fn('%%x: tensor<1x%dx%dx1xi32>' % (H, W), ty(os) + ', ' + ty(os), b, r + ', %v0')
    return fn('%%x: tensor<1x%dx%dx1xi32>' % (H, W), ty(os), b, r)
X3 = fill([1, 3, 4, 1], 'i32', BITS(3))
seed('m03a', 'M03', 'an addition followed by a multiplication behind a binary convolution', 'a multiplication fused into a convolution does not scale its bias',
     [(TR + 'optimize_patterns_common.td', '''                (binaryOp (Arith_ConstantOp $post_activation_bias),
                          (Arith_ConstantOp $value), TFL_AF_None),''', '''                (Arith_ConstantOp $post_activation_bias),''', 2)],
     same(chain([('add', [1, -0.5, 2]), ('mul', [2, 0.5, -1])]), OPT('ARM'), X3), passes=['optimize'])
seed('m03b', 'M03', 'an activation behind a convolution that already has a multiplier', 'an activation function is fused in front of the multiplication instead of behind it',
     [(TR + 'optimize_patterns_common.td', '(Arith_ConstantOp ConstantValue<"1.0f">:$post_activation_multiplier),', '(Arith_ConstantOp F32ElementsAttr:$post_activation_multiplier),', 2)],
     same(chain(['relu'], mul=[-1, 0.5, -2], pad='SAME', pv=1), OPT('XCORE'), X3), passes=['optimize'])
seed('m03c', 'M03', 'a division behind a convolution with different vertical and horizontal dilation', 'the dilations are swapped when a multiplication or division is fused',
     [(TR + 'optimize_patterns_common.td', '''                $dilation_height_factor,
                $dilation_width_factor,''', '''                $dilation_width_factor,
                $dilation_height_factor,''', 2)],
     same(chain([('div', [2, -0.5, 4])], hw=(4, 4), di=(2, 1)), OPT('ARM'), fill([1, 4, 4, 1], 'i32', BITS(3))), passes=['optimize'])
seed('m03d', 'M03', 'a max pooling with a fused activation function in front of a binarization', 'a max pooling whose result is clamped is turned into a binary max pooling',
     [(TR + 'optimize_patterns_target_arm.td', 'TFL_AF_None)),', '$fused_activation_function)),')],
     same(fn('%x: tensor<1x4x4x3xf32>', 'tensor<1x2x2x1xi32>', '  %p = "tfl.max_pool_2d"(%x) {padding = "VALID", stride_w = 2 : i32, stride_h = 2 : i32, filter_width = 2 : i32, filter_height = 2 : i32, fused_activation_function = "RELU"} : (tensor<1x4x4x3xf32>) -> tensor<1x2x2x3xf32>\n  %q = "lq.Quantize"(%p) : (tensor<1x2x2x3xf32>) -> tensor<1x2x2x1xi32>\n', '%q'),
          OPT('ARM'), fill([1, 4, 4, 3], 'f32', 'k == 0 ? -1 : ' + FLT)), passes=['optimize'])

# ------------------------------------------------------------------------ M04
def thr(mul, bias, act, pad='VALID', pv=0):
    fs = [3, 1, 2, 3]
    b = NONE + '  %f = arith.constant ' + dense(w(6, 3), fs) + '\n  %m = arith.constant ' + dense(mul, [3]) + '\n  %b = arith.constant ' + dense(bias, [3]) + '\n'
    b += '  %c = ' + bconv('%x', '%f', '%m', '%b', '(tensor<1x3x4x1xi32>, %s, tensor<3xf32>, tensor<3xf32>, none) -> tensor<1x3x3x3xf32>' % ty(fs), 3, act=act) + '\n'
    b += '  %q = "lq.Quantize"(%c) : (tensor<1x3x3x3xf32>) -> tensor<1x3x3x1xi32>\n'
    return fn('%x: tensor<1x3x4x1xi32>', 'tensor<1x3x3x1xi32>', b, '%q')
X12 = fill([1, 3, 4, 1], 'i32', BITS(3), 12)
seed('m04a', 'M04', 'a bitpacked convolution with a fused ReLU6 and a negative multiplier whose sign depends on the clamping', 'the clamping range is not mirrored for negative multipliers',
     [(TR + 'optimize.cc', 'effective_clamp_min = -1 * clamp_max;\n      effective_clamp_max = -1 * clamp_min;', 'effective_clamp_min = clamp_min;\n      effective_clamp_max = clamp_max;')],
     same(thr([-1, -0.5, -2], [-0.5, -1, -0.25], 'RELU6'), OPT('ARM'), X12), passes=['optimize'])
seed('m04b', 'M04', 'a bitpacked convolution with a fused ReLU, a positive multiplier and a bias of zero', 'an output that can become exactly zero but not negative is treated as if it changed its sign',
     [(TR + 'optimize.cc', 'if (output_range_start >= 0 && output_range_end >= 0) {', 'if (output_range_start > 0 && output_range_end >= 0) {')],
     same(thr([1, 0.5, 2], [0, 0, 0], 'RELU'), OPT('ARM'), X12), passes=['optimize'])
seed('m04c', 'M04', 'a bitpacked convolution of which some channels have a multiplier of zero and a negative bias', 'channels that are switched off by a multiplier of zero are always written as positive',
     [(TR + 'optimize.cc', 'if (bias < 0.0f) {', 'if (bias * mult < 0.0f) {')],
     same(thr([0, 1, -0.0], [-1, 0.5, -0.25], 'NONE'), OPT('XCORE'), X12), passes=['optimize'])

# ------------------------------------------------------------------------ M05
def packw(vals, s):
    b = NONE + '  %f = arith.constant ' + dense(vals, s) + '\n  %m = arith.constant ' + dense([1] * s[0], [s[0]]) + '\n  %b = arith.constant ' + dense([0] * s[0], [s[0]]) + '\n'
    o = [1, 3 - s[1], 4 - s[2], s[0]]
    o = [1, 3 - s[1] + 1, 4 - s[2] + 1, s[0]]
    xs = [1, 3, 4, (s[3] + 31) // 32]
    return fn('%x: ' + ty(xs, 'i32'), ty(o), b + '  %r = ' + bconv('%x', '%f', '%m', '%b', '(%s, %s, %s, %s, none) -> %s' % (ty(xs, 'i32'), ty(s), ty([s[0]]), ty([s[0]]), ty(o)), s[3]) + '\n', '%r')
BW = 'pm.addPass(TFL::CreateBitpackWeightsLCEPass());'
seed('m05a', 'M05', 'weights of magnitude below one', 'the signs of fractional weights are lost while they are packed',
     [(TR + 'bitpack.cc', 'std::vector<float> old_values(num_rows * unpacked_channels);', 'std::vector<std::int8_t> old_values(num_rows * unpacked_channels);')],
     same(packw([0.5 * v for v in w(12, 2)], [2, 2, 2, 3]), BW, X3), passes=['bitpack_weights'])
CANON = 'pm.addPass(createCanonicalizerPass());'
seed('m05b', 'M05', 'folding the unpacking of a constant with 33 channels', 'a last word with a single channel is not unpacked',
     [('larq_compute_engine/core/bitpacking/bitpack.h', """    if (elements_left != 0) {
      unpack_bitfield(*in_ptr++, out_ptr, elements_left, zero_bit_result,""", """    if (elements_left > 1) {
      unpack_bitfield(*in_ptr++, out_ptr, elements_left, zero_bit_result,""")],
     same(fn('%x: tensor<1x1x2x33xf32>', 'tensor<1x1x2x33xf32>', '  %c = arith.constant dense<[[[[5, 1], [-7, 0]]]]> : tensor<1x1x2x2xi32>\n  %d = "lq.Dequantize"(%c) : (tensor<1x1x2x2xi32>) -> tensor<1x1x2x33xf32>\n  %r = "tfl.add"(%x, %d) {fused_activation_function = "NONE"} : (tensor<1x1x2x33xf32>, tensor<1x1x2x33xf32>) -> tensor<1x1x2x33xf32>\n', '%r'), CANON, fill([1, 1, 2, 33], 'f32', FLT)), passes=['bitpack_weights'])

# ------------------------------------------------------------------------ M06
def padconv(kind, pads, val, st=(1, 1), f=(3, 3), xs=(1, 5, 5, 2)):
    xs = list(xs); ps = [xs[i] + pads[i][0] + pads[i][1] for i in range(4)]
    dw = kind == 'depthwise'
    o = ps[3] if dw else 2
    fs = [1, f[0], f[1], o] if dw else [o, f[0], f[1], ps[3]]
    os = [ps[0], (ps[1] - f[0]) // st[0] + 1, (ps[2] - f[1]) // st[1] + 1, o]
    n = fs[0] * fs[1] * fs[2] * fs[3]
    b = '  %p = arith.constant ' + dense([x for p in pads for x in p], [4, 2], 'i32') + '\n'
    if val is not None: b += '  %%v = arith.constant dense<%s> : tensor<f32>\n  %%q = "tfl.padv2"(%%x, %%p, %%v) : (%s, tensor<4x2xi32>, tensor<f32>) -> %s\n' % (num(val), ty(xs), ty(ps))
    else: b += '  %%q = "tfl.pad"(%%x, %%p) : (%s, tensor<4x2xi32>) -> %s\n' % (ty(xs), ty(ps))
    b += '  %w = arith.constant ' + dense([1 + i * 13 % 17 for i in range(n)], fs) + '\n  %b = arith.constant ' + dense([0.5 * i for i in range(o)], [o]) + '\n'
    b += '  %%r = "tfl.%s"(%%q, %%w, %%b) {%sdilation_h_factor = 1 : i32, dilation_w_factor = 1 : i32, fused_activation_function = "NONE", padding = "VALID", stride_h = %d : i32, stride_w = %d : i32} : (%s, %s, %s) -> %s\n' % (
        'depthwise_conv_2d' if dw else 'conv_2d', 'depth_multiplier = 1 : i32, ' if dw else '', st[0], st[1], ty(ps), ty(fs), ty([o]), ty(os))
    return fn('%x: ' + ty(xs), ty(os), b, '%r')
XP = lambda s: fill(s, 'f32', '1 + (i * (k + 3)) % 11', 3)
seed('m06a', 'M06', 'a depthwise convolution of an image padded with a constant other than zero', 'padding with any constant is fused into depthwise convolutions as if it were zero',
     [(TR + 'fuse_padding.td', '''          [(HasOneUse $pad_output),
           (ConstFloatValueIs<"0.0"> $pad_values),
           (NoBatchAndChannelPadding $paddings),''', '''          [(HasOneUse $pad_output),
           (NoBatchAndChannelPadding $paddings),''', 2)],
     same(padconv('depthwise', [(0, 0), (1, 1), (1, 1), (0, 0)], 1), PAD, XP([1, 5, 5, 2])), passes=['fuse_padding'])
seed('m06b', 'M06', 'a convolution of an image padded by SAME padding and also in its batch dimension', 'padding of the batch is dropped when the padding of the image is fused',
     [(TR + 'fuse_padding.cc', 'return IsNoPadding(paddings, 0) && IsNoPadding(paddings, 3);', 'return IsNoPadding(paddings, 3);')],
     same(padconv('conv', [(0, 1), (1, 1), (1, 1), (0, 0)], None), PAD, XP([1, 5, 5, 2])), passes=['fuse_padding'])

# ------------------------------------------------------------------------ M07
Q = '!quant.uniform<i8:f32, 0.5:3>'
def qconv(st, extra=False):
    b = NONE + '  %f = arith.constant ' + dense(w(12, 3), [3, 2, 2, 3]) + '\n  %m = arith.constant dense<[1.0, 0.5, -1.0]> : tensor<3xf32>\n  %b = arith.constant dense<[0.0, 1.5, -1.0]> : tensor<3xf32>\n'
    os = [1, (5 - 2) // st[0] + 1, (5 - 2) // st[1] + 1, 3]
    b += '  %c = ' + bconv('%x', '%f', '%m', '%b', '(tensor<1x5x5x1xi32>, tensor<3x2x2x3xf32>, tensor<3xf32>, tensor<3xf32>, none) -> ' + ty(os), 3, st=st) + '\n'
    b += '  %%q = "tfl.quantize"(%%c) {qtype = %s} : (%s) -> %s\n' % (ty(os, Q), ty(os), ty(os, Q))
    if extra: return fn('%x: tensor<1x5x5x1xi32>', ty(os, Q) + ', ' + ty(os), b, '%q, %c')
    return fn('%x: tensor<1x5x5x1xi32>', ty(os, Q), b, '%q')
X5 = fill([1, 5, 5, 1], 'i32', BITS(3))
seed('m07a', 'M07', 'a strided binary convolution (different in both directions) in front of a quantization', 'the strides are swapped when the quantization is moved into the convolution',
     [(TR + 'quantize_patterns.td', '''              $padding,
              $stride_height,
              $stride_width),
          [(HasOneUse $output),''', '''              $padding,
              $stride_width,
              $stride_height),
          [(HasOneUse $output),''')],
     same(qconv((1, 3)), QUANT, X5), passes=['quantize'])
seed('m07b', 'M07', 'a binary convolution whose float result is used besides being quantized', 'the convolution is duplicated: one with a float and one with a quantized result',
     [(TR + 'quantize_patterns.td', '          [(HasOneUse $output),\n           (IsFloat $output),\n           (IsQuantizedTo<8> $quantized_output)]>;', '          [(IsFloat $output),\n           (IsQuantizedTo<8> $quantized_output)]>;')],
     same(qconv((1, 1), True), QUANT, X5, ' if (ev::CountOps(m, "lq.Bconv2d") != 1) EX->fail("%d convolutions", (int)ev::CountOps(m, "lq.Bconv2d")); '), passes=['quantize'])
seed('m07c', 'M07', 'a convolution whose per-channel multiplier and bias are both wrapped in quantization', 'the multiplier is also used as the bias when the quantization around both is removed',
     [(TR + 'quantize_patterns.td', '''              $post_activation_multiplier,
              $post_activation_bias,
              $output_threshold,''', '''              $post_activation_multiplier,
              $post_activation_multiplier,
              $output_threshold,''', 1)],
     same(fn('%x: tensor<1x5x5x1xi32>', 'tensor<1x4x4x3xf32>', NONE + '  %f = arith.constant ' + dense(w(12, 3), [3, 2, 2, 3]) + '\n  %m0 = arith.constant dense<[1.0, 0.5, -1.0]> : tensor<3xf32>\n  %b0 = arith.constant dense<[0.0, 1.5, -1.0]> : tensor<3xf32>\n' +
        ''.join('  %%%sq = "tfl.quantize"(%%%s0) {qtype = tensor<3x%s>} : (tensor<3xf32>) -> tensor<3x%s>\n  %%%s = "tfl.dequantize"(%%%sq) : (tensor<3x%s>) -> tensor<3xf32>\n' % (c, c, Q, Q, c, c, Q) for c in 'mb') +
        '  %r = ' + bconv('%x', '%f', '%m', '%b', '(tensor<1x5x5x1xi32>, tensor<3x2x2x3xf32>, tensor<3xf32>, tensor<3xf32>, none) -> tensor<1x4x4x3xf32>', 3) + '\n', '%r'), QUANT, X5), passes=['quantize'])

# ------------------------------------------------------------------------ M08
REM = 'namespace mlir { namespace TFL {\nstd::unique_ptr<OperationPass<func::FuncOp>> CreateOpRemovalPass();\n} }\n'
RUNREM = '''DEMO({
  auto m = ev::Parse(%s);
  std::string d;
  if (!ev::RunPasses(*m, [](OpPassManager& pm) { pm.addPass(TFL::CreateOpRemovalPass()); }, d)) return EX->fail("the pass fails: %%s", d.c_str());
  %s
})
'''
seed('m08a', 'M08', 'a constant whose result type has unknown dimensions', 'constants of unknown shape are converted too, which leaves their users with operands of another type',
     [(TR + 'op_removal_patterns.td', '(Arith_ConstantOp $value),\n          [(AnyStaticShapeTensor $res)]>;', '(Arith_ConstantOp $value),\n          [(AnyTensor $res)]>;')],
     REM + RUNREM % (raw('func.func @f() -> tensor<?xf32> {\n  %c = "tf.Const"() {value = dense<[1.0, 2.0]> : tensor<2xf32>} : () -> tensor<?xf32>\n  return %c : tensor<?xf32>\n}\n'), ''), passes=['op_removal'])
seed('m08b', 'M08', 'a checked placeholder with a default value of another shape', 'the default value of a placeholder replaces the placeholder even where its static shape differs',
     [(TR + 'op_removal_patterns.td', 'def : Pat<(TF_SnapshotOp $arg), (TF_IdentityOp $arg)>;', 'def : Pat<(TF_SnapshotOp $arg), (replaceWithValue $arg)>;')],
     REM + RUNREM % (raw('func.func @f(%x: tensor<2x3xf32>) -> tensor<?x3xf32> {\n  %c = "tf.Snapshot"(%x) : (tensor<2x3xf32>) -> tensor<?x3xf32>\n  return %c : tensor<?x3xf32>\n}\n'), ''), passes=['op_removal'])

# ------------------------------------------------------------------- M09, K13
LEG = '''#include "flatbuffers/flexbuffers.h"
DEMO({
  auto m = ev::Parse(%s);
  std::string d;
  const std::string before = ev::Print(*m);
  if (!ev::RunPasses(*m, [](OpPassManager& pm) { pm.addPass(TFL::CreateLegalizeLCEPass()); }, d)) return EX->fail("the pass fails: %%s", d.c_str());
  %s
})
'''
BACK = '''if (!ev::RunPasses(*m, [](OpPassManager& pm) { pm.addPass(TFL::CreateTranslateToLCEPass()); }, d)) return EX->fail("the pass fails: %s", d.c_str());
  if (ev::Print(*m) != before) EX->fail("%s\\nbecomes\\n%s", before.c_str(), ev::Print(*m).c_str());'''
def lqpool(): return fn('%x: tensor<1x8x8x1xi32>', 'tensor<1x4x3x1xi32>', '  %r = "lq.BMaxPool2d"(%x) {filter_height = 1 : i32, filter_width = 3 : i32, padding = "VALID", stride_height = 2 : i32, stride_width = 2 : i32} : (tensor<1x8x8x1xi32>) -> tensor<1x4x3x1xi32>\n', '%r')
TRN = 'namespace mlir { namespace TFL {\nstd::unique_ptr<OperationPass<func::FuncOp>> CreateTranslateToLCEPass();\n} }\n'
seed('m09a', 'M09', 'translating a custom max pooling with a filter that is not square back', 'the filter width and height are swapped when custom operators are translated back',
     [(TR + 'translate_tflite.cc', 'map["filter_width"].AsInt32(), map["filter_height"].AsInt32());', 'map["filter_height"].AsInt32(), map["filter_width"].AsInt32());')],
     TRN + LEG % (raw(lqpool()), BACK), passes=['legalize_tflite', 'translate_tflite'])
seed('m09b', 'M09', 'translating a convolution with an activation function clamped to [-1, 1] back', 'the activation RELU_N1_TO_1 becomes RELU6 when custom operators are translated back',
     [(TR + 'translate_tflite.cc', 'return "RELU_N1_TO_1";', 'return "RELU6";')],
     TRN + LEG % (raw(chain([], act='RELU_N1_TO_1')), BACK), passes=['legalize_tflite', 'translate_tflite'])
EXEC = '''#include "exec.h"
DEMO({
  const std::string text = %s;
  auto m = ev::Parse(text);
  std::string d;
  std::vector<std::vector<Tensor>> want(4);
  Inputs in;
%s  for (int i = 0; i < 4; ++i) if (ev::Run(*m->getOps<func::FuncOp>().begin(), in[i], want[i], d) != ev::OK) return EX->fail("senseless: %%s", d.c_str());
  if (!ev::RunPasses(*m, [](OpPassManager& pm) { %s }, d)) return EX->fail("the passes fail: %%s", d.c_str());
  for (int k : {%s})
    for (int i = 0; i < 4; ++i) {
      Exec x;
      x.kernel = k;
      ev::Custom = std::ref(x);
      std::vector<Tensor> got;
      if (ev::Run(*m->getOps<func::FuncOp>().begin(), in[i], got, d) != ev::OK) return EX->fail("does not run: %%s", d.c_str());
      const std::string e = ev::Diff(want[i], got, 0);
      if (!e.empty()) return EX->fail("the runtime: %%s", e.c_str());
    }
})
'''
LEGP = 'pm.addPass(TFL::CreateLegalizeLCEPass());'
seed('k13a', 'K13', 'a max pooling whose stride differs in the two directions', 'the runtime reads the vertical stride of a max pooling from the option of the horizontal one',
     [(KN + 'bmaxpool.cc', 'm["stride_height"].AsInt32()', 'm["stride_width"].AsInt32()')],
     EXEC % (raw(lqpool().replace('stride_width = 2', 'stride_width = 5').replace('tensor<1x4x3x1xi32>', 'tensor<1x4x2x1xi32>')), fill([1, 8, 8, 1], 'i32', BITS(32), 4), LEGP, '0'), kind='driver', src=['ir/lce_ops', 'transforms/bitpack', 'transforms/legalize_tflite'])
seed('k13b', 'K13', 'a convolution with different vertical and horizontal dilation', 'the converter writes the vertical dilation of a convolution into both options',
     [(X + 'ir/lce_ops.cc', 'fbb.Int("dilation_width_factor", getDilationWidthFactor());', 'fbb.Int("dilation_width_factor", getDilationHeightFactor());')],
     EXEC % (raw(chain([], hw=(4, 4), di=(2, 1))), fill([1, 4, 4, 1], 'i32', BITS(3), 4), BW + LEGP, '0'), kind='driver', src=['ir/lce_ops', 'transforms/bitpack', 'transforms/legalize_tflite', 'transforms/bitpack_weights'])

# ------------------------------------------------------------------------ M10
DET = """namespace mlir { namespace TFL { std::unique_ptr<OperationPass<func::FuncOp>> QuantizeDetectionPostProcessPass(); } }
DEMO({
  auto m = ev::Parse(%s);
  std::string d;
  if (!ev::RunPasses(*m, [](OpPassManager& pm) { pm.addPass(TFL::QuantizeDetectionPostProcessPass()); }, d)) return EX->fail("the pass fails: %%s", d.c_str());
  %s
})
"""
def det(q, order='012'):
    s = ['1x10x4x', '1x10x2x', '10x4x']
    qt = ['tensor<%s!quant.uniform<%s>>' % (a, b) for a, b in zip(s, q)]
    ft = ['tensor<%sf32>' % a for a in s]
    o = 'tensor<1x20x4xi32>, tensor<1x20xi32>, tensor<1x20xf32>, tensor<1xi32>'
    return fn(', '.join('%%q%d: %s' % i for i in enumerate(qt)), o, ''.join('  %%d%d = "tfl.dequantize"(%%q%d) : (%s) -> %s\n' % (i, i, qt[i], ft[i]) for i in range(3)) +
      '  %%r:4 = "tfl.custom"(%%d0, %%d1, %%d2) {custom_code = "TFLite_Detection_PostProcess", custom_option = #tfl<const_bytes : "0x00">} : (%s) -> (%s)\n' % (', '.join(ft), o), '%r#0, %r#1, %r#2, %r#3')
DETCUSTOM = 'auto f = *m->getOps<func::FuncOp>().begin(); Operation* op = nullptr; f.walk([&](Operation* o) { if (o->getName().getStringRef() == "tfl.custom") op = o; });\n'
I8 = ['i8:f32, 0.5:3', 'i8:f32, 0.25:-7', 'i8:f32, 0.125']
seed('m10a', 'M10', 'detection post-processing of which only the anchors are not quantized to 8 bits', 'the element type of the boxes is checked twice and that of the anchors never',
     [(TR + 'detection_postprocess.cc', """         {original_boxes_dequantize_op, original_scores_dequantize_op,
          original_anchors_dequantize_op}) {""", """         {original_boxes_dequantize_op, original_scores_dequantize_op,
          original_boxes_dequantize_op}) {""")],
     DET % (raw(det(I8[:2] + ['i16:f32, 0.125'])), DETCUSTOM + '  for (Value v : op->getOperands()) if (!cast<ShapedType>(v.getType()).getElementType().isF32()) return EX->fail("rewritten\\n%s", ev::Print(*m).c_str());'), passes=['detection_postprocess'])
seed('m10b', 'M10', 'detection post-processing whose boxes and scores are quantized with different scales', 'the scores of a quantized detection get the zero point of the scores but the scale of the boxes',
     [(TR + 'detection_postprocess.cc', 'const auto scores_scale = scores_type.getScale();', 'const auto scores_scale =\n        boxes_input.getType()\n            .cast<ShapedType>()\n            .getElementType()\n            .cast<quant::UniformQuantizedType>()\n            .getScale();')],
     DET % (raw(det(I8)), DETCUSTOM + '  auto q = dyn_cast<quant::UniformQuantizedType>(cast<ShapedType>(op->getResult(2).getType()).getElementType());\n  if (!q || q.getScale() != 0.25 || q.getZeroPoint() != -7) return EX->fail("the scores\\n%s", ev::Print(*m).c_str());'), passes=['detection_postprocess'])

# ------------------------------------------------------------------- M11 - M14
PIPE = """#include "exec.h"
#include "standin/world.h"
using world::W;
void standin_init_module();
using Bytes = pybind11::bytes;
using Object = pybind11::object;
struct Call {
  bool saved = false, quantize = true, ranges = false, bundle = true;
  std::vector<std::string> in = {"x"}, types = {"DT_FLOAT"}, out = {"y"}, tags = {"serve"}, exported = {"serving_default"};
  std::vector<std::vector<int>> shapes = {{1, 2}};
  std::string target = "arm";
  double lo = -16, hi = 15.875;
};
// One conversion by the native entry points; true if it returns a model.
bool Convert(const Call& c, const std::string& text, int fail_at = -1, bool silent = false) {
  static bool once = [] { world::Setup(*ev::C); standin_init_module(); return true; }();
  W = world::World();
  W.text = text, W.bundle = c.bundle, W.fail_at = fail_at, W.silent = silent;
  const Object r = c.ranges ? Object(std::make_pair(c.lo, c.hi)) : Object();
  auto& fn = pybind11::module_::fn;
  try {
    if (c.saved) ((Bytes (*)(const std::string&, const std::vector<std::string>&, const std::vector<std::string>&, const int, const std::string&, const Object&))fn.at("convert_saved_model_to_tflite_flatbuffer"))("/m", c.tags, c.exported, 1, c.target, r);
    else ((Bytes (*)(const Bytes&, const std::vector<std::string>&, const std::vector<std::string>&, const std::vector<std::vector<int>>&, const std::vector<std::string>&, const bool, const std::string&, const Object&))fn.at("convert_graphdef_to_tflite_flatbuffer"))(Bytes("G"), c.in, c.types, c.shapes, c.out, c.quantize, c.target, r);
  } catch (std::exception& e) { return false; }
  return true;
}
// The exported model computes what `want` computes.
void Computes(const std::string& want, const Shape& xs, int kernel) {
  auto m = ev::Parse(W.r.module), w = ev::Parse(want);
  for (int k = 0; k < 6; ++k) {
    std::vector<Tensor> in = {Fill(xs, "f32", [&](int64_t i) { return std::vector<double>{-2, -1, -0.5, -0.25, 0, 0.25, 0.5, 1, 2}[(i * (k + 2) + k * k + (i >> 1)) % 9]; })}, a, b;
    std::string d;
    if (ev::Run(*w->getOps<func::FuncOp>().begin(), in, a, d) != ev::OK) { fprintf(stderr, "%s", d.c_str()); exit(3); }
    Exec x;
    x.kernel = kernel;
    ev::Custom = std::ref(x);
    if (ev::Run(*m->getOps<func::FuncOp>().begin(), in, b, d) != ev::OK) return EX->fail("does not run: %s\\n%s", d.c_str(), W.r.module.c_str());
    const std::string e = ev::Diff(a, b, 0);
    if (!e.empty()) return EX->fail("%s\\n%s", e.c_str(), W.r.module.c_str());
  }
}
int Bconvs() { auto m = ev::Parse(W.r.module); int n = 0; m->walk([&](Operation* x) { if (auto c = x->getAttrOfType<StringAttr>("custom_code")) n += c.getValue() == "LceBconv2d"; }); return n; }
"""
ATTR = ' attributes {tf.entry_function = {inputs = "x", outputs = "y"}}'
def sign(n, x, t):
    return ('  %%z%s = arith.constant dense<0.0> : tensor<f32>\n  %%p%s = arith.constant dense<1.0> : tensor<f32>\n  %%n%s = arith.constant dense<-1.0> : tensor<f32>\n  %%g%s = "tf.GreaterEqual"(%s, %%z%s) : (%s, tensor<f32>) -> %s\n  %%s%s = "tf.SelectV2"(%%g%s, %%p%s, %%n%s) : (%s, tensor<f32>, tensor<f32>) -> %s\n'
            % (n, n, n, n, x, n, t, t.replace('f32', 'i1'), n, n, n, n, t.replace('f32', 'i1'), t))
def model(batch, latent, st=(1, 1), pad='VALID', tail=None, fs=(2, 1, 2, 3)):
    """A binarized convolution; latent: None, 'global' or 'session'; its reference with latent=None."""
    xs = [batch, 4, 3, 2]; xt = ty(xs); vals = [v * 0.5 for v in w(fs[0] * fs[1] * fs[2], fs[3])]
    os = [batch] + ([-(-4 // st[0]), -(-3 // st[1])] if pad == 'SAME' else [(4 - fs[0]) // st[0] + 1, (3 - fs[1]) // st[1] + 1]) + [3]; ot = ty(os)
    b = sign('x', '%x', xt); g = ''; s = ''
    if latent == 'global':
        g = '"tf_saved_model.global_tensor"() {name = "w", is_mutable, value = %s} : () -> ()\n' % dense(vals, fs)
        b += '  %w = "tf.ReadGlobal"() {name = "w"} : () -> ' + ty(fs) + '\n' + sign('w', '%w', ty(fs))
    elif latent == 'session':
        s = 'w = ' + dense(vals, fs)
        b += '  %w = "tf.ReadVariable"() {name = "w"} : () -> ' + ty(fs) + '\n' + sign('w', '%w', ty(fs))
    else: b += '  %sw = arith.constant ' + dense([1 if v > 0 else -1 for v in vals], fs) + '\n'
    b += '  %c = ' + tfconv('%sx', '%sw', xt, ty(fs), ot, st, pad=pad) + '\n'
    v = '%c'
    for i, (op, c) in enumerate(tail or []):
        if c: b += '  %%k%d = arith.constant %s\n  %%t%d = "tf.%s"(%s, %%k%d) : (%s, %s) -> %s\n' % (i, dense(c, [len(c)]), i, op, v, i, ot, ty([len(c)]), ot)
        else: b += '  %%t%d = "tf.%s"(%s) : (%s) -> %s\n' % (i, op, v, ot, ot)
        v = '%%t%d' % i
    return 'module attributes {standin.session = {%s}} {\n%sfunc.func @main(%%x: %s) -> %s%s {\n%s  return %s : %s\n}\n}\n' % (s, g, xt, ot, ATTR, b, v, ot)
def pipe(text, setup, after): return PIPE + 'DEMO({\n  Call c;\n  %s\n  if (!Convert(c, %s)) return EX->fail("the conversion fails: %%s", W.errors.c_str());\n  %s\n})\n' % (setup, raw(text), after)
P = dict(kind='driver')
seed('m11a', 'M11', 'a saved model whose latent binary weights are immutable global tensors', 'global tensors are only frozen after constants have been folded, so binary weights behind a sign are not recognized',
     [(X + 'tf_tfl_passes.cc', """  pass_manager->addPass(mlir::tf_saved_model::CreateFreezeGlobalTensorsPass());

  if (!saved""", "  if (!saved"),
      (X + 'tf_tfl_passes.cc', """  // This pass does dead code elimination based on symbol visibility.
  pass_manager->addPass(mlir::createSymbolDCEPass());
""", """  pass_manager->addPass(mlir::tf_saved_model::CreateFreezeGlobalTensorsPass());
  // This pass does dead code elimination based on symbol visibility.
  pass_manager->addPass(mlir::createSymbolDCEPass());
""")], pipe(model(-1, 'global'), 'c.saved = true;', 'if (Bconvs() != 1) return EX->fail("%d binary convolutions\\n%s", Bconvs(), W.r.module.c_str());\n  Computes(' + raw(model(1, None)) + ', {1, 4, 3, 2}, 0);'), **P)
seed('m11b', 'M11', 'any quantized conversion of a model with float inputs', 'the conversions between the float input and the quantized graph are removed, which makes the input of the model 8 bits wide',
     [(X + 'tf_tfl_passes.cc', 'quant_specs.inference_type != quant_specs.inference_input_type;', 'quant_specs.inference_type == quant_specs.inference_input_type;')],
     pipe(model(1, None, tail=[('Relu', None)]).replace('%gx = "tf.GreaterEqual"(%x,', '%f = "tf.FakeQuantWithMinMaxArgs"(%x) {min = -16.0 : f32, max = 15.875 : f32, num_bits = 8 : i64, narrow_range = false} : (tensor<1x4x3x2xf32>) -> tensor<1x4x3x2xf32>\n  %gx = "tf.GreaterEqual"(%f,'), 'c.ranges = true;',
          'auto m = ev::Parse(W.r.module); for (Type t : (*m->getOps<func::FuncOp>().begin()).getFunctionType().getInputs()) if (!cast<ShapedType>(t).getElementType().isF32()) return EX->fail("%s", W.r.module.c_str());'), **P)
seed('m11c', 'M11', 'a model that is quantized with default ranges and has a binary convolution with a float result', 'binary convolutions keep a float result when the default ranges are applied',
     [(X + 'tf_tfl_passes.cc', """  pass_manager.addNestedPass<mlir::func::FuncOp>(
      mlir::TFL::CreateLCEQuantizePass());

  if (quant""", "  if (quant"),
      (X + 'tf_tfl_passes.cc', """            quant_specs.IsSignedInferenceType()));
    pass_manager.addNestedPass<mlir::func::FuncOp>(
        mlir::TFL::CreateLCEQuantizePass());
""", """            quant_specs.IsSignedInferenceType()));
"""),
      (X + 'tf_tfl_passes.cc', """  pass_manager.addNestedPass<mlir::func::FuncOp>(
      mlir::TFL::CreateLCEQuantizePass());
  pass_manager.addNestedPass<mlir::func::FuncOp>(
      mlir::TFL::CreatePostQuantizePass(emit_quant_adaptor_ops));
  pass_manager.addNestedPass<mlir::func::FuncOp>(
      mlir::TFL::CreateOptimizeOpOrderPass());""", """  pass_manager.addNestedPass<mlir::func::FuncOp>(
      mlir::TFL::CreateOptimizeOpOrderPass());""")],
     pipe(model(1, None), 'c.ranges = true;', 'auto m = ev::Parse(W.r.module); m->walk([&](Operation* x) { auto a = x->getAttrOfType<StringAttr>("custom_code"); if (a && a.getValue() == "LceBconv2d" && cast<ShapedType>(x->getResult(0).getType()).getElementType().isF32()) EX->fail("%s", W.r.module.c_str()); });'), **P)
seed('m12a', 'M12', 'a binary convolution with a filter that is not square', 'the runtime counts the values under a filter as if it were square',
     [(KN + 'bconv2d.cc', 'filter_shape.Dims(1) * filter_shape.Dims(2) * channels_in_per_group;', 'filter_shape.Dims(2) * filter_shape.Dims(2) * channels_in_per_group;')],
     pipe(model(1, None, tail=[('Mul', [0.5, -1, 2]), ('AddV2', [1, 0.5, -1])]), 'c.quantize = false;', 'for (int k : {0, 1, 2}) Computes(' + raw(model(1, None, tail=[('Mul', [0.5, -1, 2]), ('AddV2', [1, 0.5, -1])])) + ', {1, 4, 3, 2}, k);'), **P)
seed('m12b', 'M12', 'a binary convolution with SAME zero padding and strides that differ', 'binary convolutions injected for zero padding get the horizontal stride in both directions',
     [(TR + 'prepare_patterns_common.td', 'ExtractI32At<1>:$strides', 'ExtractI32At<2>:$strides', 1)],
     pipe(model(1, None, st=(2, 1), pad='SAME'), 'c.quantize = false;', 'Computes(' + raw(model(1, None, st=(2, 1), pad='SAME')) + ', {1, 4, 3, 2}, 2);'), **P)
PLAIN = lambda n: 'func.func @main(%s) -> tensor<1x2xf32> attributes {tf.entry_function = {inputs = "%s", outputs = "y"}} {\n  return %%a0 : tensor<1x2xf32>\n}\n' % (', '.join('%%a%d: tensor<1x2xf32>' % i for i in range(n)), ','.join('x%d' % i for i in range(n)))
seed('m13a', 'M13', 'a graph with an input that is a vector', 'shapes with a single dimension are treated as unknown',
     [(X + 'python/graphdef_tfl_flatbuffer.cc', 'if (x.size() > 0) {', 'if (x.size() > 1) {')],
     pipe(PLAIN(1), 'c.shapes = {{5}};', 'if (W.r.in_shapes.size() != 1 || !W.r.in_shapes[0] || *W.r.in_shapes[0] != std::vector<int>{5}) EX->fail("the shape is lost");'), **P)
seed('m13b', 'M13', 'a saved model with several inputs', 'only the first input of a saved model is considered when it is quantized',
     [(X + 'python/common.cc', '  *num_inputs = function_input_names.size();', '  *num_inputs = function_input_names.empty() ? 0 : 1;')],
     pipe(PLAIN(3), 'c.saved = true;', 'if (W.r.input_ranges.size() != 3) EX->fail("%d input ranges", (int)W.r.input_ranges.size());'), **P)
seed('m13c', 'M13', 'default ranges for a graph that is not to be quantized', 'default ranges turn quantization on even where it was not requested',
     [(X + 'python/common.cc', '  if (should_quantize) {', '  if (should_quantize || !default_ranges.is_none()) {')],
     pipe(PLAIN(1), 'c.quantize = false; c.ranges = true;', 'if (W.r.quantized) EX->fail("the model is quantized");'), **P)
FAILS = PIPE.replace("%", "%%") + """DEMO({
  Call c;
  %s
  const std::string text = %s;
  if (!Convert(c, text)) return EX->fail("the conversion fails: %%s", W.errors.c_str());
  const int n = W.step;
  for (int silent = 0; silent < 2; ++silent)
    for (int i = 0; i < n; ++i) {
      if (Convert(c, text, i, silent)) return EX->fail("step %%d (%%s) fails but a model is returned", i, W.log.back().c_str());
    }
})
"""
seed('m14a', 'M14', 'a session whose variables cannot be frozen, without a diagnostic', 'a failure to freeze the variables is reported only through diagnostics',
     [(X + 'tf_to_tfl_flatbuffer.cc', """    return statusHandler.Combine(
        absl::InvalidArgumentError("Variable constant folding is failed."));""", "    return statusHandler.ConsumeStatus();")], FAILS % ('c.saved = true;', raw(PLAIN(1))), **P)
seed('m14b', 'M14', 'output arrays that cannot be parsed', 'the conversion of a graph goes on with the output arrays that could be parsed',
     [(X + 'python/graphdef_tfl_flatbuffer.cc', """  if (!ParseOutputArrayInfo(output_arrays, &specs.outputs).ok()) {
    throw std::runtime_error("Could not parse output arrays.");
  }""", """  ParseOutputArrayInfo(output_arrays, &specs.outputs).IgnoreError();
  if (specs.outputs.size() > output_arrays.size()) {
    throw std::runtime_error("Could not parse output arrays.");
  }""")], FAILS % ('', raw(PLAIN(1))), **P)
