T = 'larq_compute_engine/tflite/kernels/'
C = 'larq_compute_engine/core/'
# Compares one convolution with the reference model for several contents.
CONV = '''
static int Check(const Geo& g, int kern, int type, int zp = 3, int thrBase = 0) {
  OutSpec s = DyadicSpec(g, type, 1);
  s.zp = zp;
  if (thrBase) for (auto& t : s.thr) t = thrBase;
  int bad = 0;
  for (int wp = 0; wp < 4; ++wp) {
    Bits w = Pattern(g.nW(), 2 + wp);
    ConvOp op(g, Reg(kern), s, w);
    if (op.prep != kTfLiteOk) { printf("rejected %s\\n", g.str().c_str()); return 1; }
    for (int p = 0; p < 6; ++p) {
      Bits x = Pattern(g.nIn(), p);
      std::vector<int> acc;
      Model(g, x, w, acc);
      op.SetInput(g, x);
      op.Run();
      std::string e = Compare(g, s, acc, op.it.data<char>(op.out), op.it.bytes(op.out));
      if (!e.empty()) { if (!bad) printf("%s %s: %s\\n", kKernN[kern], g.str().c_str(), e.c_str()); ++bad; }
    }
  }
  return bad;
}
'''
SEEDS = [
 dict(id='s01', property='K01', needs='a SAME-padded convolution with different vertical and horizontal dilation',
  what='vertical and horizontal dilation are swapped when the padding and output size are computed, so pixels of SAME-padded convolutions are taken from shifted positions',
  edits=[(T+'bconv2d.cc','''      bconv2d_params->dilation_height_factor,
      bconv2d_params->dilation_width_factor, SizeOfDimension(input, 1),''','''      bconv2d_params->dilation_width_factor,
      bconv2d_params->dilation_height_factor, SizeOfDimension(input, 1),''')],
  demo=CONV+'''
int main() {
  Geo g; g.H = 7; g.W = 8; g.Ci = 33; g.Co = 3; g.fh = 3; g.fw = 3; g.dh = 2; g.dw = 1; g.pad = SAME_ONE;
  return (Check(g, REF, FLOAT) + Check(g, BGEMM, FLOAT)) != 0;
}'''),
 dict(id='s02', property='K02', needs='zero padding, stride of at least 2 and an image width for which the right border is not aligned with the stride',
  what='when skipping the interior of a row, the zero-padding correction steps over the first output pixel that touches the right border',
  edits=[(C+'bconv2d/zero_padding_correction.h','''                           effective_filter_width + stride_cols - 1) /
                              stride_cols -
                          1;''','''                           effective_filter_width + stride_cols - 1) /
                              stride_cols;''')],
  demo=CONV+'''
int main() {
  int bad = 0;
  for (int W = 4; W < 12; ++W) for (int s = 1; s < 4; ++s) {
    Geo g; g.H = 9; g.W = W; g.Ci = 32; g.Co = 5; g.fh = 3; g.fw = 3 + s; g.sh = s; g.sw = s; g.pad = SAME_ZERO;
    bad += Check(g, BGEMM, FLOAT) + Check(g, INDIRECT, FLOAT);
  }
  return bad != 0;
}'''),
 dict(id='s03', property='K03', needs='the indirect kernel with bitpacked output and a number of output channels (per group) that is 3 modulo 4',
  what='the bits of the kernel lanes beyond the last output channel of a group are not cleared when exactly one lane is unused',
  edits=[(C+'indirect_bgemm/kernel_4x2_portable.h','          if (gap_to_group_end < 4) {','          if (gap_to_group_end < 3) {')],
  demo=CONV+'''
int main() {
  int bad = 0;
  for (int co : {3, 7, 14}) {
    Geo g; g.H = 3; g.W = 3; g.Ci = 64; g.Co = co; g.fh = 2; g.fw = 2;
    if (co == 14) g.groups = 2;
    bad += Check(g, INDIRECT, BITS, 3, 100) + Check(g, INDIRECT, BITS);
  }
  return bad != 0;
}'''),
 dict(id='s04', property='K04', needs='int8 output whose value saturates at the low end',
  what='int8 results saturate at -127 instead of -128',
  edits=[(C+'bconv2d/output_transform.h','  x = std::max<std::int32_t>(x, std::numeric_limits<std::int8_t>::lowest());','  x = std::max<std::int32_t>(x, -std::numeric_limits<std::int8_t>::max());')],
  demo=CONV+'''
int main() {
  Geo g; g.H = 3; g.W = 3; g.Ci = 32; g.Co = 8; g.fh = 3; g.fw = 3;
  return (Check(g, REF, INT8, -100) + Check(g, BGEMM, INT8, -100)) != 0;
}'''),
 dict(id='s05', property='K06', needs='an interpreter whose input is resized to a bigger image after a first allocation, with the im2col kernel',
  what='the im2col buffer keeps the size of the first allocation when the operator is prepared again for another input shape',
  edits=[(T+'bconv2d.cc','''    im2col->allocation_type = kTfLiteArenaRw;
    TF_LITE_ENSURE_STATUS(context->ResizeTensor(context, im2col, im2col_size));''','''    im2col->allocation_type = kTfLiteArenaRw;
    if (im2col->dims->size == 4 &&
        im2col->dims->data[3] == im2col_size->data[3]) {
      TfLiteIntArrayFree(im2col_size);
    } else {
      TF_LITE_ENSURE_STATUS(
          context->ResizeTensor(context, im2col, im2col_size));
    }''')],
  demo='''
// prepare, resize, prepare, invoke
int main() {
  Geo a; a.H = 4; a.W = 4; a.Ci = 40; a.Co = 3; a.fh = 3; a.fw = 3; a.pad = SAME_ONE;
  Geo b = a; b.H = 5; b.W = 6;
  OutSpec s = DyadicSpec(a, FLOAT);
  Bits w = Pattern(a.nW(), 3);
  ConvOp op(a, Reg(BGEMM), s, w);
  op.it.arena = false;
  op.it.Resize(op.in, {b.B, b.H, b.W, b.Cw()});
  if (op.it.Allocate() != kTfLiteOk) return 1;
  const int t = op.it.nodes[0]->n.temporaries->size ? op.it.nodes[0]->n.temporaries->data[0] : -1;
  if (t < 0 || t >= op.it.nt) { printf("no im2col tensor\\n"); return 1; }
  if (op.it.bytes(t) < (size_t)b.OH() * b.OW() * 9 * b.Cw() * 4) { printf("im2col buffer too small: %zu bytes\\n", op.it.bytes(t)); return 1; }
  Bits x = Pattern(b.nIn(), 4);
  std::vector<int> acc;
  Model(b, x, w, acc);
  op.SetInput(b, x);
  op.Run();
  std::string e = Compare(b, s, acc, op.it.data<char>(op.out), op.it.bytes(op.out));
  printf("%s\\n", e.c_str());
  return !e.empty();
}'''),
 dict(id='s06', property='K07', needs='a grouped convolution whose packed channels divide evenly although the channels per group are not a multiple of 32',
  what='grouped convolutions whose groups do not start at word boundaries are accepted and computed with the wrong channels',
  edits=[(T+'bconv2d.cc','''    TF_LITE_ENSURE_EQ(context, group_size % core::bitpacking_bitwidth, 0);''','''    TF_LITE_ENSURE_EQ(context, GetBitpackedSize(group_size),
                      SizeOfDimension(filter, 3));''')],
  demo='''
int main() {
  Geo g; g.H = 2; g.W = 2; g.Ci = 80; g.Co = 6; g.groups = 3;
  Geo full = g; full.Ci = 96;
  OutSpec s = DyadicSpec(full, FLOAT);
  Interp it;
  int in = it.Tensor(kTfLiteInt32, {1, 2, 2, 3}), w = it.Tensor(kTfLiteInt32, {6, 1, 1, 1}, kTfLiteMmapRo);
  int m = it.Tensor(kTfLiteFloat32, {6}, kTfLiteMmapRo), b = it.Tensor(kTfLiteFloat32, {6}, kTfLiteMmapRo), o = it.Tensor(kTfLiteFloat32, {});
  it.Node(Reg(REF), {in, w, m, b, -1}, {o}, ConvOptions(g));
  if (it.Allocate() != kTfLiteOk) { printf("rejected: %s\\n", it.error.c_str()); return 0; }
  printf("26.67 channels per group accepted\\n");
  return 1;
}'''),
 dict(id='s07', property='K08', needs='a multi-threaded run that cuts the rows (output channels) of the GEMM into several blocks',
  what='the output transform is applied with the channel index counted from the start of the block instead of the matrix, so any block that does not start at row 0 uses the wrong multiplier and bias',
  edits=[(C+'bgemm/kernels.h','''        // Post-process the accumulated value and store the result
        *ElementPtr(dst, i, j) = output_transform.Run(accum, i);
      }
    }
  }
};

// A portable C++ kernel for bitpacked output.''','''        // Post-process the accumulated value and store the result
        *ElementPtr(dst, i, j) = output_transform.Run(accum, i - start_row);
      }
    }
  }
};

// A portable C++ kernel for bitpacked output.''')],
  demo='''
int main() {
  Geo g; g.H = 1; g.W = 3; g.Ci = 40; g.Co = 6;
  OutSpec s = DyadicSpec(g, FLOAT);
  Bits w = Pattern(g.nW(), 3), x = Pattern(g.nIn(), 4);
  ConvOp op(g, Reg(BGEMM), s, w);
  std::vector<int> acc;
  Model(g, x, w, acc);
  op.SetInput(g, x);
  // two row blocks, as two threads would be given
  ruy::mc::Plan plan{[&](ruy::TrMulParams* p) {
    for (ruy::Side side : {ruy::Side::kLhs, ruy::Side::kRhs})
      if (!p->is_prepacked[side]) ruy::mc::Pack(p, side, 0, p->packed_matrix[side].layout.cols);
    const int R = p->packed_matrix[ruy::Side::kLhs].layout.cols, N = p->packed_matrix[ruy::Side::kRhs].layout.cols;
    const int k = p->packed_matrix[ruy::Side::kLhs].layout.kernel.cols;
    const int cut = R / k / 2 * k;
    ruy::mc::Kernel(p, {cut, R, 0, N});
    ruy::mc::Kernel(p, {0, cut, 0, N});
  }};
  ruy::mc::plan() = &plan;
  op.Run();
  ruy::mc::plan() = nullptr;
  std::string e = Compare(g, s, acc, op.it.data<char>(op.out), op.it.bytes(op.out));
  printf("%s\\n", e.c_str());
  return !e.empty();
}'''),
 dict(id='s08', property='K09', needs='int8 input with a positive zero point and a row length that is not a multiple of 32',
  what='the unused bits of the last word of a row are set instead of cleared',
  edits=[(C+'bitpacking/bitpack.h','''      padding_buffer[i] = zero_point;''','''      padding_buffer[i] = TIn(0);''')],
  demo='''
int main() {
  for (int zp : {-5, 0, 5}) {
    UnaryOp q(Register_QUANTIZE(), kTfLiteInt8, {2, 37}, 0.5f, zp, kTfLiteInt32, {2, 37}, 0, 0);
    std::vector<int8_t> v(74, 100);
    q.it.Set(q.in, v.data(), 74);
    q.Run();
    for (int i = 0; i < 4; ++i)
      if (q.it.data<int>(q.out)[i]) { printf("zero point %d: word %d is %08x\\n", zp, i, q.it.data<int>(q.out)[i]); return 1; }
  }
  return 0;
}'''),
 dict(id='s09', property='K10', needs='int8 output with a zero point near the end of the range, so that +1 saturates',
  what='the +1 value is clamped after the conversion to int8, so a saturating +1 wraps around to a negative value',
  edits=[(T+'quantization.cc','''        std::min(127, output->params.zero_point + offset);''','''        std::min(std::int32_t(255), output->params.zero_point + offset);''')],
  demo='''
int main() {
  for (int zp : {0, 100, 120, 127}) {
    UnaryOp q(Register_DEQUANTIZE(), kTfLiteInt32, {1, 1}, 0, 0, kTfLiteInt8, {1, 3}, 0.0625f, zp);
    int32_t w = 2;
    q.it.Set(q.in, &w, 4);
    q.Run();
    const int8_t* o = q.it.data<int8_t>(q.out);
    const int hi = std::min(127, zp + 16), lo = std::max(-128, zp - 16);
    if (o[0] != hi || o[1] != lo || o[2] != hi) { printf("zero point %d: %d %d %d\\n", zp, o[0], o[1], o[2]); return 1; }
  }
  return 0;
}'''),
 dict(id='s10', property='K11', needs='a SAME-padded pooling window that hangs over the left and the right border at once (filter wider than the image)',
  what='the window is clamped at the left border but its width at the right border is not reduced accordingly, so values of the next row are included',
  edits=[(C+'bmaxpool.h','''            std::min(filter_width - filter_x_start, input_width - in_x);''','''            filter_x_start > 0
                ? filter_width - filter_x_start
                : std::min(filter_width, input_width - in_x);''')],
  demo='''
int main() {
  for (int W = 1; W < 6; ++W) for (int f = 1; f < 6; ++f) {
    PoolGeo g; g.B = 1; g.H = 3; g.W = W; g.C = 40; g.fh = 2; g.fw = f; g.pad = SAME_ONE;
    UnaryOp p(Register_BMAXPOOL_2D(), kTfLiteInt32, {1, 3, W, 2}, 0, 0, kTfLiteInt32, {}, 0, 0, PoolOptions(g));
    std::vector<uint32_t> in(3 * W * 2);
    for (size_t i = 0; i < in.size(); ++i) in[i] = 0xffffffffu ^ (1u << i);
    p.it.Set(p.in, in.data(), in.size() * 4);
    p.Run();
    auto e = PoolModel(g, in);
    if (p.it.bytes(p.out) != e.size() * 4 || memcmp(e.data(), p.it.data<char>(p.out), e.size() * 4)) { printf("%s differs\\n", g.str().c_str()); return 1; }
  }
  return 0;
}'''),
 dict(id='s11', property='K12', needs='both registration flags set',
  what='the indirect BGEMM flag takes precedence over the reference flag although the reference implementation was requested',
  edits=[(T+'lce_ops_register.h','''  if (use_reference_bconv) {
    resolver''','''  if (use_reference_bconv && !use_indirect_bgemm) {
    resolver''')],
  demo='''
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
int main() {
  ::tflite::MutableOpResolver r;
  RegisterLCECustomOps(&r, true, true);
  auto* b = r.FindOp("LceBconv2d", 1);
  if (b->invoke != Register_BCONV_2D_REF()->invoke) { printf("not the reference implementation\\n"); return 1; }
  return 0;
}'''),
 dict(id='s12', property='K05', needs='a zero-padded convolution with the optimized kernels and a dilation along the width only',
  what='the padding-correction cache is allocated for the undilated filter width, so filling it writes behind the buffer',
  edits=[(C+'bconv2d/zero_padding_correction.h','''  return 4 * effective_filter_height * effective_filter_width * filter_count;''','''  return 4 * effective_filter_height * filter_count *
         (dilation_rows > 1 ? effective_filter_width : filter_width);''')],
  demo='''
#define zero_padding_correction demo_copy
#include "larq_compute_engine/core/bconv2d/zero_padding_correction.h"
int main() {
  namespace z = compute_engine::core::bconv2d::demo_copy;
  for (int dh = 1; dh < 4; ++dh) for (int dw = 1; dw < 4; ++dw) {
    const size_t want = 4u * (2 * dh + 1) * (2 * dw + 1) * 5;
    if (z::GetCacheSize(3, 3, 5, dh, dw) < want) { printf("cache for dilation %dx%d: %zu < %zu\\n", dh, dw, z::GetCacheSize(3, 3, 5, dh, dw), want); return 1; }
  }
  return 0;
}'''),
]
