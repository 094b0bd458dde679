import importlib.util, os
sp = importlib.util.spec_from_file_location('k', os.path.dirname(os.path.abspath(__file__)) + '/seeds_kernels.py')
k = importlib.util.module_from_spec(sp)
sp.loader.exec_module(k)
T, C, CONV = k.T, k.C, k.CONV
SEEDS = [
 dict(id='a01a', kind='a64', property='A01', needs='int8 output with a value beyond 16 bits (a large multiplier) in the fourth column of a block of the 32-bit binary GEMM, which is only used for more than 65024 bits per output',
  what='the fourth column of a block wraps around instead of saturating when it is narrowed to 16 bits',
  edits=[(C+'bgemm/kernels_aarch64.h','"sqxtn v27.4h, v27.4s\\n"','"xtn v27.4h, v27.4s\\n"')],
  demo='''
int main() {
  Geo g; g.H = 1; g.W = 4; g.Ci = 65056; g.Co = 4; g.pad = VALID;
  int bad = 0;
  for (double scale : {0.5, 1.0, 3.0, 7.0}) {
    OutSpec s = DyadicSpec(g, INT8, 1);
    s.zp = 0;
    for (auto& m : s.mul) m = scale;
    Bits w = Pattern(g.nW(), 0), x = Pattern(g.nIn(), 0);
    ConvOp op(g, Reg(BGEMM), s, w);
    if (op.prep != kTfLiteOk) return 1;
    std::vector<int> acc;
    Model(g, x, w, acc);
    op.SetInput(g, x);
    op.Run();
    std::string e = Compare(g, s, acc, op.it.data<char>(op.out), op.it.bytes(op.out));
    if (!e.empty()) { printf("%s\\n", e.c_str()); ++bad; }
  }
  return bad != 0;
}'''),
 dict(id='a01b', kind='a64', property='A01', needs='a grouped convolution through the indirect kernel with 64 bits (or an odd multiple) per group and a multiple of 8 output channels per group',
  what='the last full block of output channels of a group does not advance to the input channels of the next group',
  edits=[(C+'indirect_bgemm/kernel_8x4x2_aarch64.h','c_out_index >= group_end_output_channel - 8','c_out_index > group_end_output_channel - 8')],
  demo=CONV+'''
int main() {
  Geo g; g.H = 3; g.W = 3; g.Ci = 128; g.Co = 16; g.groups = 2; g.fh = 2; g.fw = 2; g.pad = SAME_ONE;
  return Check(g, INDIRECT, FLOAT) != 0;
}'''),
 dict(id='a01c', kind='a64', property='A01', needs='225 to 256 channels (per group) through the indirect kernel',
  what='convolutions with 8 words of input channels are given to the kernel that processes only 4 of them',
  edits=[(C+'indirect_bgemm/select_kernel.h','if (input_depth_per_group > 4) {','if (input_depth_per_group > 8) {')],
  demo=CONV+'''
int main() {
  Geo g; g.H = 3; g.W = 3; g.Ci = 256; g.Co = 5; g.fh = 2; g.fw = 2; g.pad = SAME_ONE;
  return Check(g, INDIRECT, FLOAT) != 0;
}'''),
 dict(id='a01d', kind='a64', property='A01', needs='a convolution of 65536 to 131071 bits per output through the optimized kernel',
  what='the accumulators with 16 bits are used for convolutions whose sums need 17',
  edits=[(T+'bconv2d.cc','if (depth + 512 < 1 << 16) {','if (depth + 512 < 1 << 17) {')],
  demo='''
int main() {
  Geo g; g.H = 1; g.W = 5; g.Ci = 66048; g.Co = 4; g.pad = VALID;
  OutSpec s = DyadicSpec(g, FLOAT, 1);
  int bad = 0;
  for (int flip = 0; flip < 2; ++flip) {
    Bits w = Pattern(g.nW(), 0), x = Pattern(g.nIn(), 0);
    if (flip) for (size_t i = 0; i < x.size(); ++i) x[i] = !w[i % g.Ci];
    ConvOp op(g, Reg(BGEMM), s, w);
    if (op.prep != kTfLiteOk) return 1;
    std::vector<int> acc;
    Model(g, x, w, acc);
    op.SetInput(g, x);
    op.Run();
    std::string e = Compare(g, s, acc, op.it.data<char>(op.out), op.it.bytes(op.out));
    if (!e.empty()) { printf("%s\\n", e.c_str()); ++bad; }
  }
  return bad != 0;
}'''),
 dict(id='a01e', kind='a64', property='A01', needs='a float output with 6 or 7 channels behind the last full block of 8, through the indirect kernel with an odd number of input words',
  what='the sixth remaining channel of the third pixel of a block is taken from the wrong vector',
  edits=[(C+'indirect_bgemm/kernel_8x4x1_aarch64.h','''              STORE_SINGLE_ELEMENT_HIGH(1)
''','''              STORE_SINGLE_ELEMENT_HIGH(0)
''')],
  demo=CONV+'''
int main() {
  Geo g; g.H = 3; g.W = 3; g.Ci = 33 * 2; g.Co = 14; g.fh = 2; g.fw = 2; g.pad = SAME_ONE;
  return Check(g, INDIRECT, FLOAT) != 0;
}'''),
 dict(id='a02a', kind='a64', property='A02', needs='int8 values further than 127 from the zero point, in the last block of 128 values',
  what='the subtraction of the zero point wraps around in one quarter of the last block of int8 values',
  edits=[(C+'bitpacking/bitpack_aarch64.h','"sqsub v12.16b, v5.16b, v31.16b\\n"','"sub v12.16b, v5.16b, v31.16b\\n"',2)],
  demo='''
int main() {
  int bad = 0;
  for (int zp : {-100, 0, 100}) for (int k = 0; k < 256; ++k) {
    std::vector<int8_t> v(128);
    for (int i = 0; i < 128; ++i) v[i] = (int8_t)(i * 7 + k);
    UnaryOp op(Register_QUANTIZE(), kTfLiteInt8, {1, 1, 1, 128}, 1, zp, kTfLiteInt32, {1, 1, 1, 128}, 0, 0);
    op.it.Set(op.in, v.data(), 128);
    op.Run();
    const int32_t* o = op.it.data<int32_t>(op.out);
    for (int i = 0; i < 128; ++i) if ((o[i / 32] >> (i % 32) & 1) != (v[i] < zp)) { if (!bad) printf("zero point %d value %d\\n", zp, v[i]); ++bad; }
  }
  return bad != 0;
}'''),
 dict(id='a02b', kind='a64', property='A02', needs='at least two full blocks of 128 floats in a row',
  what='in all blocks of 128 floats but the last two bits of each byte are exchanged with those of another word',
  edits=[(C+'bitpacking/bitpack_aarch64.h','"uzp2 v6.16b, v28.16b, v30.16b\\n"','"uzp2 v6.16b, v30.16b, v28.16b\\n"',1)],
  demo='''
int main() {
  int bad = 0;
  for (int n : {128, 256, 384}) for (int k = 0; k < n; ++k) {
    std::vector<float> v(n);
    for (int i = 0; i < n; ++i) v[i] = i == k ? -1.f : 1.f;
    UnaryOp op(Register_QUANTIZE(), kTfLiteFloat32, {1, 1, 1, n}, 0, 0, kTfLiteInt32, {1, 1, 1, n}, 0, 0);
    op.it.Set(op.in, v.data(), n * 4);
    op.Run();
    const int32_t* o = op.it.data<int32_t>(op.out);
    for (int i = 0; i < n; ++i) if ((o[i / 32] >> (i % 32) & 1) != (i == k)) { if (!bad) printf("%d floats, %d is negative\\n", n, k); ++bad; }
  }
  return bad != 0;
}'''),
 dict(id='a03a', kind='a64', property='A03', needs='two one-padded convolutions with the indirect implementation; the one with the larger filter is prepared between runs of the other',
  what='all operators share one buffer of padding values; when it grows for one operator, the indirection buffers of the others keep pointing to its old place',
  edits=[(C+'indirect_bgemm/kernel.h','  std::vector<TBitpacked> zero_buffer;','  static inline std::vector<TBitpacked> zero_buffer;')],
  demo='''
int main() {
  Geo a; a.H = 3; a.W = 3; a.Ci = 33; a.Co = 4; a.fh = 3; a.fw = 3; a.pad = SAME_ONE;
  Geo b = a; b.Ci = 320;
  OutSpec sa = DyadicSpec(a, FLOAT, 1), sb = DyadicSpec(b, FLOAT, 1);
  Bits wa = Pattern(a.nW(), 2), wb = Pattern(b.nW(), 2), xa = Pattern(a.nIn(), 3), xb = Pattern(b.nIn(), 3);
  std::vector<int> acc;
  Model(a, xa, wa, acc);
  ConvOp p(a, Reg(INDIRECT), sa, wa), q(b, Reg(INDIRECT), sb, wb);
  p.SetInput(a, xa);
  q.SetInput(b, xb);
  p.Run();
  q.Run();
  q.Run();
  p.Run();
  std::string e = Compare(a, sa, acc, p.it.data<char>(p.out), p.it.bytes(p.out));
  if (!e.empty()) printf("%s\\n", e.c_str());
  return !e.empty();
}'''),
 dict(id='a04a', kind='a32', property='A04', needs='an int8 output of a 32-bit ARM build that saturates in the third pixel of a block of four',
  what='the third pixel of a block wraps around instead of saturating when it is narrowed to 8 bits',
  edits=[(C+'bgemm/kernels_arm32.h','"vqmovn.s16 d20, q10\\n"','"vmovn.i16 d20, q10\\n"')],
  demo='''
int main() {
  Geo g; g.H = 1; g.W = 4; g.Ci = 320; g.Co = 4; g.pad = VALID;
  int bad = 0;
  for (double scale : {0.5, 1.0, 3.0, 7.0}) {
    OutSpec s = DyadicSpec(g, INT8, 1);
    s.zp = 0;
    for (auto& m : s.mul) m = scale;
    Bits w = Pattern(g.nW(), 0), x = Pattern(g.nIn(), 0);
    ConvOp op(g, Reg(BGEMM), s, w);
    if (op.prep != kTfLiteOk) return 1;
    std::vector<int> acc;
    Model(g, x, w, acc);
    op.SetInput(g, x);
    op.Run();
    std::string e = Compare(g, s, acc, op.it.data<char>(op.out), op.it.bytes(op.out));
    if (!e.empty()) { printf("%s\\n", e.c_str()); ++bad; }
  }
  return bad != 0;
}'''),
 dict(id='a04b', kind='a32', property='A04', needs='a 32-bit ARM build, a multiple of 4 output channels and a number of pixels that is not a multiple of 4',
  what='the last block of pixels is always written in full, beyond the end of the output',
  edits=[(C+'bgemm/kernels_arm32.h','''      "it eq\\n"
      "cmpeq r2, r5\\n"
''','''      "it eq\\n"
      "cmpeq r1, r5\\n"
''')],
  demo=CONV+'''
int main() {
  Geo g; g.H = 3; g.W = 3; g.Ci = 33; g.Co = 8; g.fh = 2; g.fw = 2; g.pad = SAME_ONE;
  return Check(g, BGEMM, FLOAT) != 0;
}'''),
 dict(id='a04c', kind='a32', property='A04', needs='a 32-bit ARM build, more than 128 bits per output and a fourth pixel in a block',
  what='behind the first four words the fourth pixel is multiplied with the weights of exchanged output channels',
  edits=[(C+'bgemm/kernels_arm32.h','      LCE_BMLA(q11, q7, q0, q1, q2, q3)\n\n      "blt 2b','      LCE_BMLA(q11, q7, q0, q1, q3, q2)\n\n      "blt 2b')],
  demo=CONV+'''
int main() {
  Geo g; g.H = 3; g.W = 3; g.Ci = 160; g.Co = 8; g.pad = VALID;
  return Check(g, BGEMM, FLOAT) != 0;
}'''),
 dict(id='a05a', kind='a32', property='A05', needs='a platform with unsigned char (32-bit ARM, AArch64) and an int8 dequantization with a zero point below the quantized value of 1',
  what='the quantized values of +1 and -1 are clamped to the range of char, which is not that of int8 on ARM',
  edits=[(T+'quantization.cc','std::max(-128, output->params.zero_point - offset)','std::max<int>(std::numeric_limits<char>::lowest(),\n                      output->params.zero_point - offset)')],
  demo='''
int main() {
  int bad = 0;
  for (int zp : {-100, -1, 0, 5, 100}) for (float scale : {1.f, 0.1f}) {
    UnaryOp op(Register_DEQUANTIZE(), kTfLiteInt32, {1, 1, 1, 1}, 0, 0, kTfLiteInt8, {1, 1, 1, 32}, scale, zp);
    int32_t v = 0x0f0f1234;
    op.it.Set(op.in, &v, 4);
    op.Run();
    const int8_t* o = op.it.data<int8_t>(op.out);
    const int d = scale == 1 ? 1 : 10;
    for (int i = 0; i < 32; ++i) {
      const int want = v >> i & 1 ? std::max(-128, zp - d) : std::min(127, zp + d);
      if (o[i] != want) { if (!bad) printf("zero point %d: %d instead of %d\\n", zp, o[i], want); ++bad; }
    }
  }
  return bad != 0;
}'''),
]
