// LceQuantize / LceDequantize / LceBMaxPool2d: operators and reference models.
#ifndef VERIF_OPS_COMMON_H_
#define VERIF_OPS_COMMON_H_
#include "conv_common.h"

inline std::string DimStr(const std::vector<int>& d) {
  std::string s;
  for (int x : d) s += (s.empty() ? "" : "x") + std::to_string(x);
  return s;
}
inline int Words(int n) { return (n + 31) / 32; }
inline int RowsOf(const std::vector<int>& d) {
  int r = 1;
  for (size_t i = 0; i + 1 < d.size(); ++i) r *= d[i];
  return r;
}
inline std::vector<int> PackedDims(std::vector<int> d) {
  d.back() = Words(d.back());
  return d;
}

// A one-input one-output operator.
struct UnaryOp {
  Interp it;
  int in, out;
  TfLiteStatus prep = kTfLiteError;
  UnaryOp(const TfLiteRegistration* r, TfLiteType ti, const std::vector<int>& di,
          float si, int zi, TfLiteType to, const std::vector<int>& dout, float so,
          int zo, const std::vector<uint8_t>& opt = {}) {
    in = it.Tensor(ti, di, kTfLiteArenaRw, si, zi);
    out = it.Tensor(to, dout, kTfLiteArenaRw, so, zo);
    it.Node(r, {in}, {out}, opt);
    prep = it.Allocate();
  }
  TfLiteStatus Run() {
    memset(it.tensors[out].data.raw, it.fresh_fill, it.tensors[out].bytes);
    return it.Invoke();
  }
};

struct PoolGeo {
  int B = 1, H = 1, W = 1, C = 1, fh = 1, fw = 1, sh = 1, sw = 1, pad = VALID;
  bool valid() const { return pad != VALID || (H >= fh && W >= fw); }
  int OH() const { return pad == VALID ? (H - fh) / sh + 1 : (H + sh - 1) / sh; }
  int OW() const { return pad == VALID ? (W - fw) / sw + 1 : (W + sw - 1) / sw; }
  int padT() const { return pad == VALID ? 0 : Geo::padTotal(OH(), sh, fh, H) / 2; }
  int padL() const { return pad == VALID ? 0 : Geo::padTotal(OW(), sw, fw, W) / 2; }
  std::string str() const {
    return mc::fmt("B%d H%d W%d C%d f%dx%d s%dx%d %s", B, H, W, C, fh, fw, sh, sw, kPadN[pad]);
  }
};
inline std::vector<uint8_t> PoolOptions(const PoolGeo& g) {
  flexbuffers::Builder fbb;
  fbb.Map([&]() {
    fbb.Int("filter_height", g.fh);
    fbb.Int("filter_width", g.fw);
    fbb.Int("padding", g.pad == VALID ? (int)tflite::Padding_VALID : (int)tflite::Padding_SAME);
    fbb.Int("stride_height", g.sh);
    fbb.Int("stride_width", g.sw);
  });
  fbb.Finish();
  return fbb.GetBuffer();
}
// in: words, B*H*W*Cw.  -1 is bit 1, so the maximum is the AND.
inline std::vector<uint32_t> PoolModel(const PoolGeo& g, const std::vector<uint32_t>& in) {
  const int cw = Words(g.C);
  std::vector<uint32_t> o;
  for (int b = 0; b < g.B; ++b)
    for (int y = 0; y < g.OH(); ++y)
      for (int x = 0; x < g.OW(); ++x)
        for (int c = 0; c < cw; ++c) {
          uint32_t anyPlus = 0;
          for (int fy = 0; fy < g.fh; ++fy)
            for (int fx = 0; fx < g.fw; ++fx) {
              const int iy = y * g.sh + fy - g.padT(), ix = x * g.sw + fx - g.padL();
              if (iy < 0 || iy >= g.H || ix < 0 || ix >= g.W) continue;
              anyPlus |= ~in[(((size_t)b * g.H + iy) * g.W + ix) * cw + c];
            }
          o.push_back(~anyPlus);
        }
  return o;
}
inline uint32_t TailMask(int n) { return n % 32 ? (1u << (n % 32)) - 1 : ~0u; }
#endif
