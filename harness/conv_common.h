// Convolution configurations, contents and the reference model.
#ifndef VERIF_CONV_COMMON_H_
#define VERIF_CONV_COMMON_H_
#include <set>

#include "mc.h"
#include "mini_tflite.h"

namespace compute_engine { namespace tflite {
TfLiteRegistration* Register_QUANTIZE();
TfLiteRegistration* Register_DEQUANTIZE();
TfLiteRegistration* Register_BCONV_2D();
TfLiteRegistration* Register_BCONV_2D_REF();
TfLiteRegistration* Register_BCONV_2D_OPT_BGEMM();
TfLiteRegistration* Register_BCONV_2D_OPT_INDIRECT_BGEMM();
TfLiteRegistration* Register_BMAXPOOL_2D();
} }

enum Pad { VALID = 0, SAME_ZERO = 1, SAME_ONE = 2 };
enum Out { FLOAT = 0, INT8 = 1, BITS = 2 };
enum Kern { REF = 0, BGEMM = 1, INDIRECT = 2 };
static const char* kPadN[] = {"VALID", "SAME0", "SAME1"};
static const char* kOutN[] = {"float", "int8", "bits"};
static const char* kKernN[] = {"ref", "bgemm", "indirect"};
static const char* kActN[] = {"none", "relu", "reluN1", "relu6"};

inline const TfLiteRegistration* Reg(int k) {
  using namespace compute_engine::tflite;
  return k == REF ? Register_BCONV_2D_REF()
         : k == BGEMM ? Register_BCONV_2D_OPT_BGEMM()
                      : Register_BCONV_2D_OPT_INDIRECT_BGEMM();
}

struct Geo {
  int B = 1, H = 1, W = 1, Ci = 1, Co = 1, fh = 1, fw = 1, sh = 1, sw = 1,
      dh = 1, dw = 1, pad = VALID, act = 0, groups = 1;
  std::string str() const {
    return mc::fmt("B%d H%d W%d Ci%d Co%d g%d f%dx%d s%dx%d d%dx%d %s act=%s",
                   B, H, W, Ci, Co, groups, fh, fw, sh, sw, dh, dw, kPadN[pad],
                   kActN[act]);
  }
  int efh() const { return (fh - 1) * dh + 1; }
  int efw() const { return (fw - 1) * dw + 1; }
  bool valid() const { return pad != VALID || (H >= efh() && W >= efw()); }
  int OH() const { return pad == VALID ? (H - efh()) / sh + 1 : (H + sh - 1) / sh; }
  int OW() const { return pad == VALID ? (W - efw()) / sw + 1 : (W + sw - 1) / sw; }
  static int padTotal(int out, int s, int eff, int in) {
    return std::max((out - 1) * s + eff - in, 0);
  }
  int padT() const { return pad == VALID ? 0 : padTotal(OH(), sh, efh(), H) / 2; }
  int padL() const { return pad == VALID ? 0 : padTotal(OW(), sw, efw(), W) / 2; }
  int Cw() const { return (Ci + 31) / 32; }             // words per pixel
  int Cg() const { return Ci / groups; }                // channels per group
  int Cgw() const { return (Cg() + 31) / 32; }          // words per group
  int K() const { return fh * fw * Cg(); }
  int nIn() const { return B * H * W * Ci; }
  int nW() const { return Co * fh * fw * Cg(); }
  // What the documented support matrix says.
  bool supported(int kern, int out) const {
    if (groups > 1) {
      if (kern == BGEMM) return false;
      if (Cg() % 32 != 0 || Co % groups != 0) return false;
    }
    if (pad == SAME_ZERO) {
      if (kern == REF) return Ci % 2 == 0;
      return out == FLOAT && act == 0;
    }
    return true;
  }
};

// One bit per element, 1 = -1.
using Bits = std::vector<uint8_t>;

inline uint64_t Mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
// Fixed position-coded baselines: p=0 all +1, p=1 all -1, p>=2 mixed.
inline Bits Pattern(int n, int p) {
  Bits b(n);
  for (int i = 0; i < n; ++i)
    b[i] = p == 0 ? 0 : p == 1 ? 1 : (Mix(i + 1000003ull * p) >> 17) & 1;
  return b;
}
// rows x ch elements -> rows x words
inline std::vector<int32_t> Pack(const Bits& b, int rows, int ch) {
  int w = (ch + 31) / 32;
  std::vector<int32_t> r((size_t)rows * w, 0);
  for (int i = 0; i < rows; ++i)
    for (int c = 0; c < ch; ++c)
      if (b[(size_t)i * ch + c])
        r[(size_t)i * w + c / 32] |= (int32_t)(1u << (c % 32));
  return r;
}

// Reference model: the +/-1 convolution as an integer, per output element.
inline void Model(const Geo& g, const Bits& in, const Bits& w,
                  std::vector<int>& acc) {
  const int OH = g.OH(), OW = g.OW(), cg = g.Cg(), cog = g.Co / g.groups;
  acc.assign((size_t)g.B * OH * OW * g.Co, 0);
  size_t o = 0;
  for (int b = 0; b < g.B; ++b)
    for (int y = 0; y < OH; ++y)
      for (int x = 0; x < OW; ++x)
        for (int c = 0; c < g.Co; ++c, ++o) {
          int sum = 0;
          for (int fy = 0; fy < g.fh; ++fy)
            for (int fx = 0; fx < g.fw; ++fx) {
              const int iy = y * g.sh + fy * g.dh - g.padT();
              const int ix = x * g.sw + fx * g.dw - g.padL();
              const uint8_t* wp = &w[(((size_t)c * g.fh + fy) * g.fw + fx) * cg];
              if (iy < 0 || iy >= g.H || ix < 0 || ix >= g.W) {
                if (g.pad == SAME_ONE)
                  for (int k = 0; k < cg; ++k) sum += wp[k] ? -1 : 1;
                continue;
              }
              const uint8_t* ip =
                  &in[(((size_t)b * g.H + iy) * g.W + ix) * g.Ci +
                      (size_t)(c / cog) * cg];
              for (int k = 0; k < cg; ++k) sum += (wp[k] == ip[k]) ? 1 : -1;
            }
          acc[o] = sum;
        }
}
inline int Act(int act, int a) {
  if (act == 1) return std::max(a, 0);
  if (act == 2) return std::min(std::max(a, -1), 1);
  if (act == 3) return std::min(std::max(a, 0), 6);
  return a;
}

struct OutSpec {
  int type = FLOAT;
  std::vector<float> mul, bias;
  std::vector<int32_t> thr;
  float scale = 1;
  int zp = 0;
  bool exact = true;  // all arithmetic is exact in float
};
// Dyadic per-channel constants: every float operation on them is exact here.
inline OutSpec DyadicSpec(const Geo& g, int type, int variant = 0) {
  static const float M[] = {1, -0.5f, 2, 0.25f, -1, 0, 1.5f, -2};
  static const float Bs[] = {0, 0.5f, -3, 8, -0.25f, 1, 64, -16};
  OutSpec s;
  s.type = type;
  s.mul.resize(g.Co);
  s.bias.resize(g.Co);
  s.thr.resize(g.Co);
  for (int c = 0; c < g.Co; ++c) {
    s.mul[c] = M[(c + variant) % 8];
    s.bias[c] = Bs[(c * 3 + variant) % 8];
    // thresholds walk over the whole accumulator range
    s.thr[c] = (int)((c * 5 + variant * 7) % (g.K() + 3)) - 2;
  }
  s.scale = 0.5f;
  s.zp = (variant % 2) ? -7 : 3;
  return s;
}

inline std::vector<uint8_t> ConvOptions(const Geo& g) {
  flexbuffers::Builder fbb;
  fbb.Map([&]() {
    fbb.Int("channels_in", g.Ci);
    fbb.Int("dilation_height_factor", g.dh);
    fbb.Int("dilation_width_factor", g.dw);
    fbb.Int("fused_activation_function", g.act);
    fbb.Int("pad_values", g.pad == SAME_ONE ? 1 : 0);
    fbb.Int("padding", g.pad == VALID ? (int)tflite::Padding_VALID
                                      : (int)tflite::Padding_SAME);
    fbb.Int("stride_height", g.sh);
    fbb.Int("stride_width", g.sw);
  });
  fbb.Finish();
  return fbb.GetBuffer();
}

// One interpreter holding one LceBconv2d.
struct ConvOp {
  Interp it;
  int in, w, mul = -1, bias = -1, thr = -1, out;
  TfLiteStatus prep = kTfLiteError;
  ConvOp(const Geo& g, const TfLiteRegistration* reg, const OutSpec& s,
         const Bits& wb) {
    in = it.Tensor(kTfLiteInt32, {g.B, g.H, g.W, g.Cw()});
    w = it.Tensor(kTfLiteInt32, {g.Co, g.fh, g.fw, g.Cgw()}, kTfLiteMmapRo);
    SetWeights(g, wb);
    if (s.type == BITS) {
      thr = it.Tensor(kTfLiteInt32, {g.Co}, kTfLiteMmapRo);
      it.Set(thr, s.thr.data(), s.thr.size() * 4);
    } else {
      mul = it.Tensor(kTfLiteFloat32, {g.Co}, kTfLiteMmapRo);
      bias = it.Tensor(kTfLiteFloat32, {g.Co}, kTfLiteMmapRo);
      it.Set(mul, s.mul.data(), s.mul.size() * 4);
      it.Set(bias, s.bias.data(), s.bias.size() * 4);
    }
    out = s.type == INT8
              ? it.Tensor(kTfLiteInt8, {}, kTfLiteArenaRw, s.scale, s.zp)
              : it.Tensor(s.type == FLOAT ? kTfLiteFloat32 : kTfLiteInt32, {});
    it.Node(reg, {in, w, mul, bias, thr}, {out}, ConvOptions(g));
    prep = it.Allocate();
  }
  void SetWeights(const Geo& g, const Bits& wb) {
    auto pw = Pack(wb, g.Co * g.fh * g.fw, g.Cg());
    it.Set(w, pw.data(), pw.size() * 4);
  }
  bool SetInput(const Geo& g, const Bits& ib) {
    auto p = Pack(ib, g.B * g.H * g.W, g.Ci);
    it.Set(in, p.data(), p.size() * 4);
    return true;
  }
  TfLiteStatus Run() {
    if (it.tensors[out].data.raw)
      memset(it.tensors[out].data.raw, it.fresh_fill, it.tensors[out].bytes);
    return it.Invoke();
  }
};

inline std::vector<int> ExpectedDims(const Geo& g, int type) {
  return {g.B, g.OH(), g.OW(), type == BITS ? (g.Co + 31) / 32 : g.Co};
}

// Compare an output tensor with the model.  Returns "" or a description.
inline std::string Compare(const Geo& g, const OutSpec& s,
                           const std::vector<int>& acc, const char* raw,
                           size_t bytes) {
  const int npix = g.B * g.OH() * g.OW(), ow = g.OW(), oh = g.OH();
  auto at = [&](int p, int c) {
    return mc::fmt("[b%d y%d x%d c%d]", p / (ow * oh), (p / ow) % oh, p % ow, c);
  };
  if (s.type == FLOAT) {
    if (bytes != (size_t)npix * g.Co * 4) return "output size";
    const float* o = (const float*)raw;
    for (int p = 0; p < npix; ++p)
      for (int c = 0; c < g.Co; ++c) {
        const double a = Act(g.act, acc[(size_t)p * g.Co + c]);
        const double e = a * (double)s.mul[c] + (double)s.bias[c];
        const double r = o[(size_t)p * g.Co + c];
        const double tol =
            s.exact ? 0
                    : 4e-7 * (3.0 * g.K() * std::fabs(s.mul[c]) +
                              2 * std::fabs(s.bias[c]) + 1e-30);
        if (!(std::fabs(e - r) <= tol))
          return mc::fmt("%s expected %.9g (accumulator %d) got %.9g",
                         at(p, c).c_str(), e, acc[(size_t)p * g.Co + c], r);
      }
  } else if (s.type == INT8) {
    if (bytes != (size_t)npix * g.Co) return "output size";
    const int8_t* o = (const int8_t*)raw;
    for (int p = 0; p < npix; ++p)
      for (int c = 0; c < g.Co; ++c) {
        const double a = Act(g.act, acc[(size_t)p * g.Co + c]);
        const double y =
            (a * (double)s.mul[c] + (double)s.bias[c]) / (double)s.scale + s.zp;
        const double eps =
            s.exact ? 0
                    : 4e-7 * ((3.0 * g.K() * std::fabs(s.mul[c]) +
                               2 * std::fabs(s.bias[c])) / s.scale +
                              2 * std::abs(s.zp) + 1);
        const double lo = std::min(127.0, std::max(-128.0, std::ceil(y - 0.5 - eps)));
        const double hi = std::max(-128.0, std::min(127.0, std::floor(y + 0.5 + eps)));
        const int r = o[(size_t)p * g.Co + c];
        if (r < lo || r > hi)
          return mc::fmt("%s expected round(%.9g) got %d", at(p, c).c_str(), y, r);
      }
  } else {
    const int ww = (g.Co + 31) / 32;
    if (bytes != (size_t)npix * ww * 4) return "output size";
    const uint32_t* o = (const uint32_t*)raw;
    for (int p = 0; p < npix; ++p)
      for (int c = 0; c < ww * 32; ++c) {
        bool e = false;
        if (c < g.Co) {
          // mismatching bits; outside pixels of a zero-padded image count half
          const int popc = (g.K() - acc[(size_t)p * g.Co + c]) / 2;
          e = popc > s.thr[c];
        }
        const bool r = (o[(size_t)p * ww + c / 32] >> (c % 32)) & 1;
        if (e != r)
          return mc::fmt("%s expected bit %d (accumulator %d, threshold %d) got %d",
                         at(p, c).c_str(), e,
                         c < g.Co ? acc[(size_t)p * g.Co + c] : 0,
                         c < g.Co ? s.thr[c] : 0, r);
      }
  }
  return "";
}

// Content lists.  full: every bit assignment; otherwise the baselines and all
// single-bit flips of the mixed baselines.
struct Contents {
  std::vector<std::pair<Bits, Bits>> pairs;  // (weights, input), grouped by w
};
inline std::vector<Bits> AllBits(int n) {
  std::vector<Bits> r;
  for (uint32_t m = 0; m < (1u << n); ++m) {
    Bits b(n);
    for (int i = 0; i < n; ++i) b[i] = (m >> i) & 1;
    r.push_back(b);
  }
  return r;
}
inline std::vector<Bits> Flips(int n, int p, int cap = 1 << 30) {
  std::vector<Bits> r;
  Bits b = Pattern(n, p);
  for (int i = 0; i < n && i < cap; ++i) {
    b[i] ^= 1;
    r.push_back(b);
    b[i] ^= 1;
  }
  return r;
}
#endif
