#include "eval.h"

#include <math.h>
#include <stdlib.h>
#include <string.h>

#include "larq_compute_engine/mlir/ir/lce_ops.h"
#include "llvm/ADT/DenseMap.h"
#include "mlir/IR/AsmState.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"
using namespace mlir;

namespace ev {
MLIRContext* C;
CustomFn Custom;
void Init(MLIRContext* c) { C = c; }
void Register(DialectRegistry& r) {
  r.insert<func::FuncDialect, arith::ArithDialect, quant::QuantizationDialect, TFL::TensorFlowLiteDialect, TF::TensorFlowDialect, lq::LarqDialect>();
}
std::string ShapeText(const Shape& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) r += (i ? "x" : "") + (s[i] < 0 ? std::string("?") : std::to_string(s[i]));
  return r;
}
std::string Ty(const Shape& s, const std::string& el) { return "tensor<" + ShapeText(s) + (s.empty() ? "" : "x") + el + ">"; }
std::string Num(double d) {
  char b[64];
  if (d == INFINITY) return "0x7F800000";
  if (d == -INFINITY) return "0xFF800000";
  snprintf(b, sizeof b, "%.17e", d);
  return b;
}
std::string Dense(const std::vector<double>& v, const Shape& s, const std::string& el) {
  const bool fl = el[0] == 'f' || el[0] == 'b';
  std::string r;
  size_t k = 0;
  std::function<void(size_t)> rec = [&](size_t d) {
    if (d == s.size()) { r += fl ? Num(v[k]) : el == "i1" ? (v[k] ? "true" : "false") : std::to_string((int64_t)v[k]); ++k; return; }
    r += "[";
    for (int64_t i = 0; i < s[d]; ++i) { if (i) r += ", "; rec(d + 1); }
    r += "]";
  };
  int64_t n = 1;
  for (auto d : s) n *= d;
  if (n) rec(0);
  return "dense<" + r + "> : " + Ty(s, el);
}
double RoundAway(double x) { return x < 0 ? -floor(-x + 0.5) : floor(x + 0.5); }
static quant::UniformQuantizedType Q(Type t) { return dyn_cast_or_null<quant::UniformQuantizedType>(t); }
double Real(const Tensor& t, int64_t i, int axis_index) {
  if (auto q = Q(t.elem)) return (t.v[i] - q.getZeroPoint()) * q.getScale();
  if (auto q = dyn_cast_or_null<quant::UniformQuantizedPerAxisType>(t.elem)) return (t.v[i] - q.getZeroPoints()[axis_index]) * q.getScales()[axis_index];
  return t.v[i];
}
static double Store(Type e, double real, int axis_index = 0) {
  if (auto q = dyn_cast_or_null<quant::UniformQuantizedPerAxisType>(e)) {
    double r = RoundAway(real / q.getScales()[axis_index]) + q.getZeroPoints()[axis_index];
    return fmin(fmax(r, q.getStorageTypeMin()), q.getStorageTypeMax());
  }
  if (auto q = Q(e)) {
    double r = RoundAway(real / q.getScale()) + q.getZeroPoint();
    return fmin(fmax(r, q.getStorageTypeMin()), q.getStorageTypeMax());
  }
  return real;
}
bool FromAttr(Attribute a, Tensor& t) {
  auto d = dyn_cast<DenseElementsAttr>(a);
  if (!d) return false;
  t.shape.assign(d.getType().getShape().begin(), d.getType().getShape().end());
  t.elem = d.getElementType();
  t.v.clear();
  const int64_t n = t.n();
  if (t.elem.isF32()) for (float f : d.getValues<float>()) t.v.push_back(f);
  else if (isa<FloatType>(t.elem)) for (APFloat f : d.getValues<APFloat>()) { bool l; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); t.v.push_back(f.convertToDouble()); }
  else if (t.elem.isInteger(1)) for (bool b : d.getValues<bool>()) t.v.push_back(b);
  else if (t.elem.isIntOrIndex()) for (APInt i : d.getValues<APInt>()) t.v.push_back(t.elem.isUnsignedInteger() ? (double)i.getZExtValue() : (double)i.getSExtValue());
  else if (auto q = dyn_cast<quant::QuantizedType>(t.elem)) {
    // stored as raw bytes
    auto raw = d.getRawData();
    const int w = q.getStorageTypeIntegralWidth() / 8;
    if (w != 1 && w != 2 && w != 4) return false;
    if (raw.size() % w || (raw.size() != (size_t)n * w && raw.size() != (size_t)w)) return false;
    for (int64_t i = 0; i < n; ++i) {
      const char* p = raw.data() + (raw.size() == (size_t)w ? 0 : i * w);
      t.v.push_back(w == 1 ? (double)*(const int8_t*)p : w == 2 ? (double)*(const int16_t*)p : (double)*(const int32_t*)p);
    }
  } else return false;
  return (int64_t)t.v.size() == n;
}
int64_t CountOps(Operation* m, StringRef name) {
  int64_t n = 0;
  m->walk([&](Operation* o) { n += o->getName().getStringRef() == name; });
  return n;
}

namespace {
struct Fail { Status s; std::string m; };
[[noreturn]] void err(const std::string& m) { throw Fail{ERROR, m}; }

struct Interp {
  DenseMap<Value, Tensor> env;
  Operation* op;
  const Tensor& in(unsigned i) {
    if (i >= op->getNumOperands()) err("missing operand");
    return env.find(op->getOperand(i))->second;
  }
  bool none(unsigned i) { return isa<NoneType>(op->getOperand(i).getType()); }
  StringRef str(const char* n, StringRef def = "\1") {
    if (auto a = op->getAttrOfType<StringAttr>(n)) return a.getValue();
    if (def == "\1") err(std::string("missing attribute ") + n);
    return def;
  }
  int64_t integer(const char* n) {
    if (auto a = op->getAttrOfType<IntegerAttr>(n)) return a.getInt();
    err(std::string("missing attribute ") + n);
  }
  int64_t integer(const char* n, int64_t d) {
    if (auto a = op->getAttrOfType<IntegerAttr>(n)) return a.getInt();
    return d;
  }
  std::vector<int64_t> ints(const char* n, std::vector<int64_t> d = {}) {
    auto a = op->getAttrOfType<ArrayAttr>(n);
    if (!a) return d;
    d.clear();
    for (Attribute x : a) d.push_back(cast<IntegerAttr>(x).getInt());
    return d;
  }
  Type outElem(unsigned i = 0) { return cast<ShapedType>(op->getResult(i).getType()).getElementType(); }
  void set(Tensor t, unsigned i = 0) {
    auto ty = cast<ShapedType>(op->getResult(i).getType());
    if (!t.elem) t.elem = ty.getElementType();
    if (t.elem != ty.getElementType()) {
      // a plain storage type where a quantized one is declared (or the like) is no value of the type
      err("result element type does not fit the operator");
    }
    if (ty.hasRank()) {
      bool ok = ty.getRank() == (int64_t)t.shape.size();
      for (int64_t k = 0; ok && k < ty.getRank(); ++k) ok = ty.isDynamicDim(k) || ty.getDimSize(k) == t.shape[k];
      if (!ok) err("result has shape " + ShapeText(t.shape) + " but is declared as " + Print(op));
    }
    if ((int64_t)t.v.size() != t.n()) err("internal: element count");
    env[op->getResult(i)] = std::move(t);
  }
  static double act(StringRef a, double x) {
    if (a == "NONE") return x;
    if (a == "RELU") return fmax(x, 0);
    if (a == "RELU6") return fmin(fmax(x, 0), 6);
    if (a == "RELU_N1_TO_1") return fmin(fmax(x, -1), 1);
    if (a == "TANH") return tanh(x);
    if (a == "SIGN_BIT") return std::signbit(x) ? 1 : 0;
    err("unknown activation");
  }
  static Shape broadcast(const Shape& a, const Shape& b) {
    const size_t r = std::max(a.size(), b.size());
    Shape s(r);
    for (size_t i = 0; i < r; ++i) {
      const int64_t x = i + a.size() < r ? 1 : a[i + a.size() - r], y = i + b.size() < r ? 1 : b[i + b.size() - r];
      if (x != y && x != 1 && y != 1) err("operands do not broadcast");
      s[i] = x == 1 ? y : x;
    }
    return s;
  }
  // index of the element of a tensor of shape t that broadcasts to index k of shape s
  static int64_t at(const Shape& s, int64_t k, const Shape& t) {
    int64_t o = 0, mul = 1;
    for (int64_t i = (int64_t)s.size() - 1, j = (int64_t)t.size() - 1; j >= 0; --i, --j) {
      const int64_t d = k % s[i];
      k /= s[i];
      if (t[j] != 1) o += d * mul;
      mul *= t[j];
    }
    return o;
  }
  template <class F>
  Tensor elementwise(const Tensor& a, const Tensor& b, F f) {
    Tensor r;
    r.shape = broadcast(a.shape, b.shape);
    r.elem = outElem();
    const int64_t n = r.n();
    for (int64_t k = 0; k < n; ++k) r.v.push_back(f(Real(a, at(r.shape, k, a.shape)), Real(b, at(r.shape, k, b.shape))));
    return r;
  }
  void binary(char k, StringRef a) {
    if (op->getNumOperands() != 2) err("operand count");
    if (!(Q(in(0).elem) || Q(in(1).elem) || in(0).elem == in(1).elem)) err("operand types differ");
    Tensor r = elementwise(in(0), in(1), [&](double x, double y) { return act(a, k == '+' ? x + y : k == '-' ? x - y : k == '*' ? x * y : x / y); });
    wrap(r);
    set(r);
  }
  void wrap(Tensor& r) {
    if (Q(r.elem)) for (double& d : r.v) d = Store(r.elem, d);
    else if (r.elem.isSignlessInteger(32)) for (double& d : r.v) d = (double)(int32_t)(int64_t)d;
    else if (r.elem.isF32()) {}
  }
  void compare(int k) {
    if (in(0).elem != in(1).elem && !(Q(in(0).elem) && Q(in(1).elem))) err("operand types differ");
    set(elementwise(in(0), in(1), [&](double x, double y) -> double {
      switch (k) {
        case 0: return x >= y;
        case 1: return x <= y;
        case 2: return x > y;
        case 3: return x < y;
        case 4: return x == y;
        default: return x != y;
      }
    }));
  }
  // index along the quantized dimension
  static int axis(Type e, const Shape& s, int64_t i) {
    auto q = dyn_cast_or_null<quant::UniformQuantizedPerAxisType>(e);
    if (!q) return 0;
    if (q.getQuantizedDimension() >= (int64_t)s.size() || (int64_t)q.getScales().size() != s[q.getQuantizedDimension()]) err("per-axis quantization does not fit the shape");
    int64_t inner = 1;
    for (size_t d = q.getQuantizedDimension() + 1; d < s.size(); ++d) inner *= s[d];
    return i / inner % s[q.getQuantizedDimension()];
  }
  template <class F>
  void unary(F f) {
    Tensor r = in(0);
    r.elem = outElem();
    for (int64_t i = 0; i < r.n(); ++i) r.v[i] = Store(r.elem, f(Real(in(0), i, axis(in(0).elem, r.shape, i))), axis(r.elem, r.shape, i));
    set(r);
  }
  // TensorFlow's and TFLite's SAME / VALID arithmetic.
  struct Win { int64_t out, pad; };
  static Win window(StringRef padding, int64_t size, int64_t filter, int64_t stride, int64_t dil) {
    if (stride < 1 || dil < 1 || filter < 1) err("invalid stride, dilation or filter");
    const int64_t eff = (filter - 1) * dil + 1;
    if (padding == "VALID") { if (size < eff) err("filter larger than the image"); return {(size - eff) / stride + 1, 0}; }
    if (padding != "SAME") err("unknown padding");
    const int64_t out = (size + stride - 1) / stride;
    return {out, std::max<int64_t>(0, (out - 1) * stride + eff - size) / 2};
  }
  // f(o, n, y, x, i): the filter element of output channel o and group input i
  struct ConvP { int64_t sh, sw, dh, dw; Win h, w; int64_t fh, fw; };
  template <class F, class P>
  static void convolve(int64_t N, int64_t H, int64_t W, int64_t O, const ConvP& p, F cell, P per) {
    for (int64_t n = 0; n < N; ++n)
      for (int64_t y = 0; y < p.h.out; ++y)
        for (int64_t x = 0; x < p.w.out; ++x)
          for (int64_t o = 0; o < O; ++o) {
            double acc = 0;
            for (int64_t a = 0; a < p.fh; ++a)
              for (int64_t b = 0; b < p.fw; ++b) {
                const int64_t iy = y * p.sh - p.h.pad + a * p.dh, ix = x * p.sw - p.w.pad + b * p.dw;
                const bool inside = iy >= 0 && iy < H && ix >= 0 && ix < W;
                acc += cell(n, iy, ix, inside, o, a, b);
              }
            per(n, y, x, o, acc);
          }
  }
  static void rank4(const Tensor& t) { if (t.shape.size() != 4) err("rank 4 expected"); }

  void tfConv() {
    const Tensor &x = in(0), &f = in(1);
    rank4(x), rank4(f);
    if (str("data_format", "NHWC") != "NHWC") {
      // NCHW
      Tensor xt;
      xt.elem = x.elem;
      xt.shape = {x.shape[0], x.shape[2], x.shape[3], x.shape[1]};
      for (int64_t n = 0; n < xt.shape[0]; ++n) for (int64_t h = 0; h < xt.shape[1]; ++h) for (int64_t w = 0; w < xt.shape[2]; ++w) for (int64_t c = 0; c < xt.shape[3]; ++c)
        xt.v.push_back(x.v[((n * x.shape[1] + c) * x.shape[2] + h) * x.shape[3] + w]);
      Tensor r = tfConvNHWC(xt, f, true), o;
      o.elem = r.elem;
      o.shape = {r.shape[0], r.shape[3], r.shape[1], r.shape[2]};
      for (int64_t n = 0; n < o.shape[0]; ++n) for (int64_t c = 0; c < o.shape[1]; ++c) for (int64_t h = 0; h < o.shape[2]; ++h) for (int64_t w = 0; w < o.shape[3]; ++w)
        o.v.push_back(r.v[((n * r.shape[1] + h) * r.shape[2] + w) * r.shape[3] + c]);
      return set(o);
    }
    set(tfConvNHWC(x, f, false));
  }
  Tensor tfConvNHWC(const Tensor& x, const Tensor& f, bool nchw) {
    auto st = ints("strides"), di = ints("dilations", {1, 1, 1, 1}), ex = ints("explicit_paddings");
    if (st.size() != 4 || di.size() != 4) err("strides or dilations");
    const int hi = nchw ? 2 : 1, wi = nchw ? 3 : 2, ci = nchw ? 1 : 3;
    if (di[0] != 1 || di[ci] != 1) throw Fail{ERROR, "batch or channel dilation"};
    const int64_t I = f.shape[2], O = f.shape[3], CI = x.shape[3];
    if (!I || CI % I || O % (CI / I)) err("channels do not fit the filter");
    const int64_t groups = CI / I, og = O / groups;
    int64_t ph[2] = {0, 0}, pw[2] = {0, 0};
    StringRef pad = str("padding");
    ConvP p{st[hi], st[wi], di[hi], di[wi], {}, {}, f.shape[0], f.shape[1]};
    if (pad == "EXPLICIT") {
      if (ex.size() != 8) err("explicit paddings");
      if (ex[0] || ex[1] || ex[2 * ci] || ex[2 * ci + 1]) err("explicit batch or channel padding");
      ph[0] = ex[2 * hi], ph[1] = ex[2 * hi + 1], pw[0] = ex[2 * wi], pw[1] = ex[2 * wi + 1];
      p.h = window("VALID", x.shape[1] + ph[0] + ph[1], p.fh, p.sh, p.dh);
      p.w = window("VALID", x.shape[2] + pw[0] + pw[1], p.fw, p.sw, p.dw);
      p.h.pad = ph[0], p.w.pad = pw[0];
    } else {
      p.h = window(pad, x.shape[1], p.fh, p.sh, p.dh);
      p.w = window(pad, x.shape[2], p.fw, p.sw, p.dw);
    }
    Tensor r;
    r.elem = outElem();
    r.shape = {x.shape[0], p.h.out, p.w.out, O};
    r.v.resize(r.n());
    const int64_t H = x.shape[1], W = x.shape[2];
    convolve(x.shape[0], H, W, O, p, [&](int64_t n, int64_t iy, int64_t ix, bool ok, int64_t o, int64_t a, int64_t b) {
      double s = 0;
      if (ok) for (int64_t i = 0; i < I; ++i) s += x.v[((n * H + iy) * W + ix) * CI + (o / og) * I + i] * f.v[((a * p.fw + b) * I + i) * O + o];
      return s;
    }, [&](int64_t n, int64_t y, int64_t xx, int64_t o, double acc) { r.v[((n * p.h.out + y) * p.w.out + xx) * O + o] = acc; });
    // batch / channel strides select rows of the batch / channel dimension
    if (st[0] != 1 || st[ci] != 1) {
      Tensor q;
      q.elem = r.elem;
      auto cnt = [](int64_t d, int64_t s) { return (d + s - 1) / s; };
      q.shape = {cnt(r.shape[0], st[0]), r.shape[1], r.shape[2], cnt(r.shape[3], st[ci])};
      for (int64_t n = 0; n < r.shape[0]; n += st[0]) for (int64_t k = 0; k < r.shape[1] * r.shape[2]; ++k) for (int64_t c = 0; c < O; c += st[ci])
        q.v.push_back(r.v[(n * r.shape[1] * r.shape[2] + k) * O + c]);
      return q;
    }
    return r;
  }
  void tflConv(bool depthwise) {
    const Tensor &x = in(0), &f = in(1);
    rank4(x), rank4(f);
    const int64_t H = x.shape[1], W = x.shape[2], CI = x.shape[3];
    ConvP p{integer("stride_h"), integer("stride_w"), integer("dilation_h_factor"), integer("dilation_w_factor"), {}, {}, f.shape[1], f.shape[2]};
    p.h = window(str("padding"), H, p.fh, p.sh, p.dh);
    p.w = window(str("padding"), W, p.fw, p.sw, p.dw);
    const int64_t O = depthwise ? f.shape[3] : f.shape[0], I = depthwise ? 1 : f.shape[3];
    const int64_t m = depthwise ? integer("depth_multiplier") : 0;
    if (depthwise) {
      if (f.shape[0] != 1 || O != CI * m) err("channels do not fit the filter");
    } else if (!I || CI % I || O % (CI / I)) err("channels do not fit the filter");
    const int64_t og = depthwise ? 0 : O / (CI / I);
    Tensor r;
    r.elem = outElem();
    r.shape = {x.shape[0], p.h.out, p.w.out, O};
    r.v.resize(r.n());
    StringRef a = str("fused_activation_function");
    if (!none(2) && (in(2).shape.size() != 1 || in(2).shape[0] != O)) err("bias shape");
    convolve(x.shape[0], H, W, O, p, [&](int64_t n, int64_t iy, int64_t ix, bool ok, int64_t o, int64_t ka, int64_t kb) {
      double s = 0;
      if (!ok) return s;
      if (depthwise) return Real(x, ((n * H + iy) * W + ix) * CI + o / m) * Real(f, (ka * p.fw + kb) * O + o, o);
      for (int64_t i = 0; i < I; ++i) s += Real(x, ((n * H + iy) * W + ix) * CI + (o / og) * I + i) * Real(f, ((o * p.fh + ka) * p.fw + kb) * I + i, o);
      return s;
    }, [&](int64_t n, int64_t y, int64_t xx, int64_t o, double acc) {
      if (!none(2)) acc += Real(in(2), o, o);
      r.v[((n * p.h.out + y) * p.w.out + xx) * O + o] = Store(r.elem, act(a, acc));
    });
    set(r);
  }
  void pad(bool v2) {
    const Tensor &x = in(0), &p = in(1);
    const int64_t R = x.shape.size();
    if (p.shape.size() != 2 || p.shape[0] != R || p.shape[1] != 2) err("paddings shape");
    double fill = 0;
    if (v2) { if (in(2).n() != 1) err("pad value"); fill = Store(x.elem, Real(in(2), 0)); }
    else fill = Store(x.elem, 0);
    Tensor r;
    r.elem = x.elem;
    for (int64_t i = 0; i < R; ++i) {
      if (p.v[2 * i] < 0 || p.v[2 * i + 1] < 0) err("negative padding");
      r.shape.push_back(x.shape[i] + (int64_t)p.v[2 * i] + (int64_t)p.v[2 * i + 1]);
    }
    const int64_t n = r.n();
    r.v.resize(n);
    for (int64_t k = 0; k < n; ++k) {
      int64_t q = k, o = 0, mul = 1;
      bool ok = true;
      for (int64_t i = R - 1; i >= 0; --i) {
        const int64_t c = q % r.shape[i] - (int64_t)p.v[2 * i];
        q /= r.shape[i];
        if (c < 0 || c >= x.shape[i]) ok = false;
        o += c * mul;
        mul *= x.shape[i];
      }
      r.v[k] = ok ? x.v[o] : fill;
    }
    set(r);
  }
  void maxpool(int64_t fh, int64_t fw, int64_t sh, int64_t sw, StringRef padding, StringRef a) {
    const Tensor& x = in(0);
    rank4(x);
    const int64_t H = x.shape[1], W = x.shape[2], Ch = x.shape[3];
    Win h = window(padding, H, fh, sh, 1), w = window(padding, W, fw, sw, 1);
    Tensor r;
    r.elem = outElem();
    r.shape = {x.shape[0], h.out, w.out, Ch};
    for (int64_t n = 0; n < x.shape[0]; ++n) for (int64_t y = 0; y < h.out; ++y) for (int64_t xx = 0; xx < w.out; ++xx) for (int64_t c = 0; c < Ch; ++c) {
      double m = -INFINITY;
      for (int64_t i = 0; i < fh; ++i) for (int64_t j = 0; j < fw; ++j) {
        const int64_t iy = y * sh - h.pad + i, ix = xx * sw - w.pad + j;
        if (iy >= 0 && iy < H && ix >= 0 && ix < W) m = fmax(m, Real(x, ((n * H + iy) * W + ix) * Ch + c));
      }
      r.v.push_back(Store(r.elem, act(a, m)));
    }
    set(r);
  }
  // ------------------------------------------------------------------- lq
  static int64_t words(int64_t c) { return (c + 31) / 32; }
  void lqQuantize() {
    const Tensor& x = in(0);
    if (x.shape.empty()) err("Quantize of a scalar");
    const int64_t Ch = x.shape.back(), w = words(Ch), rows = Ch ? x.n() / Ch : 0;
    Tensor r;
    r.elem = outElem();
    r.shape = x.shape;
    r.shape.back() = w;
    const bool b = x.elem.isInteger(1);
    if (!b && !x.elem.isF32() && !isa<FloatType>(x.elem) && !Q(x.elem) && !x.elem.isSignlessInteger(32) && !x.elem.isSignlessInteger(64)) err("type of Quantize");
    for (int64_t k = 0; k < rows; ++k)
      for (int64_t j = 0; j < w; ++j) {
        uint32_t word = 0;
        for (int64_t c = 32 * j; c < std::min(Ch, 32 * j + 32); ++c) {
          const double v = x.v[k * Ch + c];
          const bool bit = b ? v == 0 : Q(x.elem) ? v < Q(x.elem).getZeroPoint() : v < 0;
          word |= (uint32_t)bit << (c % 32);
        }
        r.v.push_back((double)(int32_t)word);
      }
    set(r);
  }
  void lqDequantize() {
    const Tensor& x = in(0);
    auto t = cast<ShapedType>(op->getResult(0).getType());
    if (x.shape.empty()) err("Dequantize of a scalar");
    if (!t.hasRank() || t.isDynamicDim(t.getRank() - 1)) err("Dequantize to an unknown number of channels");
    const int64_t Ch = t.getDimSize(t.getRank() - 1), w = x.shape.back(), rows = w ? x.n() / w : 0;
    if (words(Ch) != w) err("Dequantize: channels do not fit the words");
    Tensor r;
    r.elem = outElem();
    r.shape = x.shape;
    r.shape.back() = Ch;
    if (isa<quant::UniformQuantizedPerAxisType>(r.elem)) err("per-axis quantized result of Dequantize");
    for (int64_t k = 0; k < rows; ++k)
      for (int64_t c = 0; c < Ch; ++c) {
        const bool bit = ((uint32_t)(int32_t)x.v[k * w + c / 32] >> (c % 32)) & 1;
        r.v.push_back(r.elem.isInteger(1) ? !bit : Store(r.elem, bit ? -1 : 1));
      }
    set(r);
  }
  void lqBconv() {
    const Tensor &x = in(0), &f = in(1);
    rank4(x), rank4(f);
    if (op->getNumOperands() != 5) err("operand count");
    const int64_t H = x.shape[1], W = x.shape[2], cw = x.shape[3], CI = integer("channels_in");
    if (CI < 1 || words(CI) != cw) err("channels_in does not fit the input");
    ConvP p{integer("stride_height"), integer("stride_width"), integer("dilation_height_factor"), integer("dilation_width_factor"), {}, {}, f.shape[1], f.shape[2]};
    StringRef padding = str("padding"), a = str("fused_activation_function");
    p.h = window(padding, H, p.fh, p.sh, p.dh);
    p.w = window(padding, W, p.fw, p.sw, p.dw);
    const int64_t O = f.shape[0], pv = integer("pad_values", 0);
    if (pv != 0 && pv != 1) err("pad_values");
    const bool packed = f.elem.isSignlessInteger(32);
    if (!packed && !f.elem.isF32()) err("filter type");
    int64_t I = f.shape[3];
    if (packed) {
      if (f.shape[3] == cw) I = CI;
      else { if (!I || cw % I || (CI / (cw / I)) % 32) err("packed filter does not fit channels_in"); I = I * 32; }
    }
    if (!I || CI % I || O % (CI / I)) err("channels do not fit the filter");
    if (CI / I > 1 && I % 32) err("group size is not a multiple of 32");
    const int64_t og = O / (CI / I);
    const bool zero = padding == "SAME" && pv == 0;
    Type oe = outElem();
    const bool bits = oe.isSignlessInteger(32);
    Tensor r;
    r.elem = oe;
    r.shape = {x.shape[0], p.h.out, p.w.out, bits ? words(O) : O};
    r.v.resize(r.n());
    auto vec = [&](unsigned i, bool fl) {
      if (none(i)) err("missing operand of Bconv2d");
      const Tensor& t = in(i);
      if (t.shape.size() != 1 || t.shape[0] != O) err("per-channel operand has shape " + ShapeText(t.shape));
      if (fl ? !t.elem.isF32() : !t.elem.isSignlessInteger(32)) err("per-channel operand type");
    };
    if (bits) vec(4, false);
    else vec(2, true), vec(3, true);
    if (zero && (bits || Q(oe) || a != "NONE") && CI % 2) err("no kernel supports zero padding here");
    if (!bits && !Q(oe) && !oe.isF32()) err("output type");
    auto bit = [](const Tensor& t, int64_t w) { return (uint32_t)(int32_t)t.v[w]; };
    convolve(x.shape[0], H, W, O, p, [&](int64_t n, int64_t iy, int64_t ix, bool ok, int64_t o, int64_t ka, int64_t kb) -> double {
      if (!ok && zero) return 0;
      double s = 0;
      for (int64_t i = 0; i < I; ++i) {
        const int64_t c = (o / og) * I + i;
        const double xi = !ok ? 1 : (bit(x, ((n * H + iy) * W + ix) * cw + c / 32) >> (c % 32)) & 1 ? -1 : 1;
        const int64_t fb = (o * p.fh + ka) * p.fw + kb;
        const double fi = packed ? ((bit(f, fb * f.shape[3] + i / 32) >> (i % 32)) & 1 ? -1 : 1) : (f.v[fb * I + i] < 0 ? -1 : 1);
        s += xi * fi;
      }
      return s;
    }, [&](int64_t n, int64_t y, int64_t xx, int64_t o, double acc) {
      const int64_t px = (n * p.h.out + y) * p.w.out + xx;
      if (bits) {
        const double mism = (p.fh * p.fw * I - acc) / 2;
        if (mism > in(4).v[o]) {
          double& d = r.v[px * words(O) + o / 32];
          d = (double)(int32_t)((uint32_t)(int32_t)d | 1u << (o % 32));
        }
      } else {
        r.v[px * O + o] = Store(oe, act(a, acc) * in(2).v[o] + in(3).v[o]);
      }
    });
    set(r);
  }
  void lqMaxPool() {
    const Tensor& x = in(0);
    rank4(x);
    const int64_t H = x.shape[1], W = x.shape[2], Ch = x.shape[3], fh = integer("filter_height"), fw = integer("filter_width"), sh = integer("stride_height"), sw = integer("stride_width");
    Win h = window(str("padding"), H, fh, sh, 1), w = window(str("padding"), W, fw, sw, 1);
    Tensor r;
    r.elem = outElem();
    r.shape = {x.shape[0], h.out, w.out, Ch};
    for (int64_t n = 0; n < x.shape[0]; ++n) for (int64_t y = 0; y < h.out; ++y) for (int64_t xx = 0; xx < w.out; ++xx) for (int64_t c = 0; c < Ch; ++c) {
      uint32_t m = ~0u;
      for (int64_t i = 0; i < fh; ++i) for (int64_t j = 0; j < fw; ++j) {
        const int64_t iy = y * sh - h.pad + i, ix = xx * sw - w.pad + j;
        if (iy >= 0 && iy < H && ix >= 0 && ix < W) m &= (uint32_t)(int32_t)x.v[((n * H + iy) * W + ix) * Ch + c];
      }
      r.v.push_back((double)(int32_t)m);
    }
    set(r);
  }
  void select(bool v1) {
    const Tensor &c = in(0), &t = in(1), &e = in(2);
    Tensor r;
    r.elem = outElem();
    if (v1) {
      if (t.shape != e.shape) err("Select operand shapes");
      r.shape = t.shape;
      const bool rows = c.shape.size() == 1 && t.shape.size() > 1;
      if (!c.shape.empty() && c.shape != t.shape && !(rows && c.shape[0] == t.shape[0])) err("Select condition shape");
      const int64_t n = r.n(), per = rows && t.shape[0] ? n / t.shape[0] : 1;
      for (int64_t k = 0; k < n; ++k) r.v.push_back(c.v[c.shape.empty() ? 0 : rows ? k / per : k] ? t.v[k] : e.v[k]);
    } else {
      r.shape = broadcast(c.shape, broadcast(t.shape, e.shape));
      const int64_t n = r.n();
      for (int64_t k = 0; k < n; ++k) r.v.push_back(c.v[at(r.shape, k, c.shape)] ? t.v[at(r.shape, k, t.shape)] : e.v[at(r.shape, k, e.shape)]);
    }
    set(r);
  }
  void step() {
    StringRef n = op->getName().getStringRef();
    if (n == "arith.constant" || n == "tf.Const" || n == "tfl.pseudo_const" || n == "tfl.pseudo_qconst") {
      Tensor t;
      if (!FromAttr(op->getAttr("value"), t)) throw Fail{UNSUPPORTED, "constant without accessible elements"};
      if (auto q = dyn_cast<quant::QuantizedType>(outElem()))
        if (t.elem == q.getStorageType()) t.elem = q;
      return set(t);
    }
    if (n == "tfl.no_value") { env[op->getResult(0)] = Tensor{}; return; }
    if (n == "tf.Identity" || n == "tf.StopGradient" || n == "tf.Snapshot" || n == "tf.CheckNumerics" || n == "tf.PlaceholderWithDefault" || n == "tf.IdentityN") {
      for (unsigned i = 0; i < op->getNumResults(); ++i) set(in(i), i);
      return;
    }
    if (n == "tf.Add" || n == "tf.AddV2") return binary('+', "NONE");
    if (n == "tf.Sub") return binary('-', "NONE");
    if (n == "tf.Mul") return binary('*', "NONE");
    if (n == "tf.Div" || n == "tf.RealDiv") return binary('/', "NONE");
    if (n == "tfl.add") return binary('+', str("fused_activation_function"));
    if (n == "tfl.sub") return binary('-', str("fused_activation_function"));
    if (n == "tfl.mul") return binary('*', str("fused_activation_function"));
    if (n == "tfl.div") return binary('/', str("fused_activation_function"));
    if (n == "tf.GreaterEqual" || n == "tfl.greater_equal") return compare(0);
    if (n == "tf.LessEqual" || n == "tfl.less_equal") return compare(1);
    if (n == "tf.Greater" || n == "tfl.greater") return compare(2);
    if (n == "tf.Less" || n == "tfl.less") return compare(3);
    if (n == "tf.Equal" || n == "tfl.equal") return compare(4);
    if (n == "tf.NotEqual" || n == "tfl.not_equal") return compare(5);
    if (n == "tf.LogicalNot" || n == "tfl.logical_not") return unary([](double x) { return !x; });
    if (n == "tf.Sign" || n == "tfl.sign") return unary([](double x) { return (x > 0) - (x < 0); });
    if (n == "tfl.standin_stateful") return unary([](double x) { return x; });
    if (n == "tf.Relu" || n == "tfl.relu") return unary([](double x) { return act("RELU", x); });
    if (n == "tf.Relu6" || n == "tfl.relu6") return unary([](double x) { return act("RELU6", x); });
    if (n == "tfl.relu_n1_to_1") return unary([](double x) { return act("RELU_N1_TO_1", x); });
    if (n == "tf.Neg" || n == "tfl.neg") return unary([](double x) { return -x; });
    if (n == "tf.Abs" || n == "tfl.abs") return unary([](double x) { return fabs(x); });
    if (n == "tf.FakeQuantWithMinMaxArgs") {
      auto real = [&](const char* k) { auto a = op->getAttrOfType<FloatAttr>(k); return a ? a.getValueAsDouble() : (err("attribute"), 0.0); };
      const double lo = real("min"), hi = real("max"), scale = (hi - lo) / 255, zp = fmin(fmax(RoundAway(-lo / scale), 0), 255);
      return unary([=](double x) { return (fmin(fmax(RoundAway(x / scale) + zp, 0), 255) - zp) * scale; });
    }
    if (n == "tf.Select") return select(true);
    if (n == "tf.SelectV2" || n == "tfl.select_v2") return select(false);
    if (n == "tf.Shape") {
      Tensor r;
      r.shape = {(int64_t)in(0).shape.size()};
      for (auto d : in(0).shape) r.v.push_back((double)d);
      return set(r);
    }
    if (n == "tf.Reshape" || n == "tfl.reshape") {
      Tensor r = in(0);
      r.shape.assign(in(1).v.begin(), in(1).v.end());
      int64_t k = 1;
      for (auto d : r.shape) if (d >= 0) k *= d;
      for (auto& d : r.shape) if (d < 0) d = k ? (int64_t)r.v.size() / k : 0;
      return set(r);
    }
    if (n == "tf.BroadcastTo" || n == "tfl.broadcast_to") {
      Tensor r;
      r.elem = in(0).elem;
      r.shape.assign(in(1).v.begin(), in(1).v.end());
      if (broadcast(in(0).shape, r.shape) != r.shape) err("BroadcastTo shape");
      const int64_t k = r.n();
      for (int64_t i = 0; i < k; ++i) r.v.push_back(in(0).v[at(r.shape, i, in(0).shape)]);
      return set(r);
    }
    if (n == "tf.Transpose" || n == "tfl.transpose") {
      const Tensor &x = in(0), &p = in(1);
      Tensor r;
      r.elem = x.elem;
      const int R = x.shape.size();
      if ((int)p.v.size() != R) err("permutation");
      for (int i = 0; i < R; ++i) r.shape.push_back(x.shape[(int)p.v[i]]);
      const int64_t k = r.n();
      for (int64_t i = 0; i < k; ++i) {
        int64_t q = i, o = 0;
        for (int d = R - 1; d >= 0; --d) {
          const int64_t c = q % r.shape[d];
          q /= r.shape[d];
          int64_t s = 1;
          for (int e = (int)p.v[d] + 1; e < R; ++e) s *= x.shape[e];
          o += c * s;
        }
        r.v.push_back(x.v[o]);
      }
      return set(r);
    }
    if (n == "tf.Conv2D") return tfConv();
    if (n == "tfl.conv_2d") return tflConv(false);
    if (n == "tfl.depthwise_conv_2d") return tflConv(true);
    if (n == "tf.Pad" || n == "tfl.pad") return pad(false);
    if (n == "tf.PadV2" || n == "tfl.padv2") return pad(true);
    if (n == "tfl.max_pool_2d") return maxpool(integer("filter_height"), integer("filter_width"), integer("stride_h"), integer("stride_w"), str("padding"), str("fused_activation_function"));
    if (n == "tf.MaxPool") {
      auto k = ints("ksize"), s = ints("strides");
      return maxpool(k[1], k[2], s[1], s[2], str("padding"), "NONE");
    }
    if (n == "tfl.quantize" || n == "tfl.dequantize") return unary([](double x) { return x; });
    if (n == "tfl.custom" && Custom) {
      std::vector<Tensor> a, r;
      for (unsigned i = 0; i < op->getNumOperands(); ++i) a.push_back(in(i));
      std::string e;
      const Status st = Custom(op, a, r, e);
      if (st != OK) throw Fail{st, e};
      if (r.size() != op->getNumResults()) err("number of results");
      for (unsigned i = 0; i < r.size(); ++i) set(r[i], i);
      return;
    }
    if (n == "lq.Quantize") return lqQuantize();
    if (n == "lq.Dequantize") return lqDequantize();
    if (n == "lq.Bconv2d") return lqBconv();
    if (n == "lq.BMaxPool2d") return lqMaxPool();
    throw Fail{UNSUPPORTED, "operator " + n.str()};
  }
};
}  // namespace

Status Run(func::FuncOp f, const std::vector<Tensor>& args, std::vector<Tensor>& out, std::string& e) {
  Interp it;
  out.clear();
  if (args.size() != f.getNumArguments()) { e = "argument count"; return ERROR; }
  for (size_t i = 0; i < args.size(); ++i) it.env[f.getArgument(i)] = args[i];
  for (Operation& o : f.front()) {
    it.op = &o;
    if (isa<func::ReturnOp>(o)) {
      for (Value v : o.getOperands()) out.push_back(it.env.find(v)->second);
      return OK;
    }
    try {
      it.step();
    } catch (Fail& x) {
      e = x.m + " at " + Print(&o);
      return x.s;
    }
  }
  e = "no return";
  return ERROR;
}
Status RunOp(Operation* op, const std::vector<Tensor>& in, std::vector<Tensor>& out, std::string& e) {
  Interp it;
  for (size_t i = 0; i < in.size(); ++i) it.env[op->getOperand(i)] = in[i];
  it.op = op;
  try {
    it.step();
  } catch (Fail& x) {
    e = x.m;
    return x.s;
  }
  out.clear();
  for (Value v : op->getResults()) out.push_back(it.env.find(v)->second);
  return OK;
}
OwningOpRef<ModuleOp> Parse(const std::string& text) {
  std::string d;
  ScopedDiagnosticHandler h(C, [&](Diagnostic& x) { d += x.str() + "\n"; return success(); });
  ParserConfig pc(C);
  auto m = parseSourceString<ModuleOp>(text, pc);
  if (!m) {
    fprintf(stderr, "harness: cannot parse: %s\n%s\n", d.c_str(), text.c_str());
    exit(77);
  }
  return m;
}
std::string Print(Operation* m, bool generic) {
  std::string r;
  llvm::raw_string_ostream os(r);
  OpPrintingFlags f;
  if (generic) f.printGenericOpForm();
  f.elideLargeElementsAttrs(64);
  m->print(os, f);
  return os.str();
}
bool RunPasses(ModuleOp m, const std::function<void(OpPassManager&)>& build, std::string& diag) {
  ScopedDiagnosticHandler h(C, [&](Diagnostic& x) { diag += x.str() + "\n"; return success(); });
  PassManager pm(C);
  OpPassManager& fpm = pm.nest<func::FuncOp>();
  build(fpm);
  return succeeded(pm.run(m));
}
std::string Show(const Tensor& t) {
  std::string r = "[" + ShapeText(t.shape) + "]";
  char b[40];
  for (size_t i = 0; i < t.v.size() && i < 24; ++i) { snprintf(b, sizeof b, " %.9g", t.v[i]); r += b; }
  if (t.v.size() > 24) r += " ...";
  return r;
}
std::string Diff(const std::vector<Tensor>& a, const std::vector<Tensor>& b, double tol) {
  if (a.size() != b.size()) return "number of results";
  for (size_t k = 0; k < a.size(); ++k) {
    std::string w = "result " + std::to_string(k);
    if (a[k].shape != b[k].shape) return w + " has shape " + ShapeText(b[k].shape) + " instead of " + ShapeText(a[k].shape);
    if (a[k].elem != b[k].elem) return w + " has another element type";
    for (size_t i = 0; i < a[k].v.size(); ++i) {
      const double x = a[k].v[i], y = b[k].v[i];
      if (x == y || (isnan(x) && isnan(y))) continue;
      if (fabs(x - y) <= tol * fmax(1, fabs(x))) continue;
      char t[160];
      snprintf(t, sizeof t, " element %zu is %.17g instead of %.17g", i, y, x);
      return w + t;
    }
  }
  return "";
}
}  // namespace ev
