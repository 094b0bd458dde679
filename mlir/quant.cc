// M07: quantize and dequantize operators around binary operators.
//
// All chains of quantize, dequantize, requantize, binary operators and an
// activation up to a depth, with every set of intermediate values returned too,
// and all forms of per-channel operands of a convolution, through the real pass
// and the interpreter.
#include <math.h>

#include "common.h"
using namespace mlx;

namespace {
const char* kQ[] = {"!quant.uniform<i8:f32, 0.5>",          "!quant.uniform<i8:f32, 0.25:3>",   "!quant.uniform<i8:f32, 3.0:-128>", "!quant.uniform<i8:f32, 0.0078125:100>",
                    "!quant.uniform<u8:f32, 0.5:128>",       "!quant.uniform<i16:f32, 0.0625>",  "!quant.uniform<i4:f32, 1.0>",      "!quant.uniform<i8:f32:3, {0.5:1,0.25:2,1.0}>",
                    "!quant.uniform<i8<-127:127>:f32, 0.5>"};
constexpr int kQs = 9;
// kinds of values: F float, B bits, 0.. quantized
enum { F = -1, B = -2, H = -3 };
std::string Ty(int k) { return k == F ? "tensor<1x2x2x3xf32>" : k == B ? "tensor<1x2x2x1xi32>" : k == H ? "tensor<1x2x2x3xf16>" : std::string("tensor<1x2x2x3x") + kQ[k] + ">"; }
bool Per(int k) { return k == 7; }
bool Eight(int k) { return k >= 0 && k != 5 && k != 6; }
std::vector<Tensor> Values(int k) {
  std::vector<Tensor> r;
  const Shape s = k == B ? Shape{1, 2, 2, 1} : Shape{1, 2, 2, 3};
  if (k == B) {
    r.push_back(T(s, "i32", {0, 1, 2, 3}));
    r.push_back(T(s, "i32", {4, 5, 6, 7}));
    return r;
  }
  if (k == F || k == H) {
    const std::vector<double> v = {0,    -0.0, 0.25, -0.25, 0.125,  -0.125, 0.75, -0.75, 1,     -1,   1.5,   -1.5, 2.25, -2.25,  3,      -3, 0.03125, -0.03125,
                                   4.5, -4.5, 63.5, -64,   64.25, -64.25, 100,  -100,  1000,  -1000, 0.0625, 5,    -6,    31.875, -31.75, 7,  0.0078125, -0.0078125};
    for (size_t i = 0; i < v.size(); i += 12) r.push_back(T(s, k == H ? "f16" : "f32", {v.begin() + i, v.begin() + i + 12}));
    return r;
  }
  const int lo = k == 4 ? 0 : k == 5 ? -32768 : k == 6 ? -8 : k == 8 ? -127 : -128, hi = k == 4 ? 255 : k == 5 ? 32767 : k == 6 ? 7 : 127;
  std::vector<double> v;
  for (int x : {lo, lo + 1, -65, -64, -33, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 99, 100, 101, 126, 127, 128, 129, 254, hi - 1, hi}) v.push_back(std::min(hi, std::max(lo, x)));
  while (v.size() % 12) v.push_back(0);
  for (size_t i = 0; i < v.size(); i += 12) r.push_back(T(s, kQ[k], {v.begin() + i, v.begin() + i + 12}));
  return r;
}
Inputs InputsOf(int k) {
  Inputs in;
  for (auto& t : Values(k)) in.push_back({t});
  return in;
}
void Quantize(OpPassManager& pm) { pm.addPass(TFL::CreateLCEQuantizePass()); }

// Zero-padded convolutions with quantized output: no implementation runs them
// (the reference implementation does for even numbers of channels).
bool ZeroPaddedQuantized(ModuleOp m) {
  bool found = false;
  m.walk([&](Operation* o) {
    if (o->getName().getStringRef() != "lq.Bconv2d") return;
    auto p = o->getAttrOfType<StringAttr>("padding");
    auto v = o->getAttrOfType<IntegerAttr>("pad_values");
    found |= p && p.getValue() == "SAME" && v && v.getInt() == 0 && isa<quant::QuantizedType>(cast<ShapedType>(o->getResult(0).getType()).getElementType());
  });
  return found;
}
void Check(const std::string& text, const Inputs& in) {
  auto before = ev::Parse(text);
  std::map<std::string, int64_t> n;
  const char* ops[] = {"lq.Bconv2d", "lq.Quantize", "lq.Dequantize"};
  for (auto o : ops) n[o] = ev::CountOps(*before, o);
  const int64_t q = ev::CountOps(*before, "tfl.quantize") + ev::CountOps(*before, "tfl.dequantize");
  const bool zero = ZeroPaddedQuantized(*before);
  const bool sensible = Preserves(text, Quantize, in, 0, [&](ModuleOp m) {
    for (auto o : ops)
      if (ev::CountOps(m, o) > n[o]) return EX->fail("%s is computed more often\nbefore\n%s\nafter\n%s", o, text.c_str(), ev::Print(m).c_str());
    if (!zero && ZeroPaddedQuantized(m)) EX->fail_class("zero-padding-int8", "a zero-padded convolution gets quantized output, which the optimized implementations reject\n" + text);
    (ev::CountOps(m, "tfl.quantize") + ev::CountOps(m, "tfl.dequantize") < q ? EX->sh->accepted : EX->sh->rejected)++;
  });
  if (!sensible) { fprintf(stderr, "harness: senseless\n%s", text.c_str()); exit(77); }
}

// ------------------------------------------------------------------ chains
struct Conv { const char* name; int ci; const char* attrs; };
const Conv kConv[] = {{"valid", 3, "fused_activation_function = \"NONE\", pad_values = 0 : i32, padding = \"VALID\""}, {"relu", 3, "fused_activation_function = \"RELU\", pad_values = 1 : i32, padding = \"SAME\""}};
struct Step { std::string key, line; int to; };
struct Chain {
  int start;
  std::vector<int> kinds;          // of the values
  std::vector<std::string> names;  // %0, ...
  std::string text, key;
  bool conv = false;
};
void Emit(const Chain& c) {
  const int n = (int)c.kinds.size();  // value 0 is the argument
  for (int keep = 0; keep < 1 << (n - 2 < 0 ? 0 : n - 2); ++keep) {
    EX->config([&]() { return mc::fmt("%s keep=%d", c.key.c_str(), keep); },
               [&]() {
                 std::string names = c.names.back(), tys = Ty(c.kinds.back());
                 for (int i = 1; i < n - 1; ++i)
                   if (keep >> (i - 1) & 1) names += ", " + c.names[i], tys += ", " + Ty(c.kinds[i]);
                 std::string pre;
                 if (c.conv)
                   pre = "  %none = \"tfl.no_value\"() {value} : () -> none\n  %w = arith.constant dense<[[[[-1]]], [[[2]]], [[[-6]]]]> : tensor<3x1x1x1xi32>\n  %M = arith.constant dense<[1.0, -0.5, 0.75]> : tensor<3xf32>\n  %A = arith.constant "
                         "dense<[0.25, 3.0, -40.0]> : tensor<3xf32>\n  %t = arith.constant dense<[0, 1, 2]> : tensor<3xi32>\n";
                 Check("func.func @f(%v0: " + Ty(c.start) + ") -> (" + tys + ") {\n" + pre + c.text + "  return " + names + " : " + tys + "\n}\n", InputsOf(c.start));
               });
  }
}
void Walk(const Chain& c, int depth, const std::vector<int>& qs, int convs) {
  if (c.kinds.size() > 1) Emit(c);
  if (!depth) return;
  const int k = c.kinds.back();
  const std::string v = c.names.back(), r = "%v" + std::to_string(c.kinds.size());
  auto go = [&](const std::string& key, const std::string& op, int to, bool conv = false) {
    Chain d = c;
    d.kinds.push_back(to);
    d.names.push_back(r);
    d.text += "  " + r + " = " + op + " : (" + (conv ? Ty(k) + ", tensor<3x1x1x1xi32>, " + (to == B ? "none, none, tensor<3xi32>" : "tensor<3xf32>, tensor<3xf32>, none") : Ty(k)) + ") -> " + Ty(to) + "\n";
    d.key += " " + key;
    d.conv |= conv;
    Walk(d, depth - 1, qs, convs);
  };
  if (k == F || k >= 0)
    for (int q : qs) go("q" + std::to_string(q), "\"tfl.quantize\"(" + v + ") {qtype = " + Ty(q) + "}", q);
  if (k >= 0 || k == H) go("dq", "\"tfl.dequantize\"(" + v + ")", F);
  if (k == F) go("relu", "\"tfl.relu\"(" + v + ")", F);
  if (k == F || k == H || (k >= 0 && k != 6 && !Per(k))) go("Q", "\"lq.Quantize\"(" + v + ")", B);
  if (k == B) {
    go("D", "\"lq.Dequantize\"(" + v + ")", F);
    for (int q : qs) if (q != 6 && !Per(q)) go("D" + std::to_string(q), "\"lq.Dequantize\"(" + v + ")", q);
    for (int i = 0; i < convs; ++i) {
      const std::string at = std::string(") {channels_in = 3 : i32, dilation_height_factor = 1 : i32, dilation_width_factor = 1 : i32, stride_height = 1 : i32, stride_width = 1 : i32, ") + kConv[i].attrs + "}";
      go(mc::fmt("conv-%s", kConv[i].name), "\"lq.Bconv2d\"(" + v + ", %w, %M, %A, %none" + at, F, true);
      for (int q : qs) if (Eight(q) && !Per(q)) go(mc::fmt("conv-%s-%d", kConv[i].name, q), "\"lq.Bconv2d\"(" + v + ", %w, %M, %A, %none" + at, q, true);
      if (!i) go("conv-bits", "\"lq.Bconv2d\"(" + v + ", %w, %none, %none, %t" + at, B, true);
    }
  }
}
void Chains(int depth, const std::vector<int>& qs, int convs) {
  std::vector<int> starts = {F, B, H};
  starts.insert(starts.end(), qs.begin(), qs.end());
  for (int s : starts) {
    Chain c;
    c.start = s, c.kinds = {s}, c.names = {"%v0"};
    c.key = "chain " + (s == F ? std::string("F") : s == B ? "B" : s == H ? "H" : std::to_string(s));
    Walk(c, depth, qs, convs);
  }
}

// -------------------------------------------------- per-channel operands
// How a per-channel operand comes about; all values are representable.
struct Form { const char* name; bool arg; const char* text; };  // $ is the name of the operand, @ its constant or argument
const char* kP[] = {"!quant.uniform<i8:f32, 0.25>", "!quant.uniform<u8:f32, 0.25:128>", "!quant.uniform<i16:f32, 0.25>", "!quant.uniform<i8:f32:0, {0.25,0.5:1,0.25}>", "!quant.uniform<i8:f32, 0.25:-5>"};
enum { PLAIN, QDQ, ARG_QDQ, ARG_DQ, REQUANT, ARG_REQUANT, HALF, ARG, TWICE, FORMS };
const char* kForm[] = {"plain", "qdq", "arg-qdq", "arg-dq", "requantized", "arg-requantized", "f16", "arg", "twice"};
struct Operand { std::string text, arg, keep_q, keep_dq; };
std::string P(int p) { return std::string("tensor<3x") + kP[p] + ">"; }
Operand Make(int form, int p, const std::string& n, const std::string& values) {
  Operand o;
  const std::string c = "  %" + n + "c = arith.constant dense<" + values + "> : tensor<3xf32>\n", q = "  %" + n + "q = \"tfl.quantize\"(%" + n + "c) {qtype = " + P(p) + "} : (tensor<3xf32>) -> " + P(p) + "\n",
                    dq = "  %" + n + " = \"tfl.dequantize\"(%" + n + "q) : (" + P(p) + ") -> tensor<3xf32>\n",
                    qq = "  %" + n + "q = \"tfl.quantize\"(%" + n + "p) {qtype = " + P(p) + "} : (" + P(p ? 0 : 4) + ") -> " + P(p) + "\n";
  switch (form) {
    case PLAIN: o.text = "  %" + n + " = arith.constant dense<" + values + "> : tensor<3xf32>\n"; break;
    case QDQ: o.text = c + q + dq; break;
    case ARG_QDQ: o.arg = "%" + n + "c: tensor<3xf32>"; o.text = q + dq; break;
    case ARG_DQ: o.arg = "%" + n + "q: " + P(p); o.text = dq; break;
    case REQUANT: o.text = c + "  %" + n + "p = \"tfl.quantize\"(%" + n + "c) {qtype = " + P(p ? 0 : 4) + "} : (tensor<3xf32>) -> " + P(p ? 0 : 4) + "\n" + qq + dq; break;
    case ARG_REQUANT: o.arg = "%" + n + "p: " + P(p ? 0 : 4); o.text = qq + dq; break;
    case HALF: o.text = "  %" + n + "h = arith.constant dense<" + values + "> : tensor<3xf16>\n  %" + n + " = \"tfl.dequantize\"(%" + n + "h) : (tensor<3xf16>) -> tensor<3xf32>\n"; break;
    case ARG: o.arg = "%" + n + ": tensor<3xf32>"; break;
    case TWICE:  // dequantized, quantized and dequantized again
      o.text = c + "  %" + n + "p = \"tfl.quantize\"(%" + n + "c) {qtype = " + P(4) + "} : (tensor<3xf32>) -> " + P(4) + "\n  %" + n + "f = \"tfl.dequantize\"(%" + n + "p) : (" + P(4) + ") -> tensor<3xf32>\n  %" + n + "q = \"tfl.quantize\"(%" + n + "f) {qtype = " + P(p) + "} : (tensor<3xf32>) -> " + P(p) + "\n" + dq;
      break;
  }
  if (form == QDQ || form == ARG_QDQ || form == REQUANT || form == ARG_REQUANT || form == TWICE || form == ARG_DQ) o.keep_q = "%" + n + "q", o.keep_dq = "%" + n;
  return o;
}
std::vector<Tensor> ArgOf(int form, int p, const std::vector<double>& v) {
  if (form == ARG_QDQ || form == ARG) return {T({3}, "f32", v)};
  if (form != ARG_DQ && form != ARG_REQUANT) return {};
  const int t = form == ARG_DQ ? p : p ? 0 : 4;
  static const double scale[5][3] = {{.25, .25, .25}, {.25, .25, .25}, {.25, .25, .25}, {.25, .5, .25}, {.25, .25, .25}}, zp[5][3] = {{0, 0, 0}, {128, 128, 128}, {0, 0, 0}, {0, 1, 0}, {-5, -5, -5}};
  Tensor r{{3}, {}, Elem(kP[t])};
  for (int i = 0; i < 3; ++i) r.v.push_back(v[i] / scale[t][i] + zp[t][i]);
  return {r};
}
struct A { const char* padding; int pv; const char* act; int sh, sw, dh, dw, k, groups; };
const A kA[] = {{"VALID", 0, "NONE", 1, 1, 1, 1, 1, 1}, {"SAME", 1, "NONE", 2, 1, 1, 1, 3, 1}, {"SAME", 1, "RELU", 1, 2, 2, 1, 2, 1}, {"VALID", 1, "RELU6", 1, 1, 1, 2, 2, 1}, {"SAME", 0, "NONE", 1, 1, 1, 1, 3, 1}, {"VALID", 0, "RELU_N1_TO_1", 3, 2, 1, 1, 1, 1}};
// Consumers of the convolution
enum { RET, Q_RET, Q_AND_FLOAT, Q_AND_Q, Q_TWICE, Q_DQ, Q_LQ, Q_REQUANT, CONSUMERS };
const char* kConsumer[] = {"float", "quantize", "quantize+float", "quantize+quantize", "quantize twice used", "quantize-dequantize", "quantize-dequantize-Quantize", "requantize"};
void Operands(const A& a, int mf, int mp, int bf, int bp, int keep, int consumer, int q, bool shared, int ci = 3) {
  EX->config([&]() { return mc::fmt("conv %s/%d %s %dx%d d%dx%d k%d ci%d M=%s:%d B=%s:%d%s keep=%d %s %d", a.padding, a.pv, a.act, a.sh, a.sw, a.dh, a.dw, a.k, ci, kForm[mf], mp, kForm[bf], bp, shared ? " shared" : "", keep, kConsumer[consumer], q); },
             [&]() {
               const std::vector<double> mv = {1, -0.5, 0.75}, bv = {0.25, 1.0, -2.5};
               Operand m = Make(mf, mp, "m", "[1.0, -0.5, 0.75]"), b = Make(bf, bp, "b", "[0.25, 1.0, -2.5]");
               const int H = 4, W = 5, eh = (a.k - 1) * a.dh + 1, ew = (a.k - 1) * a.dw + 1;
               const bool same = *a.padding == 'S';
               const int oh = same ? (H + a.sh - 1) / a.sh : (H - eh) / a.sh + 1, ow = same ? (W + a.sw - 1) / a.sw : (W - ew) / a.sw + 1;
               const Shape os = {1, oh, ow, 3}, bs = {1, oh, ow, 1};
               const std::string fo = ev::Ty(os, "f32"), qo = ev::Ty(os, kQ[q]), q2 = ev::Ty(os, kQ[q ? 0 : 1]), bo = ev::Ty(bs, "i32");
               std::string ret, rt, text, args = "%x: tensor<1x4x5x1xi32>";
               auto add = [&](const std::string& n, const std::string& t) { ret += (ret.empty() ? "" : ", ") + n, rt += (rt.empty() ? "" : ", ") + t; };
               if (!m.arg.empty()) args += ", " + m.arg;
               if (!b.arg.empty() && !shared) args += ", " + b.arg;
               std::vector<double> w;
               for (int i = 0; i < 3 * a.k * a.k * ci; ++i) w.push_back((i * 7 + i / 4) % 3 ? 1 : -1);
               text = "  %none = \"tfl.no_value\"() {value} : () -> none\n  %w = arith.constant " + ev::Dense(w, {3, a.k, a.k, ci}, "f32") + "\n" + m.text + (shared ? "" : b.text) +
                      mc::fmt("  %%c = \"lq.Bconv2d\"(%%x, %%w, %%m, %s, %%none) {channels_in = %d : i32, dilation_height_factor = %d : i32, dilation_width_factor = %d : i32, fused_activation_function = \"%s\", pad_values = %d : i32, padding = \"%s\", stride_height = %d : i32, "
                              "stride_width = %d : i32} : (tensor<1x4x5x1xi32>, tensor<3x%dx%dx%dxf32>, tensor<3xf32>, tensor<3xf32>, none) -> %s\n",
                              shared ? "%m" : "%b", ci, a.dh, a.dw, a.act, a.pv, a.padding, a.sh, a.sw, a.k, a.k, ci, fo.c_str());
               const std::string quant = "\"tfl.quantize\"(%c) {qtype = " + qo + "} : (" + fo + ") -> " + qo + "\n";
               if (consumer != RET) text += "  %q = " + quant;
               switch (consumer) {
                 case RET: add("%c", fo); break;
                 case Q_RET: add("%q", qo); break;
                 case Q_AND_FLOAT: add("%c", fo), add("%q", qo); break;
                 case Q_AND_Q: text += "  %r = \"tfl.quantize\"(%c) {qtype = " + q2 + "} : (" + fo + ") -> " + q2 + "\n"; add("%q", qo), add("%r", q2); break;
                 case Q_TWICE: text += "  %r = \"tfl.dequantize\"(%q) : (" + qo + ") -> " + fo + "\n"; add("%r", fo), add("%q", qo); break;
                 case Q_DQ: text += "  %r = \"tfl.dequantize\"(%q) : (" + qo + ") -> " + fo + "\n"; add("%r", fo); break;
                 case Q_LQ: text += "  %r = \"tfl.dequantize\"(%q) : (" + qo + ") -> " + fo + "\n  %s = \"lq.Quantize\"(%r) : (" + fo + ") -> " + bo + "\n"; add("%s", bo); break;
                 case Q_REQUANT: text += "  %r = \"tfl.quantize\"(%q) {qtype = " + q2 + "} : (" + qo + ") -> " + q2 + "\n"; add("%r", q2); break;
               }
               if (keep & 1) { if (m.keep_q.empty()) return; add(m.keep_q, P(mp)); }
               if (keep & 2) { if (b.keep_dq.empty() || shared) return; add(b.keep_dq, "tensor<3xf32>"); }
               Inputs in;
               for (int v = 0; v < 3; ++v) {
                 std::vector<Tensor> t = {Fill({1, 4, 5, 1}, "i32", [&](int i) { return v == 0 ? 0 : v == 1 ? (i * 5 + 2) % 8 % (1 << ci) : (i * 3 + i / 5) % 7 % (1 << ci); })};
                 for (auto& x : ArgOf(mf, mp, mv)) t.push_back(x);
                 if (!shared) for (auto& x : ArgOf(bf, bp, bv)) t.push_back(x);
                 in.push_back(t);
               }
               Check("func.func @f(" + args + ") -> (" + rt + ") {\n" + text + "  return " + ret + " : " + rt + "\n}\n", in);
             });
}
void Explore(bool th) {
  // chains
  std::vector<int> all;
  for (int q = 0; q < kQs; ++q) all.push_back(q);
  Chains(th ? 4 : 3, all, 2);
  Chains(th ? 5 : 4, th ? std::vector<int>{0, 1, 3, 4, 5} : std::vector<int>{1, 3, 5}, 1);
  // operands
  for (int i = 0; i < 6; ++i)
    for (int mf = 0; mf < FORMS; ++mf)
      for (int bf = 0; bf < FORMS; ++bf)
        for (int mp = 0; mp < 5; ++mp)
          for (int bp = 0; bp < 5; ++bp) {
            if (mp && (mf == PLAIN || mf == HALF || mf == ARG)) continue;
            if (bp && (bf == PLAIN || bf == HALF || bf == ARG)) continue;
            if (!th && i && (mp > 1 || bp != mp)) continue;
            for (int keep = 0; keep < 4; ++keep)
              for (int c : {(int)RET, (int)Q_RET}) Operands(kA[i], mf, mp, bf, bp, keep, c, 1, false, 2);
          }
  for (int i = 0; i < 6; ++i)
    for (int form : {(int)PLAIN, (int)QDQ, (int)ARG_QDQ, (int)ARG_DQ})
      for (int c = 0; c < CONSUMERS; ++c)
        for (int q = 0; q < kQs; ++q)
          for (int shared = 0; shared < 2; ++shared)
            for (int ci = 2; ci <= 3; ++ci)
              if (kA[i].pv || *kA[i].padding == 'V' || ci == 2) Operands(kA[i], form, 0, form, 0, 0, c, q, shared, ci);
}
}  // namespace
int main(int argc, char** argv) {
  return Main(argc, argv, [](const mc::Options& o, mc::Explorer& ex) { Explore(ex.thorough); });
}
