// M06: fusing explicit padding into convolutions.
#include <math.h>

#include <set>

#include "common.h"
using namespace mlx;

namespace {
enum Kind { CONV, DEPTHWISE, BINARY_ARM, BINARY_XCORE, KINDS };
const char* kKind[] = {"conv", "depthwise", "binary-arm", "binary-xcore"};
const char* kAct[] = {"NONE", "RELU", "RELU_N1_TO_1", "RELU6"};
// One dimension: size, filter, stride, dilation, padding before and behind.
struct D {
  int n, k, s, d, b, a;
  int eff() const { return (k - 1) * d + 1; }
  int out() const { return n + b + a < eff() ? -1 : (n + b + a - eff()) / s + 1; }
};
struct G {
  Kind kind;
  D h, w;
  int v2;            // PadV2 with value kValue[v2 - 1]
  int dyn;           // kDyn
  int users;         // the padded image is also returned
  int act;
  bool conv_same;    // the convolution has SAME padding itself
  int extra;         // kExtra
  int C, O;
};
struct Value { const char* el; double v; Shape s; };
const Value kValue[] = {{"f32", 0, {}}, {"f32", 1, {}}, {"f32", -0.0, {}}, {"f32", 0.5, {}}, {"f32", -1, {}}, {"f32", 1e-30, {}}, {"f32", 1.0000001, {}}};
const char* kDyn[] = {"static", "?HW?", "H", "W", "HW", "all", "unranked"};
const char* kExtra[] = {"", "batch-before", "batch-behind", "channel-before", "channel-behind", "i64 paddings", "argument paddings", "splat paddings", "resource paddings"};
std::string Type(Shape s, const char* el, int dyn) {
  if (dyn == 6) return std::string("tensor<*x") + el + ">";
  if (dyn == 1 || dyn == 5) s[0] = -1;
  if (dyn == 2 || dyn == 4 || dyn == 5) s[1] = -1;
  if (dyn == 3 || dyn == 4 || dyn == 5) s[2] = -1;
  return ev::Ty(s, el);
}
double Img(int i) { return (i * 7 + 3) % 11 - 5 + (i % 3) * 0.25; }
// Paddings of strided binary convolutions that are split evenly and lead to the
// output size of SAME padding are fused, although SAME padding puts less before
// the image (the repository's lit test fuse_bconv2d_same_one_padding asks for
// it).  What is computed then is the convolution with SAME padding.
bool SameInstead(const G& g, G& same) {
  if (g.kind < BINARY_ARM || g.v2 != 2 || g.conv_same || (g.extra && g.extra != 5 && g.extra != 7) || g.dyn == 6) return false;
  same = g;
  same.extra = same.users = 0;
  bool differs = false;
  for (D* d : {&same.h, &same.w}) {
    const int out = (d->n + d->s - 1) / d->s, total = std::max(0, (out - 1) * d->s + d->eff() - d->n);
    const bool dynamic = g.dyn == 4 || g.dyn == 5 || g.dyn == (d == &same.h ? 2 : 3);
    if (dynamic && d->s != 1) return false;
    if (d->out() != out || d->a - d->b < 0 || d->a - d->b > 1) {
      if (d->out() != out || d->b != total / 2) return false;  // (more padding behind the last window)
    }
    if (d->b != total / 2) {
      if (d->s == 1) return false;
      differs = true;
    }
    d->b = total / 2, d->a = total - total / 2;
  }
  return differs;
}
void Text(const G& g, std::string& text, Inputs& ins);
void Run(const G& g) {
  std::string t;
  Inputs ins;
  Text(g, t, ins);
  if (t.empty()) return;
  const Kind kind = g.kind;
  // (resource constants: no crash is all there is to see)
  const auto build = [=](OpPassManager& pm) {
    if (kind >= BINARY_ARM) pm.addPass(TFL::CreatePrepareLCEPass(kind == BINARY_XCORE ? LCETarget::XCORE : LCETarget::ARM));
    else pm.addPass(TFL::CreateFusePaddingPass());
  };
  const std::string pad = kind >= BINARY_ARM ? g.v2 ? "tf.PadV2" : "tf.Pad" : g.v2 ? "tfl.padv2" : "tfl.pad";
  if (g.extra == 8) {
    auto m = ev::Parse(t);
    std::string d;
    if (!ev::RunPasses(*m, build, d)) EX->fail("the pass fails: %s", d.c_str());
    if (!ev::CountOps(*m, pad)) EX->fail("a padding that cannot be read was removed\n%s", ev::Print(*m).c_str());
    EX->eval(2);
    return;
  }
  G same;
  std::string alt;
  Inputs unused;
  if (SameInstead(g, same)) Text(same, alt, unused);
  Preserves(t, build, ins, 0, [&](ModuleOp m) {
    const bool fused = !ev::CountOps(m, pad);
    (fused ? EX->sh->accepted : EX->sh->rejected)++;
    if (g.users && fused) EX->fail("a padding with another user was removed");
  }, {"strided-even-padding", alt});
}
void Text(const G& g, std::string& text, Inputs& ins) {
  const D &h = g.h, &w = g.w;
  const int N = 1, C = g.C, O = g.kind == DEPTHWISE ? C * g.O : g.O;
  std::vector<double> pads = {0, 0, (double)h.b, (double)h.a, (double)w.b, (double)w.a, 0, 0};
  if (g.extra >= 1 && g.extra <= 2) pads[g.extra - 1] = 1;
  if (g.extra >= 3 && g.extra <= 4) pads[g.extra + 3] = 1;
  if (g.extra == 7) for (double p : pads) if (p != pads[2]) return;
  const char* pel = g.extra == 5 ? "i64" : "i32";
  const int cb = g.extra == 3 || g.extra == 4, nb = g.extra == 1 || g.extra == 2;
  const bool bin = g.kind >= BINARY_ARM;
  Shape in = {N, h.n, w.n, C}, pd = {N + nb, h.n + h.b + h.a, w.n + w.b + w.a, C + cb}, out = {N + nb, h.out(), w.out(), O};
  if (h.out() < 1 || w.out() < 1) return;
  if (g.conv_same) out[1] = (pd[1] + h.s - 1) / h.s, out[2] = (pd[2] + w.s - 1) / w.s;
  if (g.kind == DEPTHWISE && cb) return;
  const std::string ti = Type(in, "f32", g.dyn), tp = Type(pd, "f32", g.dyn), to = Type(out, "f32", g.dyn);
  std::string t, args = "%x: " + (bin ? Type({N, h.n, w.n, (C + 31) / 32}, "i32", g.dyn) : ti), x = "%x";
  if (bin) {
    t += "  %d = \"lq.Dequantize\"(%x) : (" + Type({N, h.n, w.n, (C + 31) / 32}, "i32", g.dyn) + ") -> " + ti + "\n";
    x = "%d";
  }
  if (g.extra == 6) args += std::string(", %p: tensor<4x2x") + pel + ">";
  else if (g.extra == 7) t += "  %p = arith.constant dense<" + std::to_string((int)pads[2]) + "> : tensor<4x2xi32>\n";
  else if (g.extra == 8) t += "  %p = arith.constant dense_resource<pads> : tensor<4x2xi32>\n";
  else t += "  %p = arith.constant " + ev::Dense(pads, {4, 2}, pel) + "\n";
  const char* dia = bin ? "tf" : "tfl";
  if (g.v2) {
    const Value& v = kValue[g.v2 - 1];
    t += "  %v = arith.constant " + ev::Dense({v.v}, v.s, v.el) + "\n";
    t += std::string("  %pad = \"") + dia + (bin ? ".PadV2" : ".padv2") + "\"(" + x + ", %p, %v) : (" + ti + ", tensor<4x2x" + pel + ">, " + ev::Ty(v.s, v.el) + ") -> " + tp + "\n";
  } else {
    t += std::string("  %pad = \"") + dia + (bin ? ".Pad" : ".pad") + "\"(" + x + ", %p) : (" + ti + ", tensor<4x2x" + pel + ">) -> " + tp + "\n";
  }
  std::vector<double> f, b;
  Shape fs = g.kind == DEPTHWISE ? Shape{1, h.k, w.k, O} : bin ? Shape{h.k, w.k, C + cb, O} : Shape{O, h.k, w.k, C + cb};
  int64_t fn = 1;
  for (auto d : fs) fn *= d;
  for (int64_t i = 0; i < fn; ++i) f.push_back(bin ? ((i * 5 + i / 3) % 3 ? 1.0 : -1.0) : 1 + (i * 13 % 17) + 0.5 * (i % 2));
  for (int i = 0; i < O; ++i) b.push_back(i * 0.5 - 1);
  t += "  %w = arith.constant " + ev::Dense(f, fs, "f32") + "\n";
  const char* pad = g.conv_same ? "SAME" : "VALID";
  if (bin)
    t += mc::fmt("  %%r = \"tf.Conv2D\"(%%pad, %%w) {data_format = \"NHWC\", dilations = [1, %d, %d, 1], explicit_paddings = [], padding = \"%s\", strides = [1, %d, %d, 1], use_cudnn_on_gpu = true} : (%s, %s) -> %s\n", h.d, w.d, pad, h.s, w.s,
                 tp.c_str(), ev::Ty(fs, "f32").c_str(), to.c_str());
  else
    t += mc::fmt("  %%b = arith.constant %s\n  %%r = \"tfl.%s\"(%%pad, %%w, %%b) {%sdilation_h_factor = %d : i32, dilation_w_factor = %d : i32, fused_activation_function = \"%s\", padding = \"%s\", stride_h = %d : i32, stride_w = %d : i32} : (%s, %s, %s) -> %s\n",
                 ev::Dense(b, {O}, "f32").c_str(), g.kind == DEPTHWISE ? "depthwise_conv_2d" : "conv_2d", g.kind == DEPTHWISE ? mc::fmt("depth_multiplier = %d : i32, ", g.O).c_str() : "", h.d, w.d, kAct[g.act], pad, h.s, w.s, tp.c_str(),
                 ev::Ty(fs, "f32").c_str(), ev::Ty({O}, "f32").c_str(), to.c_str());
  t = "func.func @f(" + args + ") -> (" + to + (g.users ? ", " + tp : "") + ") {\n" + t + "  return %r" + (g.users ? ", %pad : " : " : ") + to + (g.users ? ", " + tp : "") + "\n}\n";
  if (g.extra == 8) {
    t += "{-# dialect_resources: { builtin: { pads: \"0x04000000";
    for (double p : pads) t += mc::fmt("%02X000000", (int)p);
    t += "\" } } #-}\n";
  }
  auto add = [&](Tensor x) {
    std::vector<Tensor> v = {x};
    if (g.extra == 6) v.push_back(T({4, 2}, pel, pads));
    ins.push_back(v);
  };
  if (bin) {
    const Shape s = {N, h.n, w.n, (C + 31) / 32};
    const int64_t lim = C >= 32 ? 0xffffffffll : (1ll << C) - 1;
    for (int k = 0; k < 4; ++k) add(Fill(s, "i32", [&](int i) { return (double)(int32_t)((k == 0 ? -1ll : k == 1 ? 0 : (i * 2654435761ll) >> k) & lim); }));
  } else {
    add(Fill(in, "f32", [&](int i) { return Img(i); }));
    add(Fill(in, "f32", [&](int i) { return 100 - Img(i * 3 + 1); }));
  }
  text = t;
}
std::string Key(const G& g) {
  auto d = [](const D& x) { return mc::fmt("%d k%d s%d d%d +%d+%d", x.n, x.k, x.s, x.d, x.b, x.a); };
  return mc::fmt("%s h(%s) w(%s) value=%s %s users=%d act=%s %s %s C=%d O=%d", kKind[g.kind], d(g.h).c_str(), d(g.w).c_str(), g.v2 ? mc::fmt("%.9g", kValue[g.v2 - 1].v).c_str() : "pad", kDyn[g.dyn], g.users, kAct[g.act], g.conv_same ? "SAME" : "VALID",
                 kExtra[g.extra], g.C, g.O);
}
void Explore(bool th) {
  auto go = [&](G g) { EX->config([&]() { return Key(g); }, [&]() { Run(g); }); };
  const int N = th ? 9 : 7, K = th ? 6 : 5, S = th ? 4 : 3, DI = th ? 3 : 2, P = th ? 5 : 3;
  // the other dimension: without, with right and with wrong padding
  const std::vector<D> other = {{1, 1, 1, 1, 0, 0}, {3, 3, 1, 1, 1, 1}, {2, 2, 1, 1, 1, 0}, {4, 3, 2, 1, 0, 1}, {3, 1, 2, 1, 0, 0}};
  for (int kind = 0; kind < KINDS; ++kind)
    for (int n = 1; n <= N; ++n)
      for (int k = 1; k <= K; ++k)
        for (int s = 1; s <= S; ++s)
          for (int d = 1; d <= DI; ++d)
            for (int b = 0; b <= P; ++b)
              for (int a = 0; a <= P; ++a)
                for (int hw = 0; hw < 2; ++hw)
                  for (int o = 0; o < (int)other.size(); ++o)
                    for (int dyn = 0; dyn < 7; ++dyn) {
                      const D x = {n, k, s, d, b, a};
                      if (x.out() < 1) continue;
                      if (dyn && !th && o != 1) continue;
                      const D &h = hw ? other[o] : x, &w = hw ? x : other[o];
                      if (s == 1 || d == 1 || kind < BINARY_ARM) go({(Kind)kind, h, w, kind >= BINARY_ARM ? 2 : (n + b) % 2, dyn, 0, 0, false, 0, kind >= BINARY_ARM ? 2 : 1, kind >= BINARY_ARM ? 2 : 1});
                    }
  // everything else on a few sizes
  const std::vector<D> few = {{3, 3, 1, 1, 1, 1}, {4, 3, 2, 1, 0, 1}, {4, 3, 2, 1, 1, 1}, {3, 3, 2, 1, 1, 1}, {3, 3, 1, 1, 0, 2}, {4, 1, 1, 1, 0, 0}, {3, 2, 1, 1, 0, 1}, {4, 3, 1, 2, 2, 2}, {2, 3, 1, 1, 2, 2}, {1, 3, 1, 1, 1, 1}};
  for (int kind = 0; kind < KINDS; ++kind)
    for (auto& h : few)
      for (auto& w : few)
        for (int v2 = 0; v2 <= 7; ++v2)
          for (int users = 0; users < 2; ++users)
            for (int act = 0; act < (kind < BINARY_ARM ? 4 : 1); ++act)
              for (int same = 0; same < 2; ++same)
                for (int extra = 0; extra < 9; ++extra)
                  for (int c = 0; c < 3; ++c) {
                    if (act && (extra || users) && !th) continue;
                    if (c == 2 && (kind < BINARY_ARM || (extra && !th))) continue;
                    go({(Kind)kind, h, w, v2, 0, users, act, (bool)same, extra, c == 0 ? 1 : c == 1 ? 3 : 33, c == 0 ? 1 : 2});
                  }
}
}  // namespace
int main(int argc, char** argv) {
  return Main(argc, argv, [](const mc::Options& o, mc::Explorer& ex) { Explore(ex.thorough); });
}
