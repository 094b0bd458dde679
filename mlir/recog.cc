// M02: recognising binarized layers in TensorFlow graphs.
#include <math.h>

#include "common.h"
using namespace mlx;

namespace {
const char* kTarget[] = {"arm", "xcore"};
Build Prepare(int target) {
  return [=](OpPassManager& pm) { pm.addPass(TFL::CreatePrepareLCEPass(target ? LCETarget::XCORE : LCETarget::ARM)); };
}
// What the rewritten graph must look like, whatever the values are.
void Shape_(ModuleOp m, int target) {
  m.walk([&](Operation* o) {
    if (o->getName().getStringRef() != "lq.Bconv2d") return;
    auto pad = o->getAttrOfType<StringAttr>("padding");
    auto pv = o->getAttrOfType<IntegerAttr>("pad_values");
    if (target == 1 && pad && pad.getValue() == "SAME" && pv && pv.getInt() == 0) EX->fail("a convolution with SAME padding by zeros is injected for a target that does not support it\n%s", ev::Print(m).c_str());
  });
  (ev::CountOps(m, "lq.Bconv2d") || ev::CountOps(m, "lq.Quantize") ? EX->sh->accepted : EX->sh->rejected)++;
}
std::string DynTy(Shape s, const char* el, int dyn) {  // 1: leading dimension, 2: last, 3: all, 4: unranked, 5: all but the last
  if (dyn == 4) return std::string("tensor<*x") + el + ">";
  if (dyn == 3 || dyn == 5) for (auto& d : s) d = -1;
  if (dyn == 5 && !s.empty()) s.back() = 1;
  if (dyn == 1 && !s.empty()) s[0] = -1;
  if (dyn == 2 && !s.empty()) s.back() = -1;
  return ev::Ty(s, el);
}
const char* kDyn[] = {"static", "leading ?", "last ?", "all ?", "unranked", "all but last ?"};
std::string Types(const Shape& s, const char* el, int dyn) {
  if (dyn == 5) {
    Shape d(s.size(), -1);
    if (!s.empty()) d.back() = s.back();
    return ev::Ty(d, el);
  }
  return DynTy(s, el, dyn);
}
bool Broadcast(const Shape& a, const Shape& b, Shape& r) {
  const size_t n = std::max(a.size(), b.size());
  r.assign(n, 1);
  for (size_t i = 0; i < n; ++i) {
    const int64_t x = i + a.size() < n ? 1 : a[i + a.size() - n], y = i + b.size() < n ? 1 : b[i + b.size() - n];
    if (x != y && x != 1 && y != 1) return false;
    r[i] = x == 1 ? y : x;
  }
  return true;
}
int64_t Count(const Shape& s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
// ------------------------------------------------------------ sign functions
struct Sel { int v1, t, f; Shape cs, ts, fs; const char* el; int dyn, target, users, resource; };
// 1, -1 and things that are neither; `m` alternates
const double kBranch[][2] = {{1, 1}, {-1, -1}, {1, -1}, {-1, 1}, {0.5, 0.5}, {0, 0}, {-2, -2}, {1.0000001192092896, 1.0000001192092896}};
void RunSel(const Sel& g) {
  Shape tf, r;
  if (!Broadcast(g.ts, g.fs, tf) || !Broadcast(g.cs, tf, r)) return;
  if (g.v1) {
    if (g.ts != g.fs) return;
    r = g.ts;
    if (!(g.cs.empty() || g.cs == g.ts || (g.cs.size() == 1 && !g.ts.empty() && g.cs[0] == g.ts[0]))) return;
  }
  const bool integer = g.el[0] == 'i';
  auto vals = [&](int k, const Shape& s) { std::vector<double> v; for (int64_t i = 0; i < Count(s); ++i) { double x = kBranch[k][i % 2]; v.push_back(integer ? trunc(x) : x); } return v; };
  const std::string tc = Types(g.cs, "i1", g.dyn), tr = Types(r, g.el, g.dyn), tt = ev::Ty(g.ts, g.el), tf_ = ev::Ty(g.fs, g.el);
  std::string t = "func.func @f(%c: " + tc + ") -> (" + tr + (g.users ? ", " + tr : "") + ") {\n";
  if (g.resource) t += "  %t = arith.constant dense_resource<one> : " + tt + "\n";
  else t += "  %t = arith.constant " + ev::Dense(vals(g.t, g.ts), g.ts, g.el) + "\n";
  t += "  %e = arith.constant " + ev::Dense(vals(g.f, g.fs), g.fs, g.el) + "\n";
  t += std::string("  %r = \"tf.Select") + (g.v1 ? "" : "V2") + "\"(%c, %t, %e) : (" + tc + ", " + tt + ", " + tf_ + ") -> " + tr + "\n";
  if (g.users) t += "  %n = \"tf.Neg\"(%r) : (" + tr + ") -> " + tr + "\n";
  t += std::string("  return %r") + (g.users ? ", %n : " + tr + ", " : " : ") + tr + "\n}\n";
  if (g.resource) {
    t += "{-# dialect_resources: { builtin: { one: \"0x04000000";
    for (int64_t i = 0; i < Count(g.ts); ++i) t += "0000803F";
    t += "\" } } #-}\n";
    auto m = ev::Parse(t);
    std::string d;
    if (!ev::RunPasses(*m, Prepare(g.target), d)) EX->fail("the pass fails: %s", d.c_str());
    EX->eval(2);
    return;
  }
  Inputs ins;
  const int64_t n = Count(g.cs), all = n <= 6 ? 1 << n : 0;
  for (int64_t k = 0; k < (all ? all : 6); ++k) ins.push_back({Fill(g.cs, "i1", [&](int64_t i) { return all ? (double)((k >> i) & 1) : k == 0 ? 0. : k == 1 ? 1. : (double)((i * (k + 3) + i / 7) % k == 0); })});
  Preserves(t, Prepare(g.target), ins, 0, [&](ModuleOp m) { Shape_(m, g.target); });
}
std::string KeySel(const Sel& g) {
  return mc::fmt("select%s %s cond=%s then=%s#%d else=%s#%d %s %s users=%d resource=%d", g.v1 ? "" : "V2", g.el, ev::ShapeText(g.cs).c_str(), ev::ShapeText(g.ts).c_str(), g.t, ev::ShapeText(g.fs).c_str(), g.f, kDyn[g.dyn], kTarget[g.target], g.users,
                 g.resource);
}
struct Sg { Shape xs, cs; int c, order, op, dyn, target, users; const char* el; };
const double kAdd[][2] = {{0.1, 0.1}, {0.5, 0.5}, {0.999, 0.999}, {1e-7, 1e-7}, {0, 0}, {1, 1}, {1.5, 1.5}, {-0.1, -0.1}, {-1, -1}, {2, 2}, {0.1, 0.7}, {0.1, 1}, {0.1, 0}, {0.1, -0.5}, {0.1, 3}};
const int kAdds = sizeof kAdd / sizeof kAdd[0];
const char* kSignOp[] = {"sign(sign + c)", "sign(sign + argument)", "sign(x + c)", "sign(add(sign, c))", "sign(sign - c)", "sign(sign * c)", "neg(sign + c)", "sign(sign(x) + sign(x))"};
void RunSign(const Sg& g) {
  Shape r;
  if (!Broadcast(g.xs, g.cs, r)) return;
  if (g.op == 7 && g.c) return;
  const std::string tx = Types(g.xs, g.el, g.dyn), tr = Types(r, g.el, g.dyn), tc = ev::Ty(g.cs, g.el);
  std::vector<double> cv;
  for (int64_t i = 0; i < Count(g.cs); ++i) cv.push_back(g.el[0] == 'i' ? trunc(kAdd[g.c][i % 2] * 2) : kAdd[g.c][i % 2]);
  std::string t = "func.func @f(%x: " + tx + (g.op == 1 ? ", %c: " + tc : "") + ") -> (" + tr + (g.users ? ", " + tr : "") + ") {\n";
  if (g.op != 1) t += "  %c = arith.constant " + ev::Dense(cv, g.cs, g.el) + "\n";
  t += g.op == 2 ? "" : "  %s = \"tf.Sign\"(%x) : (" + tx + ") -> " + tx + "\n";
  const char* s = g.op == 2 ? "%x" : "%s";
  const char* add = g.op == 3 ? "tf.Add" : g.op == 4 ? "tf.Sub" : g.op == 5 ? "tf.Mul" : "tf.AddV2";
  if (g.op == 7) t += "  %a = \"tf.AddV2\"(%s, %s) : (" + tx + ", " + tx + ") -> " + tr + "\n";
  else if (g.order) t += std::string("  %a = \"") + add + "\"(%c, " + s + ") : (" + tc + ", " + tx + ") -> " + tr + "\n";
  else t += std::string("  %a = \"") + add + "\"(" + s + ", %c) : (" + tx + ", " + tc + ") -> " + tr + "\n";
  t += std::string("  %r = \"") + (g.op == 6 ? "tf.Neg" : "tf.Sign") + "\"(%a) : (" + tr + ") -> " + tr + "\n  return %r" + (g.users ? ", %a : " + tr + ", " : " : ") + tr + "\n}\n";
  const double kX[] = {-2, -1, -0.5, -1e-30, -0.0, 0, 1e-30, 0.5, 1, 3};
  Inputs ins;
  for (int k = 0; k < 10; ++k) {
    std::vector<Tensor> v = {Fill(g.xs, g.el, [&](int64_t i) { double x = kX[(i * (k % 3 + 1) + k) % 10]; return g.el[0] == 'i' ? trunc(x) : x; })};
    if (g.op == 1) v.push_back(T(g.cs, g.el, cv));
    ins.push_back(v);
  }
  Preserves(t, Prepare(g.target), ins, 0, [&](ModuleOp m) { Shape_(m, g.target); });
}
std::string KeySign(const Sg& g) {
  return mc::fmt("%s %s x=%s c=%s#%d order=%d %s %s users=%d", kSignOp[g.op], g.el, ev::ShapeText(g.xs).c_str(), ev::ShapeText(g.cs).c_str(), g.c, g.order, kDyn[g.dyn], kTarget[g.target], g.users);
}
// -------------------------------------------------------------- convolutions
struct Cv {
  int n, h, w, c, i, o, fh, fw;
  Shape st, di;
  int pad;     // kPad
  int format;  // 0 NHWC, 1 NCHW, 2 absent
  int filter;  // kFilter
  int at;      // position of the odd element
  int dyn, target, input, users;
  int pv;      // 0 none, else PadV2 of (1,1) with kPadValue[pv - 1]
};
const char* kPad[] = {"VALID", "SAME", "EXPLICIT"};
enum { PM1, SCALED, NEAR, FAR, ZERO, TINY, FIRST_ZERO, ODD_HALF, ODD_ZERO, ODD_DOUBLE, ODD_NAN, ODD_INF, ALL_INF, F64, ARGUMENT, RESOURCE, SPLAT, FILTERS };
const char* kFilter[] = {"+-1", "+-scale", "+-scale(1+-0.4%)", "+-scale(1+-1%)", "zeros", "+-1e-8", "zero channel", "one half", "one 0", "one doubled", "one NaN", "one infinite", "infinite", "f64", "argument", "resource", "splat"};
const char* kInput[] = {"dequantize", "float", "dequantize-i1-cast", "quantize-dequantize"};
const double kPadValue[] = {1, 0, -1};
void RunConv(const Cv& g) {
  const Shape fs = {g.fh, g.fw, g.i, g.o};
  const int64_t fn = Count(fs);
  const char* el = g.filter == F64 ? "f64" : "f32";
  auto scale = [&](int64_t o) { return g.filter == PM1 || g.filter == F64 || g.filter == ARGUMENT ? 1.0 : 0.25 * (o % 3 + 1); };
  std::vector<double> f;
  for (int64_t k = 0; k < fn; ++k) {
    double s = ((k * 7 + k / 5 + k / g.o) % 3 ? 1 : -1) * scale(k % g.o);
    const double wob = (k / g.o) % 3 == 0 ? 0 : (k / g.o) % 3 == 1 ? 1 : -1;
    switch (g.filter) {
      case NEAR: s *= 1 + 0.004 * wob; break;
      case FAR: s *= 1 + 0.01 * wob; break;
      case ZERO: s = 0; break;
      case TINY: s *= 1e-8; break;
      case FIRST_ZERO: if (k % g.o == g.at % g.o) s = 0; break;
      case ODD_HALF: if (k == g.at) s *= 0.5; break;
      case ODD_ZERO: if (k == g.at) s = 0; break;
      case ODD_DOUBLE: if (k == g.at) s *= 2; break;
      case ODD_NAN: if (k == g.at) s = NAN; break;
      case ODD_INF: if (k == g.at) s = s * INFINITY; break;
      case ALL_INF: s = s * INFINITY; break;
      case SPLAT: s = -0.5; break;
    }
    f.push_back((double)(float)s);
  }
  const bool nchw = g.format == 1;
  int ph = 0;
  Shape x = {g.n, g.h, g.w, g.c}, p = x;
  if (g.pv) p[1] += 2, p[2] += 2, ph = 1;
  (void)ph;
  auto dims = [&](int64_t size, int64_t k, int64_t s, int64_t d) -> int64_t {
    const int64_t eff = (k - 1) * d + 1;
    if (g.pad == 1) return (size + s - 1) / s;
    if (g.pad == 2) size += 3;
    return size < eff ? -1 : (size - eff) / s + 1;
  };
  // (NCHW: the same tensor is taken as [N, C, H, W])
  Shape out;
  if (nchw) {
    if (g.w % g.i || g.pv || p[1] % g.i) return;
    out = {p[0], g.o, dims(p[2], g.fh, g.st[2], g.di[2]), dims(p[3], g.fw, g.st[3], g.di[3])};
    if (out[2] < 1 || out[3] < 1) return;
    if (g.st[1] != 1) out[1] = (out[1] + g.st[1] - 1) / g.st[1];
  } else {
    if (g.c % g.i || g.o % (g.c / g.i)) return;
    out = {p[0], dims(p[1], g.fh, g.st[1], g.di[1]), dims(p[2], g.fw, g.st[2], g.di[2]), g.o};
    if (out[1] < 1 || out[2] < 1) return;
    out[3] = (out[3] + g.st[3] - 1) / g.st[3];
  }
  out[0] = (out[0] + g.st[0] - 1) / g.st[0];
  const Shape xw = {g.n, g.h, g.w, (g.c + 31) / 32};
  const std::string tw = Types(xw, "i32", g.dyn == 2 ? 0 : g.dyn), tx = Types(x, el, g.dyn), tp = Types(p, el, g.dyn), to = Types(out, el, g.dyn), tfil = ev::Ty(fs, el);
  std::string t, args, in = "%x";
  if (g.input == 0 || g.input == 2) {
    args = "%b: " + tw;
    t += "  %x = \"lq.Dequantize\"(%b) : (" + tw + ") -> " + tx + "\n";
  } else if (g.input == 3) {
    args = "%y: " + tx;
    t += "  %b = \"lq.Quantize\"(%y) : (" + tx + ") -> " + tw + "\n  %x = \"lq.Dequantize\"(%b) : (" + tw + ") -> " + tx + "\n";
  } else args = "%x: " + tx;
  if (g.filter == ARGUMENT) args += ", %f: " + tfil;
  else if (g.filter == RESOURCE) t += "  %f = arith.constant dense_resource<one> : " + tfil + "\n";
  else if (g.filter == SPLAT) t += std::string("  %f = arith.constant dense<") + ev::Num(f[0]) + "> : " + tfil + "\n";
  else if (g.filter == ODD_NAN) {
    std::string d = ev::Dense(f, fs, el);
    size_t q = d.find("nan");
    if (q == std::string::npos) return;
    if (d[q - 1] == '-') d.replace(q - 1, 4, "0x7FC00000");
    else d.replace(q, 3, "0x7FC00000");
    t += "  %f = arith.constant " + d + "\n";
  } else t += "  %f = arith.constant " + ev::Dense(f, fs, el) + "\n";
  if (g.pv) {
    t += std::string("  %pd = arith.constant dense<[[0, 0], [1, 1], [1, 1], [0, 0]]> : tensor<4x2xi32>\n  %pv = arith.constant dense<") + ev::Num(kPadValue[g.pv - 1]) + "> : tensor<" + el + ">\n";
    t += "  %p = \"tf.PadV2\"(%x, %pd, %pv) : (" + tx + ", tensor<4x2xi32>, tensor<" + el + ">) -> " + tp + "\n";
    in = "%p";
  }
  auto list = [](const Shape& s) { return mc::fmt("[%d, %d, %d, %d]", (int)s[0], (int)s[1], (int)s[2], (int)s[3]); };
  std::string ep = g.pad == 2 ? nchw ? "explicit_paddings = [0, 0, 0, 0, 1, 2, 2, 1], " : "explicit_paddings = [0, 0, 1, 2, 2, 1, 0, 0], " : "explicit_paddings = [], ";
  t += "  %r = \"tf.Conv2D\"(" + in + ", %f) {" + (g.format == 2 ? std::string() : std::string("data_format = \"") + (nchw ? "NCHW" : "NHWC") + "\", ") + (g.di[1] * g.di[2] == 1 && g.format == 2 ? "" : "dilations = " + list(g.di) + ", ") + ep +
       "padding = \"" + kPad[g.pad] + "\", strides = " + list(g.st) + "} : (" + (g.pv ? tp : tx) + ", " + tfil + ") -> " + to + "\n";
  t = "func.func @f(" + args + ") -> (" + to + (g.users ? ", " + tx : "") + ") {\n" + t + "  return %r" + (g.users ? ", %x : " : " : ") + to + (g.users ? ", " + tx : "") + "\n}\n";
  auto none = [&](ModuleOp m) {
    if (ev::CountOps(m, "lq.Bconv2d")) EX->fail("a convolution without a binary filter becomes a binary convolution\n%s", ev::Print(m).c_str());
  };
  if (g.filter == RESOURCE || g.filter == ODD_NAN || g.filter == ODD_INF || g.filter == ALL_INF || g.i == 0 || g.fh == 0) {
    if (g.filter == RESOURCE) {
      t += "{-# dialect_resources: { builtin: { one: \"0x04000000";
      for (int64_t i = 0; i < fn; ++i) t += "0000803F";
      t += "\" } } #-}\n";
    }
    auto m = ev::Parse(t);
    std::string d;
    if (!ev::RunPasses(*m, Prepare(g.target), d)) EX->fail("the pass fails: %s", d.c_str());
    if (g.filter != RESOURCE) none(*m);
    EX->eval(2);
    EX->sh->rejected++;
    return;
  }
  Inputs ins;
  auto add = [&](Tensor v) {
    std::vector<Tensor> a = {v};
    if (g.filter == ARGUMENT) a.push_back(T(fs, el, f));
    ins.push_back(a);
  };
  if (g.input == 0 || g.input == 2) {
    const uint32_t lim = g.c % 32 ? (1u << (g.c % 32)) - 1 : ~0u;
    for (int k = 0; k < 4; ++k) add(Fill(xw, "i32", [&](int64_t i) { return (double)(int32_t)((k == 0 ? 0u : k == 1 ? ~0u : (uint32_t)(i + k) * 2654435761u >> (k - 2)) & ((i + 1) % xw[3] ? ~0u : lim)); }));
  } else {
    for (int k = 0; k < 3; ++k) add(Fill(x, el, [&](int64_t i) { return (i * (5 + k) + 3) % 11 - 5 + (k == 2 ? 0.5 : 0); }));
  }
  const double tol = g.filter == NEAR ? 0.01 * fn / g.o : 1e-5;
  Preserves(t, Prepare(g.target), ins, tol, [&](ModuleOp m) {
    Shape_(m, g.target);
    if (g.filter == FAR && fn / g.o > 1) none(m);
    if (g.filter >= ZERO && g.filter <= ODD_DOUBLE && g.filter != TINY && fn / g.o > 1) none(m);
    if (g.pad == 2) none(m);
  });
}
std::string KeyConv(const Cv& g) {
  return mc::fmt("conv %s %dx%dx%dx%d filter=%dx%dx%dx%d %s@%d s=%s d=%s %s %s %s %s input=%s users=%d padv2=%d", kTarget[g.target], g.n, g.h, g.w, g.c, g.fh, g.fw, g.i, g.o, kFilter[g.filter], g.at, ev::ShapeText(g.st).c_str(), ev::ShapeText(g.di).c_str(),
                 kPad[g.pad], g.format == 1 ? "NCHW" : g.format ? "default" : "NHWC", kDyn[g.dyn], "", kInput[g.input], g.users, g.pv);
}
// ------------------------------------------------------------ whole layers
// sign - convolution - sign - convolution, with pass-through operators between
struct Ly { int sign1, sign2, pad1, pad2, through, shared, target, c; };
const char* kThrough[] = {"", "tf.Identity", "tf.StopGradient", "tf.Snapshot", "tf.PlaceholderWithDefault", "tf.CheckNumerics"};
const char* kSign[] = {"select", "selectV2", "inverted select", "sign", "sign c first", "none"};
void RunLayer(const Ly& g) {
  const int H = 3;
  std::string t;
  auto sign = [&](int k, const std::string& in, const std::string& out, const Shape& s) {
    const std::string x = ev::Ty(s, "f32"), b = ev::Ty(s, "i1");
    if (k < 3) {
      const bool v1 = k == 0;
      Shape cs = v1 ? s : Shape{};
      std::vector<double> one(Count(cs), 1.0), neg(Count(cs), -1.0);
      t += "  " + out + "z = arith.constant dense<0.0> : tensor<f32>\n  " + out + "c = \"tf." + (k == 2 ? "Less" : "GreaterEqual") + "\"(" + in + ", " + out + "z) : (" + x + ", tensor<f32>) -> " + b + "\n";
      t += "  " + out + "p = arith.constant " + ev::Dense(one, cs, "f32") + "\n  " + out + "n = arith.constant " + ev::Dense(neg, cs, "f32") + "\n";
      t += "  " + out + " = \"tf.Select" + (v1 ? "" : "V2") + "\"(" + out + "c, " + out + (k == 2 ? "n, " : "p, ") + out + (k == 2 ? "p" : "n") + ") : (" + b + ", " + ev::Ty(cs, "f32") + ", " + ev::Ty(cs, "f32") + ") -> " + x + "\n";
    } else if (k < 5) {
      t += "  " + out + "c = arith.constant dense<0.1> : tensor<f32>\n  " + out + "s = \"tf.Sign\"(" + in + ") : (" + x + ") -> " + x + "\n";
      t += k == 3 ? "  " + out + "a = \"tf.AddV2\"(" + out + "s, " + out + "c) : (" + x + ", tensor<f32>) -> " + x + "\n" : "  " + out + "a = \"tf.AddV2\"(" + out + "c, " + out + "s) : (tensor<f32>, " + x + ") -> " + x + "\n";
      t += "  " + out + " = \"tf.Sign\"(" + out + "a) : (" + x + ") -> " + x + "\n";
    } else t += "  " + out + " = \"tf.Identity\"(" + in + ") : (" + x + ") -> " + x + "\n";
  };
  auto through = [&](const std::string& in, const std::string& out, const Shape& s) {
    const std::string x = ev::Ty(s, "f32");
    if (!g.through) { t += "  " + out + " = \"tf.Identity\"(" + in + ") : (" + x + ") -> " + x + "\n"; return; }
    t += "  " + out + " = \"" + kThrough[g.through] + "\"(" + in + ") " + (g.through == 5 ? "{message = \"m\"} " : "") + ": (" + x + ") -> " + x + "\n";
  };
  const Shape x = {1, H, H, g.c}, y = {1, g.pad1 ? H : H - 1, g.pad1 ? H : H - 1, 3};
  auto conv = [&](const std::string& in, const std::string& out, const Shape& s, int pad, int o, Shape& r) {
    const Shape fs = {2, 2, s[3], o};
    std::vector<double> f;
    for (int64_t k = 0; k < Count(fs); ++k) f.push_back((k * 5 + k / 3) % 3 ? 0.5 : -0.5);
    r = {1, pad ? s[1] : s[1] - 1, pad ? s[2] : s[2] - 1, o};
    t += "  " + out + "f = arith.constant " + ev::Dense(f, fs, "f32") + "\n  " + out + " = \"tf.Conv2D\"(" + in + ", " + out + "f) {data_format = \"NHWC\", padding = \"" + kPad[pad] + "\", strides = [1, 1, 1, 1]} : (" + ev::Ty(s, "f32") + ", " +
         ev::Ty(fs, "f32") + ") -> " + ev::Ty(r, "f32") + "\n";
  };
  Shape r1, r2;
  sign(g.sign1, "%x", "%s", x);
  through("%s", "%t", x);
  conv("%t", "%y", x, g.pad1, 3, r1);
  sign(g.sign2, "%y", "%u", r1);
  through("%u", "%v", r1);
  if (r1[1] < 2 && !g.pad2) return;
  conv("%v", "%z", r1, g.pad2, 2, r2);
  const char* kShared[] = {"", "%s", "%y", "%u", "%v"};
  const Shape shs = g.shared == 1 ? x : r1;
  const std::string to = ev::Ty(r2, "f32") + (g.shared ? ", " + ev::Ty(shs, "f32") : "");
  t = "func.func @f(%x: " + ev::Ty(x, "f32") + ") -> (" + to + ") {\n" + t + "  return %z" + (g.shared ? std::string(", ") + kShared[g.shared] : "") + " : " + to + "\n}\n";
  Inputs ins;
  for (int k = 0; k < 4; ++k) ins.push_back({Fill(x, "f32", [&](int64_t i) { return (double)((i * (2 * k + 3) + k) % 7 - 3); })});
  Preserves(t, Prepare(g.target), ins, 1e-5, [&](ModuleOp m) { Shape_(m, g.target); });
}
std::string KeyLayer(const Ly& g) {
  return mc::fmt("layers %s c=%d %s %s %s %s through=%s shared=%d", kTarget[g.target], g.c, kSign[g.sign1], kPad[g.pad1], kSign[g.sign2], kPad[g.pad2], kThrough[g.through], g.shared);
}

void Explore(bool th) {
  // select
  const std::vector<Shape> shapes = {{}, {1}, {3}, {2, 3}, {2, 1}, {1, 3}, {3, 3}, {1, 1}, {2, 33}, {33}, {1, 2, 3}};
  for (auto& cs : shapes)
    for (auto& ts : shapes)
      for (auto& fs : shapes) {
        if (!th && ts != fs && !ts.empty() && !fs.empty() && cs.size() + ts.size() + fs.size() > 4) continue;
        for (int v1 = 0; v1 < 2; ++v1)
          for (int a = 0; a < 8; ++a)
            for (int b = 0; b < 8; ++b)
              for (int dyn = 0; dyn < 6; ++dyn)
                for (int target = 0; target < 2; ++target)
                  for (const char* el : {"f32", "f64", "i32", "f16"})
                    for (int users = 0; users < 2; ++users)
                      for (int res = 0; res < 2; ++res) {
                        if (el[0] != 'f' || el[1] != '3') if (a > 3 || b > 3 || target || res || users) continue;
                        if ((a > 1 || b > 1) && (dyn || users || res)) continue;
                        if (res && (a || strcmp(el, "f32"))) continue;
                        if (!th && target && (dyn || a > 1 || b > 1)) continue;
                        Sel g = {v1, a, b, cs, ts, fs, el, dyn, target, users, res};
                        EX->config([&]() { return KeySel(g); }, [&]() { RunSel(g); });
                      }
      }
  // sign
  for (auto& xs : shapes)
    for (auto& cs : shapes)
      for (int c = 0; c < kAdds; ++c)
        for (int order = 0; order < 2; ++order)
          for (int op = 0; op < 8; ++op)
            for (int dyn = 0; dyn < 6; ++dyn)
              for (int target = 0; target < 2; ++target)
                for (int users = 0; users < 2; ++users)
                  for (const char* el : {"f32", "f64", "i32"}) {
                    if (strcmp(el, "f32") && (dyn || target || users || op)) continue;
                    if (op && (dyn || target || users)) continue;
                    if (target && (dyn || users)) continue;
                    Sg g = {xs, cs, c, order, op, dyn, target, users, el};
                    EX->config([&]() { return KeySign(g); }, [&]() { RunSign(g); });
                  }
  // convolutions
  auto conv = [&](const Cv& g) { EX->config([&]() { return KeyConv(g); }, [&]() { RunConv(g); }); };
  for (int target = 0; target < 2; ++target) {
    // geometry
    for (int h = 1; h <= (th ? 5 : 4); ++h)
      for (int w : {1, 3, 4})
        for (int fh = 1; fh <= 3; ++fh)
          for (int fw : {1, 2})
            for (int s = 1; s <= 3; ++s)
              for (int d = 1; d <= 2; ++d)
                for (int pad = 0; pad < 3; ++pad)
                  for (int hw = 0; hw < 2; ++hw)
                    for (int pv = 0; pv < 4; ++pv)
                      for (int c : {1, 3}) {
                        const Shape st = hw ? Shape{1, 1, s, 1} : Shape{1, s, 1, 1}, di = hw ? Shape{1, d, 1, 1} : Shape{1, 1, d, 1};
                        if (pv == 1 && s > 1) continue;  // (M06)
                        conv({1, hw ? w : h, hw ? h : w, c, c, 2, hw ? fw : fh, hw ? fh : fw, st, di, pad, 0, SCALED, 0, 0, target, 0, 0, pv});
                      }
    // padding by ones of strided convolutions (where SAME padding pads one on
    // each side, or the output size differs; M06 decides the rest)
    for (int h = 1; h <= 6; ++h)
      for (int w = 1; w <= 6; ++w)
        for (int fh = 1; fh <= 3; ++fh)
          for (int fw = 1; fw <= 3; ++fw)
            for (int sh = 1; sh <= 3; ++sh)
              for (int sw = 1; sw <= 3; ++sw) {
                if (sh * sw == 1) continue;
                auto same = [](int n, int k, int s) {
                  const int o = (n + s - 1) / s, total = (o - 1) * s + k - n;
                  return n + 2 >= k && (n + 2 - k) / s + 1 == o && total != 2;
                };
                if (same(h, fh, sh) || same(w, fw, sw)) continue;
                conv({1, h, w, 2, 2, 2, fh, fw, {1, sh, sw, 1}, {1, 1, 1, 1}, 0, 0, SCALED, 0, 0, target, 0, 0, 1});
              }
    // strides and dilations of every dimension
    for (int k = 0; k < 81; ++k)
      for (int pad = 0; pad < 3; ++pad)
        for (int format = 0; format < 3; ++format)
          for (int dil = 0; dil < 3; ++dil)
            for (int big = 0; big < 2; ++big) {
              const Shape st = {k % 3 + 1, k / 3 % 3 + 1, k / 9 % 3 + 1, k / 27 + 1}, di = {1, format == 1 ? 1 : dil == 1 ? 2 : 1, dil == 0 ? 1 : 2, format == 1 && dil == 1 ? 2 : 1};
              conv({2, 4, 4, 4, big ? 4 : 4, 4, big ? 2 : 1, 1, st, di, pad, format, SCALED, 0, 0, target, 0, 0, 0});
            }
    // channels and groups
    for (int c : {1, 2, 31, 32, 33, 64, 65, 96, 128})
      for (int i : {1, 2, 3, 8, 16, 31, 32, 33, 64, 65, 96, 128})
        for (int o : {1, 2, 3, 4, 6})
          for (int pad = 0; pad < 2; ++pad)
            for (int dyn = 0; dyn < 6; ++dyn) conv({1, 2, 2, c, i, o, 2, 1, {1, 1, 1, 1}, {1, 1, 1, 1}, pad, 0, PM1, 0, dyn, target, 0, 0, 0});
    // filters, with the odd element at every position
    for (int filter = 0; filter < FILTERS; ++filter)
      for (int shape = 0; shape < (th ? 5 : 4); ++shape) {
        const int k[5][4] = {{1, 1, 1, 1}, {1, 1, 3, 2}, {2, 2, 2, 2}, {3, 1, 1, 3}, {3, 3, 4, 3}};
        const int* f = k[shape];
        const int n = f[0] * f[1] * f[2] * f[3];
        for (int at = 0; at < (filter >= FIRST_ZERO && filter <= ODD_INF ? n : 1); ++at)
          for (int pad = 0; pad < 2; ++pad)
            for (int pv = 0; pv < 2; ++pv)
              for (int dyn = 0; dyn < 6; ++dyn)
                for (int input = 0; input < 4; ++input)
                  for (int users = 0; users < 2; ++users) {
                    if (dyn && (at || (filter && filter != SCALED))) continue;
                    if (filter > SCALED && input && at) continue;
                    conv({1, 3, 3, f[2], f[2], f[3], f[0], f[1], {1, 1, 1, 1}, {1, 1, 1, 1}, pad, 0, filter, at, dyn, target, input, users, pv});
                  }
      }
  }
  // layers
  for (int target = 0; target < 2; ++target)
    for (int s1 = 0; s1 < 6; ++s1)
      for (int s2 = 0; s2 < 6; ++s2)
        for (int p1 = 0; p1 < 2; ++p1)
          for (int p2 = 0; p2 < 2; ++p2)
            for (int th2 = 0; th2 < 6; ++th2)
              for (int sh = 0; sh < 5; ++sh)
                for (int c : {2, 33}) {
                  Ly g = {s1, s2, p1, p2, th2, sh, target, c};
                  EX->config([&]() { return KeyLayer(g); }, [&]() { RunLayer(g); });
                }
}
}  // namespace
int main(int argc, char** argv) {
  return Main(argc, argv, [](const mc::Options& o, mc::Explorer& ex) { Explore(ex.thorough); });
}
