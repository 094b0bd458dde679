// M03, M04: the optimization pass on operator chains behind (and in front of)
// binary operators, and the thresholds of bitpacked convolution outputs.
#include <map>
#include <math.h>

#include "common.h"
using namespace mlx;

namespace {
const char* kT[] = {"arm", "xcore"};
Build Optimize(int target) {
  return [=](OpPassManager& pm) { pm.addPass(TFL::CreateOptimizeLCEPass(target ? LCETarget::XCORE : LCETarget::ARM)); };
}
// A binary convolution: 2x4 image of 3 channels, 1xK filter, 3 outputs.
const int H = 2, W = 4, CI = 3, O = 3;
struct Conv {
  int pad;     // 0 VALID, 1 SAME with zeros, 2 SAME with ones
  int act;     // kAct
  int mb;      // multiplier and bias
  int filter;  // 0 float constant, 1 packed constant, 2 float argument
  bool extra;  // its output is also returned
  int geo;     // kGeo
  int h() const { return geo ? 3 : H; }
  int w() const { return geo ? 5 : W; }
  int fh() const { return geo ? 2 : 1; }
  int fw() const { return geo || pad ? 2 : 1; }
};
// stride height, stride width, dilation height, dilation width
const int kGeo[][4] = {{1, 1, 1, 1}, {1, 2, 2, 1}, {2, 1, 1, 2}, {2, 3, 1, 1}, {1, 1, 2, 3}};
const char* kAct[] = {"NONE", "RELU", "RELU_N1_TO_1", "RELU6"};
const char* kPad[] = {"VALID", "SAME0", "SAME1"};
const char* kFilter[] = {"f32", "packed", "arg"};
struct MB { const char* name; std::vector<double> m, b; };
const std::vector<MB> kMB = {
    {"unit", {1, 1, 1}, {0, 0, 0}},     {"plain", {0.5, 1, 2}, {1.5, -0.5, -3}}, {"negative", {-1, -0.5, 2}, {0.5, 1, 0}},
    {"zero", {0, 0, -1}, {-1, 1, 0}},   {"unit-mult", {1, 1, 1}, {0.5, -2, 1}},  {"unit-bias", {1, 2, 1}, {0, 0, 0}},
    {"almost", {1, 1, -1}, {0, 0, 0}},  {"args", {}, {}},
};
std::string Attrs(const Conv& c) {
  return mc::fmt("{channels_in = %d : i32, dilation_height_factor = %d : i32, dilation_width_factor = %d : i32, fused_activation_function = \"%s\", "
                 "pad_values = %d : i32, padding = \"%s\", stride_height = %d : i32, stride_width = %d : i32}",
                 CI, kGeo[c.geo][2], kGeo[c.geo][3], kAct[c.act], c.pad == 2, c.pad ? "SAME" : "VALID", kGeo[c.geo][0], kGeo[c.geo][1]);
}
// One operator of a chain, applied to %in of type f32 [1,H,W,ch].
struct Op {
  std::string name;
  std::function<std::string(const std::string& in, const std::string& out, int id, Shape& s, std::string& el)> emit;
};
std::string Fixed(const std::string& op, const std::string& in, const std::string& out, const std::string& attrs, const Shape& s, const std::string& el, const Shape& so, const std::string& elo) {
  return "  " + out + " = \"" + op + "\"(" + in + ") " + attrs + " : (" + ev::Ty(s, el) + ") -> " + ev::Ty(so, elo) + "\n";
}
double Val(int i) { static const double v[] = {0.5, -1, 2, 1, -2, 0.25, -0.5, 4}; return v[i % 8]; }
Shape Bcast(const Shape& a, const Shape& b) {
  Shape r = a;
  for (size_t i = 0; i < b.size(); ++i) {
    int64_t& d = r[r.size() - 1 - i];
    d = std::max(d, b[b.size() - 1 - i]);
  }
  return r;
}
std::vector<Op> Alphabet() {
  std::vector<Op> r;
  for (const char* a : {"relu", "relu_n1_to_1", "relu6"})
    r.push_back({a, [=](auto& in, auto& out, int, Shape& s, std::string& el) { return Fixed(std::string("tfl.") + a, in, out, "", s, el, s, el); }});
  struct VS { const char* n; std::function<Shape(const Shape&)> f; };
  const std::vector<VS> shapes = {
      {"[]", [](const Shape&) { return Shape{}; }},
      {"[1]", [](const Shape&) { return Shape{1}; }},
      {"[C]", [](const Shape& s) { return Shape{s[3]}; }},
      {"[111C]", [](const Shape& s) { return Shape{1, 1, 1, s[3]}; }},
      {"[1W1]", [](const Shape& s) { return Shape{s[2], 1}; }},
      {"[HWC]", [](const Shape& s) { return Shape{s[1], s[2], s[3]}; }},
      {"[2111]", [](const Shape&) { return Shape{2, 1, 1, 1}; }},
      {"[1HWC]", [](const Shape& s) { return s; }},
  };
  for (const char* b : {"add", "sub", "mul", "div"})
    for (auto& vs : shapes)
      for (int variant = 0; variant < 4; ++variant) {
        // 0: value op const, 1: const op value, 2: with an activation, 3: the same constant everywhere
        if (variant && (vs.n != std::string("[]") && vs.n != std::string("[C]"))) continue;
        r.push_back({mc::fmt("%s%s%s", b, vs.n, variant == 0 ? "" : variant == 1 ? "rev" : variant == 2 ? "relu" : "splat"), [=](auto& in, auto& out, int id, Shape& s, std::string& el) {
          Shape cs = vs.f(s), so = Bcast(s, cs);
          int64_t n = 1;
          for (auto d : cs) n *= d;
          std::vector<double> v;
          for (int i = 0; i < n; ++i) v.push_back(variant == 3 ? 2 : Val(i + id));
          if (variant == 1 && b == std::string("div")) return std::string();
          std::string k = "%k" + std::to_string(id);
          std::string t = "  " + k + " = arith.constant " + ev::Dense(v, cs, "f32") + "\n";
          const std::string ty = ev::Ty(s, "f32"), tc = ev::Ty(cs, "f32");
          t += "  " + out + " = \"tfl." + b + "\"(" + (variant == 1 ? k + ", " + in : in + ", " + k) + ") {fused_activation_function = \"" + (variant == 2 ? "RELU" : "NONE") + "\"} : (" +
               (variant == 1 ? tc + ", " + ty : ty + ", " + tc) + ") -> " + ev::Ty(so, "f32") + "\n";
          s = so;
          return el == "f32" ? t : std::string();
        }});
      }
  for (const char* p : {"VALID", "SAME"})
    for (int a = 0; a < 4; ++a)
      for (int g = 0; g < 3; ++g)
        r.push_back({mc::fmt("maxpool%d-%s-%s", g, p, kAct[a]), [=](auto& in, auto& out, int, Shape& s, std::string& el) {
          const int fh = g == 2 ? 1 : 2, fw = g == 1 ? 3 : 2, sh = g == 1 ? 2 : 1, sw = g == 0 ? 2 : 1;
          if (el != "f32") return std::string();
          Shape so = s;
          const bool v = p == std::string("VALID");
          if (v && (s[1] < fh || s[2] < fw)) return std::string();
          so[1] = v ? (s[1] - fh) / sh + 1 : (s[1] + sh - 1) / sh;
          so[2] = v ? (s[2] - fw) / sw + 1 : (s[2] + sw - 1) / sw;
          std::string t = Fixed("tfl.max_pool_2d", in, out, mc::fmt("{filter_height = %d : i32, filter_width = %d : i32, stride_h = %d : i32, stride_w = %d : i32, padding = \"%s\", fused_activation_function = \"%s\"}", fh, fw, sh, sw, p, kAct[a]), s, el, so, el);
          s = so;
          return t;
        }});
  // comparisons: (operator, constant on the left, shape, values)
  for (const char* c : {"greater_equal", "less_equal", "greater", "less"})
    for (int rev = 0; rev < 2; ++rev)
      for (int k = 0; k < 5; ++k)
        r.push_back({mc::fmt("%s%d-%d", c, rev, k), [=](auto& in, auto& out, int id, Shape& s, std::string& el) {
          if (el != "f32") return std::string();
          // 0: zero, 1: zeros per channel, 2: scalar, 3: per channel, 4: image
          Shape cs = k == 0 || k == 2 ? Shape{} : k == 4 ? s : Shape{s[3]};
          int64_t n = 1;
          for (auto d : cs) n *= d;
          std::vector<double> v;
          for (int i = 0; i < n; ++i) v.push_back(k < 2 ? 0 : Val(i + id));
          std::string kn = "%k" + std::to_string(id);
          std::string t = "  " + kn + " = arith.constant " + ev::Dense(v, cs, "f32") + "\n";
          const std::string ty = ev::Ty(s, "f32"), tc = ev::Ty(cs, "f32");
          t += "  " + out + " = \"tfl." + c + "\"(" + (rev ? kn + ", " + in : in + ", " + kn) + ") : (" + (rev ? tc + ", " + ty : ty + ", " + tc) + ") -> " + ev::Ty(s, "i1") + "\n";
          el = "i1";
          return t;
        }});
  r.push_back({"quantize", [](auto& in, auto& out, int, Shape& s, std::string& el) {
    if (el == "i32") return std::string();
    Shape so = s;
    so[3] = 1;
    std::string t = Fixed("lq.Quantize", in, out, "", s, el, so, "i32");
    s = so;
    el = "i32";
    return t;
  }});
  r.push_back({"dequantize", [](auto& in, auto& out, int, Shape& s, std::string& el) {
    if (el != "i32") return std::string();
    Shape so = s;
    so[3] = O;
    std::string t = Fixed("lq.Dequantize", in, out, "", s, el, so, "f32");
    s = so;
    el = "f32";
    return t;
  }});
  return r;
}
// Every channel pattern in some pixel, and its neighbours varied.
Inputs ConvInputs(const Conv& c) {
  Inputs r;
  for (int k = 0; k < 4; ++k) {
    std::vector<Tensor> a = {Fill({1, c.h(), c.w(), 1}, "i32", [&](int i) { return k == 0 ? i : k == 1 ? (i * 5 + 3) % 8 : k == 2 ? 7 * (i % 2) : (i * i + 1) % 8; })};
    if (c.filter == 2) a.push_back(Fill({O, c.fh(), c.fw(), CI}, "f32", [&](int i) { return (i * 7 + k) % 3 ? 1.0 : -1.0; }));
    if (kMB[c.mb].m.empty()) {
      a.push_back(Fill({O}, "f32", [&](int i) { return Val(i + k); }));
      a.push_back(Fill({O}, "f32", [&](int i) { return Val(3 * i + k + 1); }));
    }
    r.push_back(a);
  }
  return r;
}
std::string ConvText(const Conv& c, std::string& args, Shape& s) {
  const int fh = c.fh(), fw = c.fw();
  std::string t;
  args = "%x: " + ev::Ty({1, c.h(), c.w(), 1}, "i32");
  std::string ft = ev::Ty({O, fh, fw, CI}, "f32");
  std::vector<double> w;
  for (int i = 0; i < O * fh * fw * CI; ++i) w.push_back((i * 11 + i / 3) % 5 % 2 ? 1 : -1);
  if (c.filter == 0) t += "  %w = arith.constant " + ev::Dense(w, {O, fh, fw, CI}, "f32") + "\n";
  if (c.filter == 1) {
    ft = ev::Ty({O, fh, fw, 1}, "i32");
    std::vector<double> p;
    for (int i = 0; i < O * fh * fw; ++i) p.push_back((w[3 * i] < 0) + 2 * (w[3 * i + 1] < 0) + 4 * (w[3 * i + 2] < 0));
    t += "  %w = arith.constant " + ev::Dense(p, {O, fh, fw, 1}, "i32") + "\n";
  }
  if (c.filter == 2) args += ", %w: " + ft;
  if (kMB[c.mb].m.empty()) args += ", %m: tensor<3xf32>, %b: tensor<3xf32>";
  else t += "  %m = arith.constant " + ev::Dense(kMB[c.mb].m, {O}, "f32") + "\n  %b = arith.constant " + ev::Dense(kMB[c.mb].b, {O}, "f32") + "\n";
  t += "  %none = \"tfl.no_value\"() {value} : () -> none\n";
  auto size = [&](int n, int k, int st, int di) -> int64_t { return c.pad ? (n + st - 1) / st : (n - (k - 1) * di - 1) / st + 1; };
  s = {1, size(c.h(), fh, kGeo[c.geo][0], kGeo[c.geo][2]), size(c.w(), fw, kGeo[c.geo][1], kGeo[c.geo][3]), O};
  t += "  %c = \"lq.Bconv2d\"(%x, %w, %m, %b, %none) " + Attrs(c) + " : (" + ev::Ty({1, c.h(), c.w(), 1}, "i32") + ", " + ft + ", tensor<3xf32>, tensor<3xf32>, none) -> " + ev::Ty(s, "f32") + "\n";
  return t;
}
// Ops as used by the runtime only.
void NotOnXcore(ModuleOp m, int target) {
  if (target && ev::CountOps(m, "lq.BMaxPool2d")) EX->fail("a max pooling became binary for a target without it\n%s", ev::Print(m).c_str());
}
void Chain(const Conv& c, const std::vector<const Op*>& ops, int users, int target) {
  std::string args, rets, rtys;
  Shape s;
  std::string t = ConvText(c, args, s), el = "f32", cur = "%c";
  auto ret = [&]() {
    rets += (rets.empty() ? "" : ", ") + cur;
    rtys += (rtys.empty() ? "" : ", ") + ev::Ty(s, el);
  };
  int id = 0;
  for (auto* o : ops) {
    if (users >> id & 1) ret();
    const std::string nx = "%v" + std::to_string(id);
    std::string e = o->emit(cur, nx, id, s, el);
    if (e.empty()) return;
    t += e;
    cur = nx;
    ++id;
  }
  ret();
  const std::string text = "func.func @f(" + args + ") -> (" + rtys + ") {\n" + t + "  return " + rets + " : " + rtys + "\n}\n";
  Preserves(text, Optimize(target), ConvInputs(c), 0, [&](ModuleOp m) { NotOnXcore(m, target); });
}
// Comparisons, pooling and binarization of function arguments of every type.
void Standalone(const std::string& el, const Op* o, int target, int users, int mode) {
  Shape s = {1, 2, 4, 3};
  (void)mode;
  std::string e2 = el, rets, rtys;
  std::string e = o->emit("%x", "%v0", 0, s, e2);
  if (e.empty()) return;
  if (users) rets = "%v0, ", rtys = ev::Ty(s, e2) + ", ";
  if (e2 == "i32") return;
  Shape q = s;
  q[3] = (q[3] + 31) / 32;
  e += "  %q = \"lq.Quantize\"(%v0) : (" + ev::Ty(s, e2) + ") -> " + ev::Ty(q, "i32") + "\n";
  rets += "%q";
  rtys += ev::Ty(q, "i32");
  const std::string text = "func.func @f(%x: " + ev::Ty({1, 2, 4, 3}, el) + ") -> (" + rtys + ") {\n" + e + "  return " + rets + " : " + rtys + "\n}\n";
  Inputs in;
  for (int k = 0; k < 4; ++k) in.push_back({Fill({1, 2, 4, 3}, el, [&](int i) { return k == 0 ? 0 : Val(i * k + k); })});
  Preserves(text, Optimize(target), in, 0, [&](ModuleOp m) { NotOnXcore(m, target); });
}
// Comparisons of two tensors of any type and shape followed by binarization.
void Compare(const char* op, const std::string& el, const Shape& a, const Shape& b, int bconst, int target) {
  Shape so = a.size() >= b.size() ? Bcast(a, b) : Bcast(b, a);
  for (size_t i = 0; i < so.size(); ++i) if (so[i] < 0) return;
  auto val = [&](int i, int k) -> double {
    if (el == "f32") return k == 3 ? 1e30 * Val(i) : Val(i + k);
    if (el == "i1") return (i + k) % 2;
    if (el == "i32") { static const double v[] = {0, 1, -1, 2147483647, -2147483648.0, 5}; return v[(i * (k + 1) + k) % 6]; }
    if (el == "i64") { static const double v[] = {0, 1, -1, 4294967296.0, -4294967296.0, 5}; return v[(i * (k + 1) + k) % 6]; }
    static const double v[] = {-128, 127, 0, 3, 4, -1};
    return v[(i * (k + 1) + k) % 6];
  };
  int64_t nb = 1;
  for (auto d : b) nb *= d;
  std::vector<double> bv;
  for (int i = 0; i < nb; ++i) bv.push_back(bconst == 2 ? 0 : bconst == 3 ? -0.0 : val(i, 1));
  Shape q = so;
  if (q.empty()) return;
  q.back() = (q.back() + 31) / 32;
  const std::string ta = ev::Ty(a, el), tb = ev::Ty(b, el);
  std::string t = "func.func @f(%x: " + ta + (bconst ? "" : ", %y: " + tb) + ") -> " + ev::Ty(q, "i32") + " {\n";
  if (bconst) t += "  %y = arith.constant " + ev::Dense(bv, b, el) + "\n";
  t += mc::fmt("  %%c = \"tfl.%s\"(%%x, %%y) : (%s, %s) -> %s\n  %%q = \"lq.Quantize\"(%%c) : (%s) -> %s\n  return %%q : %s\n}\n", op, ta.c_str(), tb.c_str(), ev::Ty(so, "i1").c_str(), ev::Ty(so, "i1").c_str(),
               ev::Ty(q, "i32").c_str(), ev::Ty(q, "i32").c_str());
  Inputs in;
  for (int k = 0; k < 4; ++k) {
    std::vector<Tensor> x = {Fill(a, el, [&](int i) { return val(i, k); })};
    if (!bconst) x.push_back(Fill(b, el, [&](int i) { return val(i, k + 1); }));
    in.push_back(x);
  }
  Preserves(t, Optimize(target), in, 0, [&](ModuleOp m) {
    // the runtime only binarizes float, int8 and boolean tensors
    m.walk([&](Operation* o) {
      if (o->getName().getStringRef() != "lq.Quantize") return;
      Type e = cast<ShapedType>(o->getOperand(0).getType()).getElementType();
      if (!e.isF32() && !e.isInteger(1) && !isa<quant::UniformQuantizedType>(e)) EX->fail("binarization of a type the runtime does not support\n%s", ev::Print(m).c_str());
    });
  });
}
std::vector<Op> ALL;
void Explore(bool th) {
  mc::Explorer& ex = *EX;
  ALL = Alphabet();
  const int n = (int)ALL.size();
  auto chain = [&](const Conv& c, std::vector<int> k, int users, int target) {
    ex.config([&]() {
      std::string s = mc::fmt("%s geo=%d pad=%s act=%s mb=%s filter=%s users=%d:", kT[target], c.geo, kPad[c.pad], kAct[c.act], kMB[c.mb].name, kFilter[c.filter], users);
      for (int i : k) s += " " + ALL[i].name;
      return s;
    }, [&]() {
      std::vector<const Op*> o;
      for (int i : k) o.push_back(&ALL[i]);
      Chain(c, o, users, target);
    });
  };
  auto convs = [&](const std::function<void(const Conv&)>& f, bool all, int geo = 0) {
    for (int pad = 0; pad < 3; ++pad)
      for (int act = 0; act < 4; ++act)
        for (int mb = 0; mb < (int)kMB.size(); ++mb)
          for (int fi = 0; fi < 3; ++fi) {
            if (!all && (fi || (act && act != 2) || mb > 3)) continue;
            f({pad, act, mb, fi, false, geo});
          }
  };
  for (int target = 0; target < 2; ++target) {
    convs([&](const Conv& c) {
      for (int i = 0; i < n; ++i) for (int u = 0; u < 2; ++u) chain(c, {i}, u, target);
    }, true);
    for (int geo = 1; geo < 5; ++geo)
      convs([&](const Conv& c) {
        for (int i = 0; i < n; ++i) chain(c, {i}, 0, target);
        if (c.mb == 0 && (c.act == 0 || th))
          for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (th || ALL[j].name == "quantize" || ALL[j].name == "relu") chain(c, {i, j}, 0, target);
      }, false, geo);
    convs([&](const Conv& c) {
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int u = 0; u < 4; ++u) {
        if (u && !th && (c.pad || c.act)) continue;
        if (!th && ALL[i].name.find("maxpool") == 0 && ALL[j].name != "quantize" && c.mb) continue;
        chain(c, {i, j}, u, target);
      }
    }, th);
    // three operators: the ones with patterns only
    std::vector<int> core;
    for (int i = 0; i < n; ++i) {
      const std::string& m = ALL[i].name;
      if (m == "relu" || m == "relu6" || m == "add[C]" || m == "sub[]" || m == "mul[C]" || m == "mul[]" || m == "div[]" || m == "add[111C]" || m == "maxpool0-VALID-NONE" || m == "maxpool1-SAME-RELU" ||
          m == "greater_equal0-0" || m == "greater_equal0-3" || m == "less_equal0-2" || m == "less_equal1-3" || m == "quantize" || m == "dequantize" || m == "mul[C]rev") core.push_back(i);
    }
    convs([&](const Conv& c) {
      if (!th && c.act) return;
      for (int i : core) for (int j : core) for (int k : core) for (int u = 0; u < (th ? 8 : 1); ++u) chain(c, {i, j, k}, u, target);
      if (th && !c.act && c.mb < 2) for (int i : core) for (int j : core) for (int k : core) for (int l : core) chain(c, {i, j, k, l}, 0, target);
    }, false);
    for (const char* el : {"f32", "i1", "!quant.uniform<i8:f32, 0.5:3>"})
      for (int i = 0; i < n; ++i)
        for (int u = 0; u < 2; ++u)
          if (ALL[i].name.find("maxpool") == 0 || el == std::string("f32"))
            ex.config([&]() { return mc::fmt("%s argument %s users=%d: %s", kT[target], el, u, ALL[i].name.c_str()); }, [&]() { Standalone(el, &ALL[i], target, u, 0); });
    const std::vector<Shape> shapes = {{}, {1}, {3}, {2, 3}, {1, 3}, {1, 1, 1, 3}, {1, 2, 4, 3}, {2, 1, 4, 1}, {1, 2, 4, 33}, {33}, {1, 1, 4, 64}};
    for (const char* op : {"greater_equal", "less_equal", "greater", "less", "equal"})
      for (const char* el : {"f32", "i32", "i64", "!quant.uniform<i8:f32, 0.5:3>"})
        for (auto& a : shapes)
          for (auto& b : shapes) {
            bool ok = true;
            for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) {
              auto x = a[a.size() - 1 - i], y = b[b.size() - 1 - i];
              ok &= x == y || x == 1 || y == 1;
            }
            for (int bc = 0; ok && bc < 4; ++bc) {
              if (bc && el[0] == '!') continue;
              if (bc == 3 && el != std::string("f32")) continue;
              ex.config([&]() { return mc::fmt("%s compare %s %s [%s] [%s] constant=%d", kT[target], op, el, ev::ShapeText(a).c_str(), ev::ShapeText(b).c_str(), bc); }, [&]() { Compare(op, el, a, b, bc, target); });
            }
          }
  }
}
}  // namespace
int main(int argc, char** argv) {
  return Main(argc, argv, [](const mc::Options& o, mc::Explorer& ex) { Explore(ex.thorough); });
}
