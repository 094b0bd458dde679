// K13: what the converter writes into the options of a custom operator is what
// the runtime reads.
//
// Binary operators with every combination of attribute values are legalized by
// the real pass; the custom operators are executed by the real runtime
// operators from their serialized options and compared with the interpretation
// of the original operators; the translation back gives the original attributes.
#include "exec.h"
using namespace mlx;

namespace {
const char* kAct[] = {"NONE", "RELU", "RELU_N1_TO_1", "RELU6", "TANH", "SIGN_BIT"};
const char* kOut[] = {"float", "int8", "bits"};
uint32_t Rnd(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return (uint32_t)((x ^ (x >> 31)) >> 16);
}
// n pixels of ch channels
std::vector<double> Words(int64_t n, int64_t ch, int seed) {
  std::vector<double> v;
  const int64_t w = (ch + 31) / 32;
  for (int64_t i = 0; i < n; ++i)
    for (int64_t j = 0; j < w; ++j) {
      uint32_t r = Rnd(i * w + j + seed * 1000003ull);
      if (seed == 1) r &= Rnd(i * w + j + 77);  // mostly +1
      if (j == w - 1 && ch % 32) r &= (1u << (ch % 32)) - 1;
      v.push_back((double)(int32_t)r);
    }
  return v;
}
std::string Attributes(ModuleOp m) {
  std::string s;
  func::FuncOp f = *m.getOps<func::FuncOp>().begin();
  for (Operation& o : f.getBody().front()) {
    s += o.getName().getStringRef().str();
    // an omitted value and the default are the same
    if (o.getName().getStringRef() == "lq.Bconv2d" && !o.getAttr("pad_values")) o.setAttr("pad_values", IntegerAttr::get(IntegerType::get(o.getContext(), 32), 0));
    for (auto a : o.getAttrs()) { if (a.getName() == "value") continue; llvm::raw_string_ostream os(s); os << " " << a.getName() << "=" << a.getValue(); }
    for (auto t : o.getResultTypes()) { llvm::raw_string_ostream os(s); os << " " << t; }
    s += "\n";
  }
  return s;
}
// expect: for each implementation, whether it accepts the operator.
void Check(const std::string& text, const std::vector<std::vector<Tensor>>& ins, int kernels, const std::function<bool(int)>& accepts) {
  auto m = ev::Parse(text);
  auto fn = [&]() { return *m->getOps<func::FuncOp>().begin(); };
  std::vector<std::vector<Tensor>> want(ins.size());
  std::string err, d;
  bool meaning = true;
  for (size_t i = 0; i < ins.size() && meaning; ++i) {
    const auto s = ev::Run(fn(), ins[i], want[i], err);
    if (s == ev::UNSUPPORTED) { fprintf(stderr, "harness: %s\n", err.c_str()); exit(77); }
    meaning = s == ev::OK;
  }
  const std::string attrs = Attributes(*m);
  if (!ev::RunPasses(*m, [](OpPassManager& pm) { pm.addPass(TFL::CreateLegalizeLCEPass()); }, d)) return EX->fail("legalization fails: %s\n%s", d.c_str(), text.substr(0, 1500).c_str());
  if (int64_t n = ev::CountOps(*m, "lq.Bconv2d") + ev::CountOps(*m, "lq.BMaxPool2d") + ev::CountOps(*m, "lq.Quantize") + ev::CountOps(*m, "lq.Dequantize")) return EX->fail("%d operators are not legalized\n%s", (int)n, text.substr(0, 1500).c_str());
  for (int k = 0; k < kernels; ++k) {
    const bool yes = meaning && accepts(k);
    for (size_t i = 0; i < ins.size(); ++i) {
      Exec x;
      x.kernel = k;
      ev::Custom = std::ref(x);
      std::vector<Tensor> got;
      const auto s = ev::Run(fn(), ins[i], got, err);
      EX->eval(1);
      if (!yes) {
        if (s == ev::OK) return EX->fail("the %s implementation accepts an operator it does not implement\n%s", rt::kKernels[k], text.substr(0, 1500).c_str());
        if (!x.rejected) return EX->fail("the %s implementation fails without rejecting the operator: %s\n%s", rt::kKernels[k], err.c_str(), text.substr(0, 1500).c_str());
        EX->sh->rejected++;
        break;
      }
      if (s != ev::OK) return EX->fail("the %s implementation does not run: %s\n%s", rt::kKernels[k], err.c_str(), text.substr(0, 1500).c_str());
      const std::string e = ev::Diff(want[i], got, 0);
      if (!e.empty()) return EX->fail("the %s implementation: %s\n%s", rt::kKernels[k], e.c_str(), text.substr(0, 1500).c_str());
      EX->sh->accepted++;
      for (auto& t : got) EX->outcome(t.v.data(), t.v.size() * sizeof(double));
    }
  }
  ev::Custom = nullptr;
  if (!ev::RunPasses(*m, [](OpPassManager& pm) { pm.addPass(TFL::CreateTranslateToLCEPass()); }, d)) return EX->fail("translation fails: %s\n%s", d.c_str(), text.substr(0, 1500).c_str());
  const std::string back = Attributes(*m);
  EX->eval(1);
  if (back != attrs) return EX->fail("translated back:\n%s\ninstead of\n%s", back.substr(0, 1500).c_str(), attrs.substr(0, 1500).c_str());
}
struct Conv { int64_t H = 7, W = 8, ci = 3, co = 3, fh = 2, fw = 3, sh = 1, sw = 1, dh = 1, dw = 1, act = 0, pv = 1, groups = 1, out = 0; bool same = false, dflt_pv = false; };
void Run(const Conv& c, int kernels = 4) {
  EX->config([&]() { return mc::fmt("conv %lldx%lld ci%lld co%lld g%lld f%lldx%lld s%lldx%lld d%lldx%lld %s pad_values=%lld%s %s -> %s", (long long)c.H, (long long)c.W, (long long)c.ci, (long long)c.co, (long long)c.groups, (long long)c.fh, (long long)c.fw, (long long)c.sh,
                                    (long long)c.sw, (long long)c.dh, (long long)c.dw, c.same ? "SAME" : "VALID", (long long)c.pv, c.dflt_pv ? " (default)" : "", kAct[c.act], kOut[c.out]); },
             [&]() {
               const int64_t eh = (c.fh - 1) * c.dh + 1, ew = (c.fw - 1) * c.dw + 1;
               if (!c.same && (c.H < eh || c.W < ew)) return;
               const int64_t oh = c.same ? (c.H + c.sh - 1) / c.sh : (c.H - eh) / c.sh + 1, ow = c.same ? (c.W + c.sw - 1) / c.sw : (c.W - ew) / c.sw + 1, cg = c.ci / c.groups;
               const Shape xs = {1, c.H, c.W, (c.ci + 31) / 32}, fs = {c.co, c.fh, c.fw, (cg + 31) / 32}, os = {1, oh, ow, c.out == 2 ? (c.co + 31) / 32 : c.co};
               const std::string o = ev::Ty(os, c.out == 0 ? "f32" : c.out == 1 ? "!quant.uniform<i8:f32, 0.5:3>" : "i32");
               std::vector<double> mul, add, thr;
               const int64_t K = c.fh * c.fw * cg;
               for (int64_t i = 0; i < c.co; ++i) {
                 mul.push_back(std::vector<double>{1, -0.5, 2, -1.5}[i % 4] * (c.out == 1 ? 1 : 0.5));
                 add.push_back(std::vector<double>{0, 1, -2.5, 4, 8}[i % 5]);
                 thr.push_back(double(K / 2 + i % 5 - 2));
               }
               const std::string none = "none", vec = mc::fmt("tensor<%lldxf32>", (long long)c.co);
               std::string t = "func.func @f(%x: " + ev::Ty(xs, "i32") + ") -> " + o + " {\n  %none = \"tfl.no_value\"() {value} : () -> none\n  %f = arith.constant " + ev::Dense(Words(c.co * c.fh * c.fw, cg, 2), fs, "i32") + "\n";
               if (c.out == 2) t += "  %t = arith.constant " + ev::Dense(thr, {c.co}, "i32") + "\n";
               else t += "  %m = arith.constant " + ev::Dense(mul, {c.co}, "f32") + "\n  %b = arith.constant " + ev::Dense(add, {c.co}, "f32") + "\n";
               t += mc::fmt("  %%r = \"lq.Bconv2d\"(%%x, %%f, %s) {channels_in = %lld : i32, dilation_height_factor = %lld : i32, dilation_width_factor = %lld : i32, fused_activation_function = \"%s\", %spadding = \"%s\", stride_height = %lld : i32, stride_width = %lld : i32} : (",
                            c.out == 2 ? "%none, %none, %t" : "%m, %b, %none", (long long)c.ci, (long long)c.dh, (long long)c.dw, kAct[c.act], c.dflt_pv ? "" : mc::fmt("pad_values = %lld : i32, ", (long long)c.pv).c_str(), c.same ? "SAME" : "VALID", (long long)c.sh, (long long)c.sw);
               t += ev::Ty(xs, "i32") + ", " + ev::Ty(fs, "i32") + ", " + (c.out == 2 ? "none, none, tensor<" + std::to_string(c.co) + "xi32>" : vec + ", " + vec + ", none") + ") -> " + o + "\n  return %r : " + o + "\n}\n";
               std::vector<std::vector<Tensor>> ins;
               for (int s = 0; s < 2; ++s) ins.push_back({T(xs, "i32", Words(c.H * c.W, c.ci, s))});
               Check(t, ins, kernels, [&](int k) {
                 if (c.act > 3) return false;
                 if (c.groups > 1 && k == 1) return false;
                 if (c.groups > 1 && k == 3) return false;  // the default implementation is the bgemm one
                 if (c.same && (c.dflt_pv || c.pv == 0)) return k == 0 ? c.ci % 2 == 0 : c.out == 0 && c.act == 0;
                 return true;
               });
             });
}
struct Pool { int64_t H = 6, W = 7, c = 33, fh = 2, fw = 2, sh = 1, sw = 1; bool same = false; };
void Run(const Pool& p) {
  EX->config([&]() { return mc::fmt("pool %lldx%lldx%lld f%lldx%lld s%lldx%lld %s", (long long)p.H, (long long)p.W, (long long)p.c, (long long)p.fh, (long long)p.fw, (long long)p.sh, (long long)p.sw, p.same ? "SAME" : "VALID"); },
             [&]() {
               if (!p.same && (p.H < p.fh || p.W < p.fw)) return;
               const int64_t w = (p.c + 31) / 32, oh = p.same ? (p.H + p.sh - 1) / p.sh : (p.H - p.fh) / p.sh + 1, ow = p.same ? (p.W + p.sw - 1) / p.sw : (p.W - p.fw) / p.sw + 1;
               const Shape xs = {1, p.H, p.W, w}, os = {1, oh, ow, w};
               const std::string x = ev::Ty(xs, "i32"), o = ev::Ty(os, "i32");
               std::vector<std::vector<Tensor>> ins;
               for (int s = 0; s < 2; ++s) {
                 auto v = Words(p.H * p.W, p.c, s);
                 // mostly -1, so that single +1 show
                 for (size_t i = 0; i < v.size(); ++i) v[i] = (double)(int32_t)((uint32_t)(int32_t)v[i] | Rnd(i + 5) | Rnd(i + 50) | Rnd(i + 500));
                 if (p.c % 32) for (size_t i = w - 1; i < v.size(); i += w) v[i] = (double)(int32_t)((uint32_t)(int32_t)v[i] & ((1u << (p.c % 32)) - 1));
                 ins.push_back({T(xs, "i32", v)});
               }
               Check("func.func @f(%x: " + x + ") -> " + o + " {\n" + mc::fmt("  %%r = \"lq.BMaxPool2d\"(%%x) {padding = \"%s\", stride_width = %lld : i32, stride_height = %lld : i32, filter_width = %lld : i32, filter_height = %lld : i32} : (", p.same ? "SAME" : "VALID", (long long)p.sw,
                                                                              (long long)p.sh, (long long)p.fw, (long long)p.fh) + x + ") -> " + o + "\n  return %r : " + o + "\n}\n",
                     ins, 1, [](int) { return true; });
             });
}
void Conversions() {
  for (const char* el : {"f32", "i1", "!quant.uniform<i8:f32, 0.5>", "!quant.uniform<i8:f32, 0.25:-7>", "!quant.uniform<i8:f32, 1.0:127>", "!quant.uniform<i8:f32, 1.0:-128>"})
    for (int64_t c : {1, 2, 31, 32, 33, 64, 65, 100})
      for (const Shape& lead : {Shape{}, Shape{3}, Shape{1, 2, 3}, Shape{2, 1, 1, 2}})
        for (int dir = 0; dir < 2; ++dir)
          EX->config([&]() { return mc::fmt("%s %s channels %lld rank %d", dir ? "dequantize" : "quantize", el, (long long)c, (int)lead.size() + 1); },
                     [&]() {
                       Shape a = lead, b = lead;
                       a.push_back(c), b.push_back((c + 31) / 32);
                       int64_t rows = 1;
                       for (auto d : lead) rows *= d;
                       const std::string ta = ev::Ty(a, el), tb = ev::Ty(b, "i32");
                       std::vector<Tensor> in;
                       if (dir) in.push_back(T(b, "i32", Words(rows, c, 3)));
                       else in.push_back(Fill(a, el, [&](int64_t i) { return *el == 'f' ? ((int)(Rnd(i) % 9) - 4) * 0.5 : *el == 'i' ? (double)(Rnd(i) % 2) : (double)(int8_t)Rnd(i); }));
                       const std::string from = dir ? tb : ta, to = dir ? ta : tb;
                       const std::string text = "func.func @f(%x: " + from + ") -> " + to + " {\n  %r = \"lq." + (dir ? "Dequantize" : "Quantize") + "\"(%x) : (" + from + ") -> " + to + "\n  return %r : " + to + "\n}\n";
                       Check(text, {in}, 1, [](int) { return true; });
                       auto m = ev::Parse(text);
                       std::string d;
                       ev::RunPasses(*m, [](OpPassManager& pm) { pm.addPass(TFL::CreateLegalizeLCEPass()); }, d);
                       m->walk([&](Operation* o) {
                         if (auto b = dyn_cast_or_null<TFL::ConstBytesAttr>(o->getAttr("custom_option")))
                           if (!b.getValue().empty()) EX->fail("an operator without attributes has options\n%s", text.c_str());
                       });
                     });
}
void Explore(bool th) {
  // every combination of small values
  struct C { int64_t ci, co, groups; };
  for (C g : {C{3, 3, 1}, C{64, 4, 2}, C{33, 5, 1}, C{34, 3, 1}})
    for (int64_t dh : {1, 2}) for (int64_t dw : {1, 3})
      for (int64_t sh : {1, 2, 3}) for (int64_t sw : {1, 2, 4})
        for (int64_t act = 0; act < 6; ++act)
          for (int pv = -1; pv < 2; ++pv)
            for (int same = 0; same < 2; ++same)
              for (int64_t out = 0; out < 3; ++out) {
                if (pv < 0 && (g.ci != 34 || act)) continue;
                if (!th && act > 3 && (g.ci != 34 || dh > 1 || dw > 1)) continue;
                Conv c;
                c.ci = g.ci, c.co = g.co, c.groups = g.groups, c.dh = dh, c.dw = dw, c.sh = sh, c.sw = sw, c.act = act, c.pv = std::max(pv, 0), c.dflt_pv = pv < 0, c.same = same, c.out = out;
                Run(c);
              }
  for (int64_t fh = 1; fh <= 4; ++fh) for (int64_t fw = 1; fw <= 4; ++fw)
    for (int64_t sh = 1; sh <= 4; ++sh) for (int64_t sw = 1; sw <= 4; ++sw)
      for (int same = 0; same < 2; ++same)
        for (int64_t c : {1, 33}) {
          Pool p;
          p.fh = fh, p.fw = fw, p.sh = sh, p.sw = sw, p.same = same, p.c = c;
          Run(p);
        }
  Conversions();
  // every value of each attribute up to a bound, and around the encoding widths
  std::vector<int64_t> vs;
  for (int64_t v = 1; v <= (th ? 2100 : 300); ++v) vs.push_back(v);
  for (int64_t v : {511, 512, 513, 1023, 1024, 4095, 4096, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 70000, 131072}) vs.push_back(v);
  for (int64_t v : vs)
    for (int same = 0; same < 2; ++same) {
      for (int k = 0; k < 5; ++k) {
        if (same && k == 4) continue;
        if (k < 4 && v > 32767) continue;  // TFLite's parameters of convolutions have 16 bits
        Conv c;
        c.H = c.W = 2, c.fh = c.fw = 1, c.co = 2, c.ci = 2;
        c.same = same;
        if (k == 0) c.sh = v, c.H = v + 2;
        if (k == 1) c.sw = v, c.W = v + 2;
        if (k == 2) c.dh = v, c.H = v + 2, c.fh = 2;
        if (k == 3) c.dw = v, c.W = v + 2, c.fw = 2;
        if (k == 4) c.ci = v;
        Run(c, v > 600 ? 3 : 4);
      }
      for (int k = 0; k < 4; ++k) {
        Pool p;
        p.H = p.W = 2, p.c = 2, p.fh = p.fw = 1;
        if (k == 0) p.sh = v, p.H = v + 2;
        if (k == 1) p.sw = v, p.W = v + 2;
        if (k == 2) p.fh = v, p.H = v + 1;
        if (k == 3) p.fw = v, p.W = v + 1;
        if (same && k > 1 && v > 5000) continue;
        p.same = same;
        Run(p);
      }
    }
  std::vector<int64_t> pvs;
  for (int64_t v = -300; v <= 300; ++v) pvs.push_back(v);
  for (int64_t v : {-65536, -65535, -32768, 32767, 32768, 65535, 65536, 65537, 131073, 16777216, 16777217, 2147483647}) pvs.push_back(v);
  for (int64_t v : pvs)
    for (int same = 0; same < 2; ++same) {
      Conv c;
      c.pv = v, c.same = same, c.ci = 4;
      Run(c);
    }
}
}  // namespace
int main(int argc, char** argv) {
  return Main(argc, argv, [](const mc::Options& o, mc::Explorer& ex) { Explore(ex.thorough); });
}
