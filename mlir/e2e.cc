// M12: a binarized layer, from the TensorFlow graph to the runtime operators.
//
// TensorFlow graphs go through the real conversion (tf_to_tfl_flatbuffer.cc and
// the pipeline of tf_tfl_passes.cc, with the real passes); TensorFlow's own
// passes in between are those of world.cc.  The
// resulting custom operators are executed by the real runtime operators, with
// each implementation of the convolution, and the results are compared with the
// interpretation of the original graph.
#include "exec.h"
#include "larq_compute_engine/mlir/tf_to_tfl_flatbuffer.h"
#include "standin/world.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"
using namespace mlx;

namespace {
const char* kTarget[] = {"arm", "xcore"};
// The conversion, from the module TensorFlow imports to the one it exports.
bool Convert(ModuleOp m, int target, bool quant, std::string& diag) {
  ScopedDiagnosticHandler h(ev::C, [&](Diagnostic& x) { diag += x.str() + "\n"; return success(); });
  world::W = world::World();
  quant::QuantizationSpecs specs;
  if (quant) specs.inference_type = tensorflow::DT_QINT8;
  std::string result;
  auto s = tensorflow::ConvertTFExecutorToTFLOrFlatbuffer(m, false, target ? LCETarget::XCORE : LCETarget::ARM, specs, {}, "", std::nullopt, &result);
  if (!s.ok()) diag += s.message();
  return s.ok();
}

enum Sign { SEL, SELV2, SELINV, SIGN, SIGNS };
const char* kSign[] = {"select", "selectV2", "inverted select", "sign"};
enum Pad { VALID, SAME, ONES };
const char* kPad[] = {"VALID", "SAME", "ONES"};
struct Layer {
  int sign = SELV2;
  int64_t co = 3, fh = 2, fw = 2, sh = 1, sw = 1, dh = 1, dw = 1, groups = 1;
  int pad = VALID, scale = 0;
  std::string tail;  // see Tail()
};
struct Net {
  int64_t N = 1, H = 3, W = 3, c = 3;
  std::vector<Layer> l;
  bool last = false;  // a sign function at the end
  int share = 0;      // also return: 1 the first binarized tensor, 2 the first convolution, 3 the first tail
  int quant = 0;      // quantize and dequantize 1: behind every tail, 2: behind the last, 3: also the input
  int target = 0, inputs = 4;
  int all = 0;        // 1: every sign pattern; 2: every pair of neighbouring pixels
};
uint32_t Rnd(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return (uint32_t)((x ^ (x >> 31)) >> 16);
}
std::string Key(const Net& n) {
  std::string s = mc::fmt("%s %lldx%lldx%lldx%lld", kTarget[n.target], (long long)n.N, (long long)n.H, (long long)n.W, (long long)n.c);
  for (auto& l : n.l)
    s += mc::fmt(" | %s conv %lldx%lldx%lld s%lld,%lld d%lld,%lld g%lld %s w%d tail=%s", kSign[l.sign], (long long)l.fh, (long long)l.fw, (long long)l.co, (long long)l.sh, (long long)l.sw, (long long)l.dh, (long long)l.dw,
                 (long long)l.groups, kPad[l.pad], l.scale, l.tail.c_str());
  return s + (n.last ? " | sign" : "") + mc::fmt(" share=%d quant=%d%s", n.share, n.quant, n.all == 1 ? " all inputs" : n.all ? " all pairs" : "");
}
struct Gen {
  std::string t;
  int id = 0;
  Shape s;  // of the current value
  std::string v = "%x";
  std::string Name() { return mc::fmt("%%v%d", id++); }
  std::string Const(const std::vector<double>& x, const Shape& sh, const char* el = "f32") {
    const std::string n = Name();
    t += "  " + n + " = arith.constant " + ev::Dense(x, sh, el) + "\n";
    return n;
  }
  std::string F() const { return ev::Ty(s, "f32"); }
  // Values of the per-channel constants: exact sums and products.
  static double Mul(int64_t i, char k) { return k == 'N' ? (i % 3 == 1 ? 0.5 : -1) : std::vector<double>{0.5, -1, 2, 0.25, -0.5}[i % 5]; }
  static double Add(int64_t i) { return std::vector<double>{-1, 0.5, 0, 2, -0.25, 1}[i % 6]; }
  void Binary(const char* op, const std::string& c, const Shape& cs, bool first = false) {
    const std::string n = Name(), ct = ev::Ty(cs, "f32");
    t += "  " + n + " = \"tf." + op + "\"(" + (first ? c + ", " + v : v + ", " + c) + ") : (" + (first ? ct + ", " + F() : F() + ", " + ct) + ") -> " + F() + "\n";
    v = n;
  }
  void Tail(char k, const std::string& skip, const Shape& skip_shape) {
    const int64_t C = s.back();
    std::vector<double> x;
    switch (k) {
      case 'M': case 'N': for (int64_t i = 0; i < C; ++i) x.push_back(Mul(i, k)); return Binary("Mul", Const(x, {C}), {C});
      case 'D': for (int64_t i = 0; i < C; ++i) x.push_back(std::vector<double>{2, -0.5, 4}[i % 3]); return Binary("RealDiv", Const(x, {C}), {C});
      case 'A': for (int64_t i = 0; i < C; ++i) x.push_back(Add(i)); return Binary("AddV2", Const(x, {C}), {C});
      case 'S': for (int64_t i = 0; i < C; ++i) x.push_back(Add(i + 3)); return Binary("Sub", Const(x, {C}), {C});
      case 'm': return Binary("Mul", Const({-0.5}, {}), {});
      case 'a': return Binary("AddV2", Const({-0.5}, {}), {});
      case 'f': for (int64_t i = 0; i < C; ++i) x.push_back(Add(i)); return Binary("Sub", Const(x, {C}), {C}, true);  // constant - x
      case 'Z': for (int64_t i = 0; i < C; ++i) x.push_back(i % 2 ? 0 : 1); return Binary("Mul", Const(x, {C}), {C});  // channels switched off
      case 'H': {  // not per channel
        for (int64_t i = 0; i < s[1] * s[2] * C; ++i) x.push_back(Add(i));
        const Shape sh = {1, s[1], s[2], C};
        return Binary("AddV2", Const(x, sh), sh);
      }
      case 'R': case '6': {
        const std::string n = Name();
        t += "  " + n + " = \"tf.Relu" + (k == '6' ? "6" : "") + "\"(" + v + ") : (" + F() + ") -> " + F() + "\n";
        v = n;
        return;
      }
      case 'P': case 'p': {
        const int64_t f = k == 'P' ? 2 : 3, st = k == 'P' ? 2 : 1;
        if (k == 'P' && (s[1] < 2 || s[2] < 2)) return;
        const Shape o = {s[0], k == 'P' ? (s[1] - f) / st + 1 : s[1], k == 'P' ? (s[2] - f) / st + 1 : s[2], C};
        const std::string n = Name();
        t += "  " + n + mc::fmt(" = \"tf.MaxPool\"(%s) {ksize = [1, %lld, %lld, 1], strides = [1, %lld, %lld, 1], padding = \"%s\", data_format = \"NHWC\"} : (", v.c_str(), (long long)f, (long long)f, (long long)st, (long long)st, k == 'P' ? "VALID" : "SAME") + F() + ") -> " + ev::Ty(o, "f32") + "\n";
        v = n, s = o;
        return;
      }
      case 'I':
        if (skip_shape == s) Binary("AddV2", skip, s);
        return;
      case 'Q': {
        const std::string q = Name(), d = Name(), ty = ev::Ty(s, "!quant.uniform<i8:f32, 0.5:-3>");
        t += "  " + q + " = \"tfl.quantize\"(" + v + ") {qtype = " + ty + "} : (" + F() + ") -> " + ty + "\n  " + d + " = \"tfl.dequantize\"(" + q + ") : (" + ty + ") -> " + F() + "\n";
        v = d;
        return;
      }
    }
    fprintf(stderr, "harness: tail %c\n", k);
    exit(77);
  }
  void Binarize(int k) {
    const std::string b = ev::Ty(s, "i1"), c = Name(), o = Name();
    if (k == SIGN) {
      const std::string e = Const({0.1}, {}), a = Name();
      t += "  " + c + " = \"tf.Sign\"(" + v + ") : (" + F() + ") -> " + F() + "\n  " + a + " = \"tf.AddV2\"(" + c + ", " + e + ") : (" + F() + ", tensor<f32>) -> " + F() + "\n  " + o + " = \"tf.Sign\"(" + a + ") : (" + F() + ") -> " + F() + "\n";
    } else {
      int64_t n = 1;
      for (auto d : s) n *= d;
      const Shape cs = k == SEL ? s : Shape{};
      const std::string z = Const({0}, {}), p = Const(std::vector<double>(k == SEL ? n : 1, 1.0), cs), m = Const(std::vector<double>(k == SEL ? n : 1, -1.0), cs);
      t += "  " + c + " = \"tf." + (k == SELINV ? "Less" : "GreaterEqual") + "\"(" + v + ", " + z + ") : (" + F() + ", tensor<f32>) -> " + b + "\n";
      t += "  " + o + " = \"tf.Select" + (k == SEL ? "" : "V2") + "\"(" + c + ", " + (k == SELINV ? m : p) + ", " + (k == SELINV ? p : m) + ") : (" + b + ", " + ev::Ty(cs, "f32") + ", " + ev::Ty(cs, "f32") + ") -> " + F() + "\n";
    }
    v = o;
  }
  bool Conv(const Layer& l, int which) {
    const int64_t C = s.back();
    if (C % l.groups || l.co % l.groups) return false;
    const int64_t I = C / l.groups, eh = (l.fh - 1) * l.dh + 1, ew = (l.fw - 1) * l.dw + 1;
    if (l.pad == VALID && (s[1] < eh || s[2] < ew)) return false;
    const bool valid = l.pad == VALID;
    const Shape fs = {l.fh, l.fw, I, l.co}, o = {s[0], valid ? (s[1] - eh) / l.sh + 1 : (s[1] + l.sh - 1) / l.sh, valid ? (s[2] - ew) / l.sw + 1 : (s[2] + l.sw - 1) / l.sw, l.co};
    std::vector<double> f;
    for (int64_t i = 0; i < l.fh * l.fw * I; ++i)
      for (int64_t c = 0; c < l.co; ++c) f.push_back((Rnd(i * 131 + c * 7 + which * 1000 + l.co) % 2 ? 1 : -1) * (l.scale == 0 ? 1 : l.scale == 1 ? 0.5 : std::vector<double>{0.25, 1, 2, 0.5}[c % 4]));
    const std::string fc = Const(f, fs);
    if (l.pad == ONES) {
      // what SAME padding would be, filled with ones
      auto p = [](int64_t in, int64_t out, int64_t st, int64_t e) { return std::max<int64_t>(0, (out - 1) * st + e - in); };
      const int64_t ph = p(s[1], o[1], l.sh, eh), pw = p(s[2], o[2], l.sw, ew);
      const Shape ps = {s[0], s[1] + ph, s[2] + pw, C};
      const std::string a = Const({0, 0, (double)(ph / 2), (double)(ph - ph / 2), (double)(pw / 2), (double)(pw - pw / 2), 0, 0}, {4, 2}, "i32"), one = Const({1}, {}), n = Name();
      t += "  " + n + " = \"tf.PadV2\"(" + v + ", " + a + ", " + one + ") : (" + F() + ", tensor<4x2xi32>, tensor<f32>) -> " + ev::Ty(ps, "f32") + "\n";
      v = n, s = ps;
    }
    const std::string n = Name();
    t += "  " + n + mc::fmt(" = \"tf.Conv2D\"(%s, %s) {data_format = \"NHWC\", dilations = [1, %lld, %lld, 1], explicit_paddings = [], padding = \"%s\", strides = [1, %lld, %lld, 1], use_cudnn_on_gpu = true} : (", v.c_str(), fc.c_str(), (long long)l.dh,
                            (long long)l.dw, l.pad == SAME ? "SAME" : "VALID", (long long)l.sh, (long long)l.sw) + F() + ", " + ev::Ty(fs, "f32") + ") -> " + ev::Ty(o, "f32") + "\n";
    v = n, s = o;
    return true;
  }
};
struct Stats : public PassWrapper<Stats, OperationPass<func::FuncOp>> {};

void Run(const Net& n) {
  EX->config([&]() { return Key(n); }, [&]() {
    Gen g;
    g.s = {n.N, n.H, n.W, n.c};
    const std::string xt = g.F();
    std::string shared, sharedTy;
    if (n.quant == 3) g.Tail('Q', "", {});
    int binary = 0, convs = 0, left = 0;
    bool grouped = false, zero = false, odd = false;
    for (size_t i = 0; i < n.l.size(); ++i) {
      const Layer& l = n.l[i];
      const std::string skip = g.v;
      const Shape skip_shape = g.s;
      g.Binarize(l.sign);
      if (i == 0 && n.share == 1) shared = g.v, sharedTy = g.F();
      const int64_t C = g.s.back();
      if (!g.Conv(l, (int)i)) return;
      ++convs;
      // (fewer than 32 channels per group: no operator does that)
      const bool ok = (l.groups == 1 || C / l.groups % 32 == 0) && !(l.pad == SAME && n.target == 1);
      if (ok) ++binary;
      else ++left;
      if (ok && l.groups > 1) grouped = true;
      if (ok && l.pad == SAME) { zero = true; if (C % 2) odd = true; }
      if (i == 0 && n.share == 2) shared = g.v, sharedTy = g.F();
      for (char k : l.tail) g.Tail(k, skip, skip_shape);
      if (i == 0 && n.share == 3) shared = g.v, sharedTy = g.F();
      if (n.quant == 1 || n.quant == 3 || (n.quant == 2 && i + 1 == n.l.size())) {
        // (no ties)
        g.Binary("AddV2", g.Const({0.0625}, {}), {});
        g.Tail('Q', "", {});
      }
    }
    if (n.last) g.Binarize(SELV2);
    const std::string ret = g.F() + (shared.empty() ? "" : ", " + sharedTy);
    const std::string text = "func.func @f(%x: " + xt + ") -> (" + ret + ") {\n" + g.t + "  return " + g.v + (shared.empty() ? "" : ", " + shared) + " : " + ret + "\n}\n";
    std::vector<std::vector<Tensor>> ins;
    const Shape xs = {n.N, n.H, n.W, n.c};
    if (n.all == 2) {
      // image k: pixels of two kinds in turn
      ins.push_back({Fill(xs, "f32", [&](int64_t i) {
        const int64_t per = n.H * n.W * n.c, k = i / per, px = i % per / n.c, kind = (px / n.W + px % n.W) % 2 ? k >> n.c : k;
        return (kind >> (i % n.c)) & 1 ? -1.5 : 0.5;
      })});
    } else if (n.all) {
      // image k of the batch has sign pattern k
      const int64_t per = n.H * n.W * n.c;
      for (int64_t base = 0; base < (int64_t)1 << per; base += n.N)
        ins.push_back({Fill(xs, "f32", [&](int64_t i) { return (((base + i / per) >> (i % per)) & 1 ? -1 : 1) * 0.5 * (double)(i % 3 + 1); })});
    } else {
      const double vs[] = {-2, -1, -0.5, -0.0, 0, 0.5, 1, 2, 1e-30, -1e-30};
      for (int k = 0; k < n.inputs; ++k)
        ins.push_back({Fill(xs, "f32", [&](int64_t i) { return k == 0 ? 1.5 : k == 1 ? -1.5 : vs[Rnd(i * 17 + k) % 10]; })});
    }
    auto m = ev::Parse(text);
    auto fn = [&]() { return *m->getOps<func::FuncOp>().begin(); };
    std::vector<std::vector<Tensor>> want(ins.size());
    std::string err, d;
    for (size_t i = 0; i < ins.size(); ++i) {
      const auto s = ev::Run(fn(), ins[i], want[i], err);
      if (s != ev::OK) { fprintf(stderr, "harness: %s\n%s", err.c_str(), text.c_str()); exit(77); }
    }
    if (!Convert(*m, n.target, n.quant, d)) return EX->fail("conversion fails: %s\n%s", d.c_str(), text.substr(0, 3000).c_str());
    int got_binary = 0;
    m->walk([&](Operation* o) { if (auto c = o->getAttrOfType<StringAttr>("custom_code")) got_binary += c.getValue() == "LceBconv2d"; });
    const int got_left = (int)(ev::CountOps(*m, "tf.Conv2D") + ev::CountOps(*m, "tfl.conv_2d"));
    auto show = [&]() { return text.substr(0, 2500) + "\nbecomes\n" + ev::Print(*m).substr(0, 3000); };
    if (got_binary != binary || got_left != left) return EX->fail("%d binary convolutions (%d expected), %d other ones (%d)\n%s", got_binary, binary, got_left, left, show().c_str());
    if (ev::CountOps(*m, "lq.Quantize") + ev::CountOps(*m, "lq.Dequantize") + ev::CountOps(*m, "lq.Bconv2d") + ev::CountOps(*m, "lq.BMaxPool2d")) return EX->fail("operators are not legalized\n%s", show().c_str());
    for (int k = 0; k < 4; ++k) {
      // (zero padding and int8: recorded with M07)
      const bool must = !(grouped && (k == 1 || k == 3)) && !(k == 0 && odd) && !(zero && n.quant);
      const bool may = !(grouped && (k == 1 || k == 3));
      for (size_t i = 0; i < ins.size(); ++i) {
        Exec x;
        x.kernel = k;
        ev::Custom = std::ref(x);
        std::vector<Tensor> got;
        const auto s = ev::Run(fn(), ins[i], got, err);
        ev::Custom = nullptr;
        EX->eval(1);
        if (s == ev::UNSUPPORTED) { fprintf(stderr, "harness: %s\n", err.c_str()); exit(77); }
        if (s != ev::OK) {
          if (x.rejected && !must) { EX->sh->rejected++; break; }
          return EX->fail("the %s implementation does not run it: %s\n%s", rt::kKernels[k], err.substr(0, 600).c_str(), show().c_str());
        }
        if (!may) return EX->fail("the %s implementation accepts a grouped convolution\n%s", rt::kKernels[k], show().c_str());
        const std::string e = ev::Diff(want[i], got, 0);
        if (!e.empty()) return EX->fail("the %s implementation: %s\ninput %s\n%s", rt::kKernels[k], e.c_str(), ev::Show(ins[i][0]).c_str(), show().c_str());
        EX->sh->accepted++;
        for (auto& r : got) EX->outcome(r.v.data(), r.v.size() * sizeof(double));
      }
    }
  });
}
void Explore(bool th) {
  for (int target = 0; target < 2; ++target) {
    // geometry
    for (int64_t H = 1; H <= 4; ++H) for (int64_t W : {1, 3, 4})
      for (int64_t fh = 1; fh <= 3; ++fh) for (int64_t fw : {1, 2, 3})
        for (int64_t sh = 1; sh <= 2; ++sh) for (int64_t sw : {1, 2})
          for (int64_t dh = 1; dh <= 2; ++dh)
            for (int pad = 0; pad < 3; ++pad)
              for (int64_t c : {1, 2, 33})
                for (int scale : {0, 2})
                  for (const char* tail : {"", "MA"}) {
                    if (!th && c == 2 && (scale || *tail)) continue;
                    Net n;
                    n.target = target, n.H = H, n.W = W, n.c = c;
                    Layer l;
                    l.fh = fh, l.fw = fw, l.sh = sh, l.sw = sw, l.dh = dh, l.dw = fw == 2 ? 2 : 1, l.pad = pad, l.scale = scale, l.tail = tail;
                    n.l = {l};
                    Run(n);
                  }
    // channels and groups
    for (int64_t c : {1, 2, 3, 4, 31, 32, 33, 63, 64, 65, 96, 128, 192})
      for (int64_t co : {1, 2, 3, 4, 6, 8, 31, 32, 33, 64, 65})
        for (int64_t g : {1, 2, 3, 4, 6})
          for (int pad = 0; pad < 3; ++pad)
            for (int sign = 0; sign < SIGNS; ++sign)
              for (int last = 0; last < 2; ++last) {
                if (c % g || co % g) continue;
                Net n;
                n.target = target, n.H = 2, n.W = 3, n.c = c, n.last = last;
                Layer l;
                l.co = co, l.groups = g, l.pad = pad, l.sign = sign, l.scale = 1, l.tail = last ? "A" : "";
                n.l = {l};
                Run(n);
              }
    // tails: every sequence, every input
    const std::string ops = "MNDASmaZHR6PpfI";
    std::vector<std::string> tails = {""}, cur = {""};
    for (int d = 0; d < (th ? 4 : 3); ++d) {
      std::vector<std::string> next;
      for (auto& c : cur) for (char o : ops) {
        if (d == 2 && !th && !strchr("MAR6P", o)) continue;
        if (d == 3 && !strchr("MAR6", o)) continue;
        next.push_back(c + o);
      }
      tails.insert(tails.end(), next.begin(), next.end());
      cur = next;
    }
    for (auto& tail : tails)
      for (int pad = 0; pad < 3; ++pad)
        for (int end = 0; end < 3; ++end)
          for (int scale = 0; scale < 3; scale += 2)
            for (int share = 0; share < 4; ++share) {
              if (share && tail.size() > 1) continue;
              if (!th && scale && tail.size() > 2) continue;
              Net n;
              n.target = target, n.share = share, n.last = end == 1;
              Layer l;
              l.pad = pad, l.scale = scale, l.tail = tail, l.fh = 1, l.fw = 2, l.co = 5;
              n.N = 64, n.H = 2, n.W = 3, n.c = 1, n.all = 1;
              if (tail.size() < (th ? 4 : 3)) n.N = 256, n.c = 4, n.all = 2;
              if (tail.find('I') != std::string::npos) l.co = n.c;
              n.l = {l};
              if (end == 2) {
                Layer m;
                m.fh = 1, m.fw = 1, m.co = 2, m.pad = VALID, m.sign = SIGN;
                n.l.push_back(m);
              }
              Run(n);
            }
    // two and three layers
    for (int s1 = 0; s1 < SIGNS; ++s1) for (int s2 = 0; s2 < SIGNS; ++s2)
      for (int p1 = 0; p1 < 3; ++p1) for (int p2 = 0; p2 < 3; ++p2)
        for (const char* t1 : {"", "MA", "RMA", "PA", "A6", "AP"})
          for (const char* t2 : {"", "MA", "I"})
            for (int64_t c : {2, 33})
              for (int share = 0; share < 4; ++share)
                for (int last = 0; last < 2; ++last) {
                  if (!th && ((s1 && s2) || (share && s1) || (last && s2))) continue;
                  Net n;
                  n.target = target, n.c = c, n.share = share, n.last = last, n.H = 4, n.W = 3, n.inputs = 3;
                  Layer a, b;
                  a.sign = s1, a.pad = p1, a.tail = t1, a.co = c, a.scale = 2;
                  b.sign = s2, b.pad = p2, b.tail = t2, b.co = c, b.fh = 1;
                  n.l = {a, b};
                  Run(n);
                }
    // quantized
    for (int q = 1; q < 4; ++q)
      for (auto& tail : tails) {
        if (tail.size() > 2) continue;
        for (int pad = 0; pad < 3; ++pad)
          for (int end = 0; end < 3; ++end)
            for (int share = 0; share < 4; ++share) {
              Net n;
              n.target = target, n.share = share, n.last = end == 1, n.quant = q;
              Layer l;
              l.pad = pad, l.tail = tail, l.fh = 1, l.fw = 2, l.co = tail.find('I') != std::string::npos ? 1 : 5;
              n.N = 16, n.H = 2, n.W = 2, n.c = 1, n.all = 1;
              n.l = {l};
              if (end == 2) {
                Layer m;
                m.fh = 1, m.fw = 1, m.co = 2, m.pad = VALID, m.sign = SELV2;
                n.l.push_back(m);
              }
              Run(n);
            }
      }
  }
}
}  // namespace
int main(int argc, char** argv) {
  return Main(argc, argv, [](const mc::Options& o, mc::Explorer& ex) {
    world::Setup(*ev::C);
    Explore(ex.thorough);
  });
}
