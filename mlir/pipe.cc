// M11, M13, M14: the native conversion entry points, as Python calls them.
//
// The entry points, the pass pipeline and all of Compute Engine's passes are the
// real code; TensorFlow around them is the scripted world of world.cc, which
// records what it is asked for and can fail at any step.
//   M11  every model of the bound x target x quantization x representation of
//        the weights is converted completely and computes what it did;
//   M13  every combination of settings reaches the services unchanged;
//   M14  every single failing step of a conversion makes it raise.
#include "exec.h"
#include "standin/world.h"
using namespace mlx;
using world::W;
void standin_init_module();

namespace {
using Bytes = pybind11::bytes;
using Object = pybind11::object;
using GraphFn = Bytes (*)(const Bytes&, const std::vector<std::string>&, const std::vector<std::string>&, const std::vector<std::vector<int>>&, const std::vector<std::string>&, const bool, const std::string&, const Object&);
using SavedFn = Bytes (*)(const std::string&, const std::vector<std::string>&, const std::vector<std::string>&, const int, const std::string&, const Object&);

struct Call {
  bool saved = false;
  // graph
  std::string graph = "G";
  std::vector<std::string> in = {"x"}, types = {"DT_FLOAT"}, out = {"y"};
  std::vector<std::vector<int>> shapes = {{1, 2}};
  bool quantize = true;
  // saved model
  std::string dir = "/m";
  std::vector<std::string> tags = {"serve"}, exported = {"serving_default"};
  int version = 1;
  bool bundle = true;
  // both
  std::string target = "arm";
  bool ranges = false;
  double lo = -16, hi = 15.875;
};
struct Outcome {
  bool raised = false;
  std::string what, bytes;
};
// One conversion; the script is in W.
Outcome Convert(const Call& c) {
  Outcome o;
  W.bundle = c.bundle;
  W.step = 0;
  W.log.clear();
  W.errors.clear();
  W.r = world::Request();
  const Object r = c.ranges ? Object(std::make_pair(c.lo, c.hi)) : Object();
  try {
    if (c.saved) o.bytes = ((SavedFn)pybind11::module_::fn.at("convert_saved_model_to_tflite_flatbuffer"))(c.dir, c.tags, c.exported, c.version, c.target, r).str();
    else o.bytes = ((GraphFn)pybind11::module_::fn.at("convert_graphdef_to_tflite_flatbuffer"))(Bytes(c.graph), c.in, c.types, c.shapes, c.out, c.quantize, c.target, r).str();
  } catch (std::exception& e) {
    o.raised = true, o.what = e.what();
  }
  EX->sh->steps.fetch_add(W.log.size(), std::memory_order_relaxed);
  return o;
}
bool Quantized(const Call& c) { return c.saved || c.quantize; }

// ----------------------------------------------------------------------- M11
enum Weights { CONST, LATENT, WRAPPED, GLOBAL, GLOBALLATENT, VARIABLE, VARLATENT, WEIGHTS };
const char* kWeights[] = {"constants", "the sign of constants", "the sign of a wrapped constant", "a global tensor", "the sign of a global tensor", "a variable", "the sign of a variable"};
struct Model {
  int batch = -1;  // -1: dynamic
  std::string layers;  // see Layer()
  int weights = CONST, noop = 0, sign = 0;
  int pad = 0;  // of binarized convolutions: VALID, SAME
  int call = 0;  // the layers are in a function that is called (1), or that is a branch whose condition is known when (2) pass-through operators or (3) variables are gone
  std::vector<std::string> feature;  // passes needed by an operator of layer 'X'
};
const char* kNoop[] = {"none", "Identity", "StopGradient", "PlaceholderWithDefault", "CheckNumerics", "Snapshot"};
const char* kCall[] = {"", " in a function", " in a branch (learning phase)", " in a branch (variable)"};
struct Text {
  bool ref;  // the reference: constants instead of variables, static shapes
  Model m;
  std::string t, globals, session;
  int id = 0;
  Shape s = {-1, 4, 3, 2};
  std::string v = "%x";
  int binary = 0, floats = 0, fake_consts = 0;
  explicit Text(const Model& x, bool r) : ref(r), m(x) { s[0] = x.batch < 0 && r ? 1 : x.batch; }
  std::string N() { return mc::fmt("%%v%d", id++); }
  std::string F() const { return ev::Ty(s, "f32"); }
  std::string Const(const std::vector<double>& x, const Shape& sh, const char* el = "f32") {
    const std::string n = N();
    t += "  " + n + " = arith.constant " + ev::Dense(x, sh, el) + "\n";
    return n;
  }
  std::string Unary(const std::string& op, const std::string& x, const std::string& ty, const std::string& attrs = "") {
    const std::string n = N();
    t += "  " + n + " = \"tf." + op + "\"(" + x + ") " + attrs + " : (" + ty + ") -> " + ty + "\n";
    return n;
  }
  void Binary(const char* op, const std::string& c, const Shape& cs) {
    const std::string n = N();
    t += "  " + n + " = \"tf." + op + "\"(" + v + ", " + c + ") : (" + F() + ", " + ev::Ty(cs, "f32") + ") -> " + F() + "\n";
    v = n;
  }
  std::string Noop(const std::string& x, const std::string& ty) {
    if (!m.noop) return x;
    return Unary(kNoop[m.noop], x, ty, m.noop == 4 ? "{message = \"m\"}" : "");
  }
  std::string Sign(const std::string& x, const std::string& ty, int kind, bool scalar_consts) {
    if (kind == 0) {
      const std::string a = Unary("Sign", x, ty), e = Const({0.1}, {}), b = N();
      t += "  " + b + " = \"tf.AddV2\"(" + a + ", " + e + ") : (" + ty + ", tensor<f32>) -> " + ty + "\n";
      return Unary("Sign", b, ty);
    }
    const std::string z = Const({0}, {}), p = Const({1}, {}), q = Const({-1}, {}), c = N(), n = N();
    const std::string bt = ty.substr(0, ty.size() - 4) + "i1>";
    t += "  " + c + " = \"tf.GreaterEqual\"(" + x + ", " + z + ") : (" + ty + ", tensor<f32>) -> " + bt + "\n";
    t += "  " + n + " = \"tf.SelectV2\"(" + c + ", " + p + ", " + q + ") : (" + bt + ", tensor<f32>, tensor<f32>) -> " + ty + "\n";
    return n;
  }
  // A tensor of the model's parameters.
  std::string Param(const std::vector<double>& latent, const Shape& fs, bool binarized) {
    const std::string ty = ev::Ty(fs, "f32");
    const bool lat = m.weights == LATENT || m.weights == WRAPPED || m.weights == GLOBALLATENT || m.weights == VARLATENT;
    std::vector<double> x = latent;
    if (!lat && binarized) for (auto& d : x) d = d >= 0 ? 1 : -1;
    std::string n;
    const bool global = m.weights == GLOBAL || m.weights == GLOBALLATENT, var = m.weights == VARIABLE || m.weights == VARLATENT;
    if (ref || (!global && !var)) n = Const(x, fs);
    else {
      const std::string name = mc::fmt("w%d", id);
      n = N();
      if (global) {
        globals += "\"tf_saved_model.global_tensor\"() {name = \"" + name + "\", is_mutable, value = " + ev::Dense(x, fs, "f32") + "} : () -> ()\n";
        t += "  " + n + " = \"tf.ReadGlobal\"() {name = \"" + name + "\"} : () -> " + ty + "\n";
      } else {
        session += (session.empty() ? "" : ", ") + name + " = " + ev::Dense(x, fs, "f32");
        t += "  " + n + " = \"tf.ReadVariable\"() {name = \"" + name + "\"} : () -> " + ty + "\n";
      }
    }
    if (m.weights == WRAPPED) n = Unary("StopGradient", Unary("Identity", n, ty), ty);
    else if (m.weights != CONST) n = Noop(n, ty);
    return lat && binarized ? Sign(n, ty, m.sign, true) : n;
  }
  void Conv(const std::string& w, const Shape& fs, bool same, bool nchw) {
    const int64_t H = s[nchw ? 2 : 1], X = s[nchw ? 3 : 2];
    const int64_t oh = same ? H : H - fs[0] + 1, ow = same ? X : X - fs[1] + 1;
    auto conv = [&](const std::string& x, const std::string& xt, const Shape& o, const char* format) {
      const std::string n = N();
      t += "  " + n + " = \"tf.Conv2D\"(" + x + ", " + w + ") {data_format = \"" + format + "\", dilations = [1, 1, 1, 1], explicit_paddings = [], padding = \"" + (same ? "SAME" : "VALID") + "\", strides = [1, 1, 1, 1], use_cudnn_on_gpu = true} : (" + xt + ", " +
           ev::Ty(fs, "f32") + ") -> " + ev::Ty(o, "f32") + "\n";
      return n;
    };
    if (!nchw) {
      const Shape o = {s[0], oh, ow, fs[3]};
      v = conv(v, F(), o, "NHWC"), s = o;
      return;
    }
    const Shape o = {s[0], fs[3], oh, ow};
    if (!ref) { v = conv(v, F(), o, "NCHW"), s = o; return; }
    auto tr = [&](const std::vector<double>& p, const Shape& to) {
      const std::string k = Const(p, {4}, "i32"), n = N();
      t += "  " + n + " = \"tf.Transpose\"(" + v + ", " + k + ") : (" + F() + ", tensor<4xi32>) -> " + ev::Ty(to, "f32") + "\n";
      v = n, s = to;
    };
    tr({0, 2, 3, 1}, {s[0], s[2], s[3], s[1]});
    const Shape h = {s[0], oh, ow, fs[3]};
    v = conv(v, F(), h, "NHWC"), s = h;
    tr({0, 3, 1, 2}, o);
  }
  void Layer(char k, int which) {
    const int64_t C = s[3];
    std::vector<double> f;
    switch (k) {
      case 'B': case 'b': {  // binarized convolution (1x2 or 2x1), 3 channels
        v = Sign(v, F(), m.sign, true);
        v = Noop(v, F());
        const Shape fs = {k == 'b' ? 1 : 2, k == 'b' ? 2 : 1, C, 3};
        for (int64_t i = 0; i < fs[0] * fs[1] * C * 3; ++i) f.push_back(((i * 7 + which * 5 + i * i) % 4 < 2 ? 1 : -1) * 0.25 * (i % 3 + 1));
        Conv(Param(f, fs, true), fs, m.pad, false);
        ++binary;
        return;
      }
      case 'F': case 'C': {  // convolution: NHWC, NCHW
        const int64_t I = k == 'C' ? s[1] : C;
        const Shape fs = {1, 1, I, 4};
        for (int64_t i = 0; i < I * 4; ++i) f.push_back(std::vector<double>{m.layers.size() > 1 && k == 'F' ? 0.5 : 1, -1, 0, 1, -1}[i % 5]);
        Conv(Param(f, fs, false), fs, false, k == 'C');
        ++floats;
        return;
      }
      case 'q': {  // convolution with fake-quantized constant weights (on the grid of the default ranges)
        const Shape fs = {1, 1, C, 4};
        for (int64_t i = 0; i < C * 4; ++i) f.push_back(std::vector<double>{1, -1, 0, 1, -1}[i % 5]);
        Conv(Unary("FakeQuantWithMinMaxArgs", Const(f, fs), ev::Ty(fs, "f32"), "{min = -16.0 : f32, max = 15.875 : f32, num_bits = 8 : i64, narrow_range = false}"), fs, false, false);
        ++floats, ++fake_consts;
        return;
      }
      case 'M': {
        for (int64_t i = 0; i < C; ++i) f.push_back(std::vector<double>{0.5, -1, -0.5, 1}[i % 4]);
        return Binary("Mul", Const(f, {C}), {C});
      }
      case 'A': {
        for (int64_t i = 0; i < C; ++i) f.push_back(std::vector<double>{-0.5, 0.25, 1, -1}[i % 4]);
        return Binary("AddV2", Const(f, {C}), {C});
      }
      case 'R': v = Unary("Relu", v, F()); return;
      case 'I': v = Unary("Identity", v, F()); return;
      case 'X': {
        if (ref) return;
        std::string todo;
        for (auto& p : m.feature) todo += (todo.empty() ? "\"" : ", \"") + p + "\"";
        const std::string n = N();
        t += "  " + n + " = \"standin.feature\"(" + v + ") {todo = [" + todo + "]} : (" + F() + ") -> " + F() + "\n";
        v = n;
        return;
      }
      case 'U': {
        const std::string n = N();
        t += "  " + n + " = \"tfl.standin_unsupported\"(" + v + ") : (" + F() + ") -> " + F() + "\n";
        v = n;
        return;
      }
      case 'S': {
        if (ref) return;
        const std::string a = Const({0, 0}, {2}), b = Const({0, 0}, {2}), n = N();
        t += "  " + n + " = \"tfl.standin_stateful\"(" + v + ", " + a + ", " + b + ") : (" + F() + ", tensor<2xf32>, tensor<2xf32>) -> " + F() + "\n";
        v = n;
        return;
      }
      case 'Q': v = Unary("FakeQuantWithMinMaxArgs", v, F(), "{min = -16.0 : f32, max = 15.875 : f32, num_bits = 8 : i64, narrow_range = false}"); return;
    }
    fprintf(stderr, "harness: layer %c\n", k);
    exit(77);
  }
  bool Legal() const { return s[1] > 0 && s[2] > 0; }
  std::string Module() {
    const std::string xt = F();
    for (size_t i = 0; i < m.layers.size(); ++i) Layer(m.layers[i], (int)i);
    if (!Legal()) return "";
    const std::string attrs = " attributes {tf.entry_function = {inputs = \"x\", outputs = \"y\"}} {\n", args = "(%x: " + xt + ") -> " + F(), body = t + "  return " + v + " : " + F() + "\n}\n";
    const std::string head = "module attributes {standin.session = {" + session + "}} {\n" + globals;
    if (!m.call || ref) return head + "func.func @main" + args + attrs + body + "}\n";
    const std::string layers = "func.func private @layers" + args + " {\n" + body, y = "  return %y : " + F() + "\n}\n}\n";
    if (m.call == 1) return head + layers + "func.func @main" + args + attrs + "  %y = call @layers(%x) : (" + xt + ") -> " + F() + "\n" + y;
    const std::string cond = m.call == 2 ? "  %d = arith.constant dense<true> : tensor<i1>\n  %c = \"tf.PlaceholderWithDefault\"(%d) : (tensor<i1>) -> tensor<i1>\n" : "  %c = \"tf.ReadGlobal\"() {name = \"cond\"} : () -> tensor<i1>\n";
    return head + (m.call == 3 ? "\"tf_saved_model.global_tensor\"() {name = \"cond\", is_mutable, value = dense<true> : tensor<i1>} : () -> ()\n" : "") + layers + "func.func private @other" + args + " {\n  \"standin.other\"() : () -> ()\n" + body + "func.func @main" + args + attrs + cond +
           "  %y = \"standin.if\"(%c, %x) {then_branch = @layers, else_branch = @other} : (tensor<i1>, " + xt + ") -> " + F() + "\n" + y;
  }
};
void Whole(const Model& m, const Call& c) {
  EX->config([&]() {
    std::string passes;
    for (auto& p : m.feature) passes += (passes.empty() ? " X needs " : ", ") + p;
    return mc::fmt("%s %s batch=%d layers=%s%s%s weights are %s, noop=%s sign=%d pad=%s %s%s", c.saved ? c.bundle ? "saved model" : "saved model without session" : "graph", c.target.c_str(), m.batch, m.layers.c_str(), kCall[m.call], passes.c_str(), kWeights[m.weights], kNoop[m.noop], m.sign,
                   m.pad ? "SAME" : "VALID", !Quantized(c) ? "float" : c.ranges ? "quantized with ranges" : "quantized", c.dir.empty() ? " no directory" : "");
  }, [&]() {
    Text real(m, false), ref(m, true);
    const std::string text = real.Module(), want_text = ref.Module();
    if (text.empty()) return;
    W = world::World();
    W.text = text;
    const Outcome o = Convert(c);
    auto show = [&]() { return text.substr(0, 1300) + "\nbecomes\n" + W.r.module.substr(0, 1500); };
    if (o.raised) return EX->fail("the conversion fails: %s (%s)\n%s", o.what.c_str(), W.errors.c_str(), text.substr(0, 2000).c_str());
    EX->eval(1);
    auto got_m = ev::Parse(W.r.module);
    auto fn = *got_m->getOps<func::FuncOp>().begin();
    if (++got_m->getOps<func::FuncOp>().begin() != got_m->getOps<func::FuncOp>().end()) return EX->fail("the exported model has other functions\n%s", show().c_str());
    // no trace of the conversion's own operators
    std::string bad;
    int bconvs = 0, convs = 0, qconst = 0;
    got_m->walk([&](Operation* x) {
      StringRef n = x->getName().getStringRef();
      if (n.starts_with("tf.") || n.starts_with("lq.") || n.starts_with("standin.") || n.starts_with("tf_saved_model.")) bad = n.str();
      if (n == "tfl.standin_stateful" && x->getOperand(1) == x->getOperand(2)) bad = "an operator whose states are one tensor";
      if (n == "tfl.conv_2d") {
        ++convs;
        auto dq = x->getOperand(1).getDefiningOp<TFL::DequantizeOp>();
        auto q = dq ? dq.getInput().getDefiningOp<TFL::QuantizeOp>() : TFL::QuantizeOp();
        if (auto* d = q ? q.getInput().getDefiningOp() : nullptr) qconst += d->getNumOperands() == 0;
      }
      if (auto code = x->getAttrOfType<StringAttr>("custom_code")) {
        if (code.getValue() != "LceBconv2d") return;
        ++bconvs;
        Type e = cast<ShapedType>(x->getResult(0).getType()).getElementType();
        if (!x->getOperand(1).getDefiningOp() || x->getOperand(1).getDefiningOp()->getNumOperands()) bad = "weights that are not constant";
        else if (!cast<ShapedType>(x->getOperand(1).getType()).getElementType().isSignlessInteger(32)) bad = "weights that are not packed";
        if (Quantized(c) && c.ranges && e.isF32()) bad = "float result of a binarized convolution";
        if (auto q = dyn_cast<quant::UniformQuantizedType>(e))
          if (Quantized(c) && c.ranges && m.layers.find('Q') == std::string::npos && (!q.isSigned() || fabs(q.getScale() - (c.hi - c.lo) / 255) > 1e-9 || q.getZeroPoint() != llround(-c.lo / (c.hi - c.lo) * 255) - 128)) bad = "another quantization than the requested range";
      }
    });
    if (!bad.empty()) return EX->fail("the exported model has %s\n%s", bad.c_str(), show().c_str());
    const bool injected = !(m.pad && c.target == "xcore");
    const int eb = injected ? real.binary : 0, ef = real.floats + (injected ? 0 : real.binary);
    if (bconvs != eb || convs != ef) return EX->fail("%d binarized convolutions (%d expected), %d other ones (%d)\n%s", bconvs, eb, convs, ef, show().c_str());
    if (qconst < real.fake_consts) return EX->fail("the quantization of the weights is lost\n%s", show().c_str());
    auto in_t = dyn_cast<RankedTensorType>(fn.getFunctionType().getInput(0));
    const int64_t batch = m.batch < 0 ? 1 : m.batch;
    if (!in_t || !in_t.getElementType().isF32() || in_t.getShape() != ArrayRef<int64_t>({batch, 4, 3, 2})) return EX->fail("the input of the model changes\n%s", show().c_str());
    if (!dyn_cast<RankedTensorType>(fn.getFunctionType().getResult(0)) || !cast<RankedTensorType>(fn.getFunctionType().getResult(0)).hasStaticShape()) return EX->fail("the shape of the result is not known\n%s", show().c_str());
    // and it computes the same
    auto want_m = ev::Parse(want_text);
    auto wf = *want_m->getOps<func::FuncOp>().begin();
    for (int k = 0; k < 12; ++k) {
      // (with default ranges: everything stays on their grid)
      const double low = Quantized(c) && c.ranges ? 0.5 : 0.125, vs[] = {-2, -1, -0.5, -low, 0, low, 0.5, 1, 2};
      std::vector<Tensor> in = {Fill({batch, 4, 3, 2}, "f32", [&](int64_t i) { return vs[(i * (k + 2) + k * k + (i >> k) + i * i * (k & 1)) % 9]; })};
      std::vector<Tensor> want, got;
      std::string err;
      if (ev::Run(wf, in, want, err) != ev::OK) { fprintf(stderr, "harness: %s\n%s", err.c_str(), want_text.c_str()); exit(77); }
      Exec x;
      x.kernel = m.pad ? 2 : k % 4;
      if (x.kernel == 0 && m.pad) x.kernel = 2;
      ev::Custom = std::ref(x);
      const auto s = ev::Run(fn, in, got, err);
      ev::Custom = nullptr;
      EX->eval(1);
      if (s == ev::UNSUPPORTED) { fprintf(stderr, "harness: %s\n", err.c_str()); exit(77); }
      if (s != ev::OK) {
        // (zero padding with an integer result: recorded with M07)
        if (x.rejected && m.pad && Quantized(c)) { EX->sh->rejected++; return; }
        return EX->fail("the exported model does not run: %s\n%s", err.substr(0, 500).c_str(), show().c_str());
      }
      const std::string d = ev::Diff(want, got, 0);
      if (!d.empty()) return EX->fail("%s\ninput %s\n%s", d.c_str(), ev::Show(in[0]).c_str(), show().c_str());
      EX->sh->accepted++;
      for (auto& r : got) EX->outcome(r.v.data(), r.v.size() * sizeof(double));
    }
  });
}
// Quantized ranges with a fused activation or a bitpacked input are exact only
// when nothing is clipped: the values stay within the range by construction.
void ExploreM11(bool th) {
  std::vector<std::string> layers = {"B", "b", "Bb", "BMA", "BAR", "BMAb", "FB", "CB", "BF", "BMARbA", "BQ", "QB", "BQb", "qB", "BMAQ", "FQBQbQ", "BIb", "q", "C"};
  if (th) {
    layers.clear();
    const std::string ops = "BbFCqMARIQ";
    for (char a : ops) for (char b : ops + " ") for (char c : ops + " ") {
      if (b == ' ' && c != ' ') continue;
      std::string s(1, a);
      if (b != ' ') s += b;
      if (c != ' ') s += c;
      layers.push_back(s);
    }
    for (const char* s : {"BMAb", "BMARbA", "FQBQbQ", "BMAQb", "BbMAR"}) layers.push_back(s);
  }
  for (int entry = 0; entry < 3; ++entry)
    for (const char* target : {"arm", "xcore"})
      for (int quant = 0; quant < 3; ++quant)
        for (auto& l : layers)
          for (int w = 0; w < WEIGHTS; ++w)
            for (int noop = 0; noop < 6; ++noop)
              for (int sign = 0; sign < 2; ++sign)
                for (int pad = 0; pad < 2; ++pad)
                  for (int batch : {-1, 1, 2}) {
                    if ((w == VARIABLE || w == VARLATENT) && entry != 1) continue;
                    if (entry && !quant) continue;  // always requested there
                    if (!th && (noop > 1) + sign + pad + (batch == 2) + (entry == 2) > 2) continue;
                    if (th && (noop > 1) + pad + (batch == 2) + (entry == 2) > 2) continue;
                    Model m;
                    m.layers = l, m.weights = w, m.noop = noop, m.sign = sign, m.pad = pad, m.batch = batch;
                    Call c;
                    c.saved = entry > 0, c.bundle = entry == 1, c.target = target, c.quantize = quant > 0, c.ranges = quant == 2;
                    Whole(m, c);
                  }
  // operators of other kinds, and models in several functions
  struct Feature { const char* kind; std::vector<std::string> passes; int quant = 0, dir = 0; };  // needs quantization (2: ranges), a directory
  const std::vector<Feature> features = {
      {"composite function", {"PrepareCompositeFunctions"}},
      {"tensor list of a composite function", {"PrepareCompositeFunctions", "LowerStaticTensorList"}},
      {"dispatch by device", {"DeviceIndexSelector"}},
      {"control flow", {"TFStandardPipeline", "TFFunctionalControlFlowToRegions", "TFRegionControlFlowToFunctional"}},
      {"resource in control flow", {"TFFunctionalControlFlowToRegions", "DecomposeResourceOps", "TFRegionControlFlowToFunctional"}},
      {"loop", {"TFRegionControlFlowToFunctional", "LegalizeTFWhile", "ReduceWhileOperands", "WhileOutline"}},
      {"hash table", {"InitTextFileToImport", "LegalizeHashTables"}},
      {"hash table of an asset", {"FreezeAssets", "InitTextFileToImport", "LegalizeHashTables"}, 0, 1},
      {"variable", {"AnalyzeVariables", "LegalizeVariables"}},
      {"session initializer", {"InsertCallOnceOpFromSessionInitializer"}},
      {"folded functional operator", {"LegalizeTF", "OptimizeFunctionalOps"}},
      {"custom operator", {"LegalizeTF", "RaiseCustomOps"}},
      {"quantized operator", {"PrepareQuantize", "Quantize", "PostQuantize"}, 1},
      {"operator quantized by the default range", {"PrepareQuantize", "DefaultQuantParams", "Quantize", "PostQuantize"}, 2},
      {"quantization left over", {"Quantize", "PostQuantizeRemoveQDQ"}, 1},
  };
  for (int entry = 0; entry < 3; ++entry)
    for (const char* target : {"arm", "xcore"})
      for (int quant = 0; quant < 3; ++quant)
        for (int dir = 0; dir < 2; ++dir)
          for (int batch : {-1, 1, 2})
            for (int call = 0; call < 4; ++call) {
              if (entry && !quant) continue;
              if (!entry && dir) continue;
              Call c;
              c.saved = entry > 0, c.bundle = entry == 1, c.target = target, c.quantize = quant > 0, c.ranges = quant == 2, c.dir = dir ? "/m" : "";
              Model m;
              m.batch = batch, m.call = call;
              for (const char* l : {"SM", "BS", "SB", "BMASb", "FSF", "SSM"}) m.layers = l, Whole(m, c);
              for (const char* l : {"BMA", "FB", "BQb", "BFb", "CBM"}) m.layers = l, Whole(m, c);
              for (auto& f : features) {
                if (quant < f.quant || dir < f.dir) continue;
                m.feature = f.passes;
                for (const char* l : {"XM", "XB", "BX", "BMAXb", "FXF", "XXM"}) m.layers = l, Whole(m, c);
              }
            }
}

// ----------------------------------------------------------------------- M13
std::string Join(const std::vector<std::string>& v) {
  std::string s;
  for (auto& x : v) s += "[" + x + "]";
  return s;
}
std::string Plain(int entries, const std::string& inputs, int args, const std::vector<int>& names = {}) {
  std::string t;
  auto fn = [&](const char* n, bool entry) {
    std::string a, r;
    for (int i = 0; i < args; ++i) a += mc::fmt("%s%%a%d: tensor<1x2xf32>", i ? ", " : "", i);
    t += mc::fmt("func.func @%s(", n) + a + ") -> tensor<1x2xf32>" + (entry ? " attributes {tf.entry_function = {" + (inputs == "-" ? std::string() : "inputs = \"" + inputs + "\", ") + "outputs = \"y\"}}" : "") + " {\n";
    std::string v = "%a0";
    for (size_t i = 0; i < names.size(); ++i) {
      // every name is different, and so is its beginning
      std::string loc = mc::fmt("%zu/", i);
      while ((int)loc.size() < names[i]) loc += mc::fmt("n%zu_", loc.size());
      loc.resize(std::max(names[i], 2));
      t += mc::fmt("  %%r%zu = \"tf.Relu\"(%s) : (tensor<1x2xf32>) -> tensor<1x2xf32> loc(\"%s\")\n", i, v.c_str(), loc.c_str());
      v = mc::fmt("%%r%zu", i);
    }
    t += "  return " + v + " : tensor<1x2xf32>\n}\n";
  };
  for (int i = 0; i < entries; ++i) fn(mc::fmt("entry%d", i).c_str(), true);
  if (entries == 0) fn("other", false);
  return t;
}
void Settings(const Call& c, const std::string& key) {
  EX->config([&]() { return key; }, [&]() {
    W = world::World();
    const int n = c.saved ? 2 : (int)c.in.size();
    W.text = Plain(1, n == 1 ? "x" : n == 2 ? "x,x1" : "x,x1,x2", n);
    const Outcome o = Convert(c);
    EX->eval(1);
    auto& r = W.r;
    const bool valid = (c.target == "arm" || c.target == "xcore") && (!c.saved || !c.exported.empty());
    if (!valid) {
      if (!o.raised) EX->fail("an invalid request is accepted");
      return;
    }
    if (o.raised) return EX->fail("the conversion fails: %s", o.what.c_str());
    EX->outcome(r.module.data(), r.module.size());
    std::string bad;
    auto need = [&](bool b, const char* what) { if (!b && bad.empty()) bad = what; };
    if (c.saved) {
      need(r.import_kind == "saved model", "the importer");
      need(r.dir == c.dir, "the directory of the saved model");
      need(r.tags == std::set<std::string>(c.tags.begin(), c.tags.end()), "the tags of the saved model");
      need(r.exported == c.exported, "the exported names");
      need(r.version == c.version, "the version of the saved model");
      need(r.upgrade && r.lift, "the import options");
      need(r.froze && r.froze_session == c.bundle, "the session the variables are taken from");
      need(r.export_tags == std::set<std::string>(c.tags.begin(), c.tags.end()), "the tags of the exported model");
      need(c.dir.empty() ? !r.assets : r.assets && r.asset_dir == c.dir, "the assets of the saved model");
    } else {
      need(r.import_kind == "graphdef" && r.graphdef == c.graph, "the graph");
      need(r.in_names == c.in, "the input arrays");
      need(r.in_types == c.types, "the types of the inputs");
      need(r.outputs == c.out, "the output arrays");
      need(r.in_shapes.size() == c.shapes.size(), "the shapes of the inputs");
      for (size_t i = 0; i < c.shapes.size() && i < r.in_shapes.size(); ++i) need(c.shapes[i].empty() ? !r.in_shapes[i] : r.in_shapes[i] && *r.in_shapes[i] == c.shapes[i], "the shapes of the inputs");
      need(r.prune && r.legacy_fed && !r.graph_as_function && r.upgrade, "the import options");
      need(!r.froze && !r.assets, "there are no variables or assets to freeze");
    }
    const bool q = Quantized(c);
    need(r.quantized == q, "whether to quantize");
    if (q) {
      need(r.qint8 && r.is_signed, "the inference type");
      need((int)r.input_ranges.size() == n, "one range per input");
      for (auto& p : r.input_ranges) need(!p.first && !p.second, "inputs without a range");
      need(r.defaults.size() == (c.ranges ? 1u : 0u), "the default ranges");
      if (c.ranges && r.defaults.size() == 1) need(r.defaults[0] == std::make_pair(c.lo, c.hi), "the default ranges");
      need(r.ptq == (c.saved && c.ranges), "the mark of post-training quantization");
    } else {
      need(r.defaults.empty(), "the default ranges");
    }
    need(!r.select_ops && r.custom_ops && !r.stablehlo, "the export options");
    if (!bad.empty()) return EX->fail("not as requested: %s (got names %s types %s outputs %s)", bad.c_str(), Join(r.in_names).c_str(), Join(r.in_types).c_str(), Join(r.outputs).c_str());
    const std::string expect = "TFL3 model #" + std::to_string(llvm::hash_value(StringRef(r.module)));
    if (o.bytes != expect) return EX->fail("the result is not what was exported");
    EX->sh->accepted++;
  });
}
void ExploreM13(bool th) {
  const std::vector<std::pair<double, double>> ranges = {{-16, 15.875}, {-3, 3}, {0, 6}, {-1, 0}, {0, 1}, {-128, 127}};
  const char* targets[] = {"arm", "xcore", "", "ARM", "arm ", "android"};
  const char* names[] = {"x", "in_1", "a/b:0"};
  const char* types[] = {"DT_FLOAT", "DT_INT32", "DT_BOOL"};
  const std::vector<std::vector<int>> shapes = {{}, {1, 2}, {3}, {2, 1, 4, 1}};
  for (const char* target : targets)
    for (int rg = -1; rg < (int)ranges.size(); ++rg) {
      // graphs
      for (int q = 0; q < 2; ++q)
        for (int n = 1; n <= (th ? 3 : 2); ++n)
          for (int sh = 0; sh < (n == 1 ? 4 : n == 2 ? 16 : 64); ++sh)
            for (int ty = 0; ty < (n == 1 ? 3 : 9); ++ty)
              for (int out = 1; out <= 3; ++out)
                for (const char* g : {"G", "", "other"}) {
                  Call c;
                  c.target = target, c.quantize = q, c.graph = g;
                  c.ranges = rg >= 0;
                  if (c.ranges) c.lo = ranges[rg].first, c.hi = ranges[rg].second;
                  c.in.clear(), c.types.clear(), c.shapes.clear(), c.out.clear();
                  std::string key = mc::fmt("graph '%s' target='%s' quantize=%d ranges=%d:", g, target, q, rg);
                  for (int i = 0, a = sh, b = ty; i < n; ++i, a /= 4, b /= 3) {
                    c.in.push_back(names[i]), c.types.push_back(types[b % 3]), c.shapes.push_back(shapes[a % 4]);
                    key += mc::fmt(" input %s %s shape%d", names[i], types[b % 3], a % 4);
                  }
                  for (int i = 0; i < out; ++i) c.out.push_back(mc::fmt("out%d", i));
                  Settings(c, key + mc::fmt(" outputs=%d", out));
                }
      // saved models
      for (const char* dir : {"/m", "", "/some/other"})
        for (int tg = 0; tg < 4; ++tg)
          for (int ex = 0; ex < 3; ++ex)
            for (int version = 1; version <= 2; ++version)
              for (int bundle = 0; bundle < 2; ++bundle) {
                Call c;
                c.saved = true, c.target = target, c.dir = dir, c.version = version, c.bundle = bundle;
                c.ranges = rg >= 0;
                if (c.ranges) c.lo = ranges[rg].first, c.hi = ranges[rg].second;
                c.tags.clear(), c.exported.clear();
                if (tg & 1) c.tags.push_back("serve");
                if (tg & 2) c.tags.push_back("gpu");
                for (int i = 0; i < ex; ++i) c.exported.push_back(mc::fmt("name%d", i));
                Settings(c, mc::fmt("saved model '%s' target='%s' ranges=%d tags=%s exported=%d version=%d session=%d", dir, target, rg, Join(c.tags).c_str(), ex, version, bundle));
              }
    }
  // the number of inputs of saved models, and their entry function
  for (int entries = 0; entries < 3; ++entries)
    for (const char* inputs : {"x", "x,x1", "x,x1,x2", "a:0,b:1,c,d", "-"})
      EX->config([&]() { return mc::fmt("saved model with %d entry functions, inputs %s", entries, inputs); }, [&]() {
        W = world::World();
        int n = 1;
        for (const char* p = inputs; *p; ++p) n += *p == ',';
        W.text = Plain(entries, inputs, n);
        Call c;
        c.saved = true;
        const Outcome o = Convert(c);
        EX->eval(1);
        const bool valid = entries == 1 && std::string(inputs) != "-";
        if (o.raised == valid) return EX->fail("%s", o.raised ? "the conversion fails" : "a model without a (single) entry function is accepted");
        if (valid && (int)W.r.input_ranges.size() != n) EX->fail("%zu inputs instead of %d", W.r.input_ranges.size(), n);
      });
  // names
  for (int saved = 0; saved < 2; ++saved)
    for (int a = 2; a <= 130; ++a)
      EX->config([&]() { return mc::fmt("%s, operator names of %d characters", saved ? "saved model" : "graph", a); }, [&]() {
        W = world::World();
        W.text = Plain(1, "x", 1, {a, 60, a, 5});
        Call c;
        c.saved = saved;
        const Outcome o = Convert(c);
        EX->eval(1);
        if (o.raised) return EX->fail("the conversion fails: %s", o.what.c_str());
        if (W.r.names.size() < 4) return EX->fail("operators have no names");
        // (one chain of operators, in order)
        const int len[] = {a, 60, a, 5};
        for (int i = 0, k = (int)W.r.names.size() - 4; i < 4; ++i, ++k) {
          std::string loc = mc::fmt("%d/", i);
          while ((int)loc.size() < len[i]) loc += mc::fmt("n%zu_", loc.size());
          loc.resize(std::max(len[i], 2));
          if (W.r.names[k] != loc.substr(0, 50)) EX->fail("operator '%s' is exported as '%s'", loc.c_str(), W.r.names[k].c_str());
        }
      });
}

// ----------------------------------------------------------------------- M14
void Faults(const Call& c, const std::string& key, const std::string& text, int fault, bool silent) {
  EX->config([&]() { return key + mc::fmt(" step %d fails%s", fault, silent ? " without a diagnostic" : ""); }, [&]() {
    W = world::World();
    W.text = text;
    W.fail_at = fault, W.silent = silent;
    const Outcome o = Convert(c);
    EX->eval(1);
    if ((int)W.log.size() <= fault) {
      EX->sh->rejected++;  // beyond the last step
      if (o.raised) EX->fail("the conversion fails: %s", o.what.c_str());
      return;
    }
    EX->sh->accepted++;
    EX->outcome(W.log[fault].data(), W.log[fault].size());
    if (!o.raised) return EX->fail("%s fails and the conversion returns %zu bytes: '%s'", W.log[fault].c_str(), o.bytes.size(), o.bytes.substr(0, 40).c_str());
    // nothing runs after the failure
    if ((int)W.log.size() > fault + 1) EX->fail("after the failure of %s, %s is run", W.log[fault].c_str(), W.log[fault + 1].c_str());
  });
}
void ExploreM14(bool th) {
  Model m;
  m.layers = "BMAQbF";
  const std::string text = Text(m, false).Module();
  for (int saved = 0; saved < 2; ++saved)
    for (int bundle = 0; bundle < 2; ++bundle)
      for (const char* target : {"arm", "xcore"})
        for (int quant = 0; quant < 3; ++quant)
          for (int dir = 0; dir < 2; ++dir) {
            if (!saved && (bundle || dir)) continue;
            if (saved && !quant) continue;
            Call c;
            c.saved = saved, c.bundle = bundle, c.target = target, c.quantize = quant > 0, c.ranges = quant == 2, c.dir = dir ? "/m" : "";
            const std::string key = mc::fmt("%s %s session=%d quantization=%d directory=%d", saved ? "saved model" : "graph", target, bundle, quant, dir);
            for (int fault = 0; fault < 90; ++fault)
              for (int silent = 0; silent < 2; ++silent) Faults(c, key, text, fault, silent);
            EX->config([&]() { return key + " the export leaves an invalid module"; }, [&]() {
              W = world::World();
              W.text = text, W.invalid = true;
              const Outcome o = Convert(c);
              EX->eval(1);
              if (!o.raised) EX->fail("the conversion returns '%s'", o.bytes.c_str());
            });
            for (const char* l : {"U", "UB", "BU", "BMAUb"})
              EX->config([&]() { return key + " operator the runtime does not support in " + l; }, [&]() {
                Model u;
                u.layers = l;
                W = world::World();
                W.text = Text(u, false).Module();
                const Outcome o = Convert(c);
                EX->eval(1);
                if (!o.raised) EX->fail("the conversion returns '%s'", o.bytes.c_str());
              });
            // control flow of TensorFlow 1
            for (const char* op : {"Switch", "Merge", "Enter", "Exit", "NextIteration.Sink", "NextIteration.Source"})
              for (int nested = 0; nested < 2; ++nested)
                EX->config([&]() { return key + mc::fmt(" graph with tf_executor.%s%s", op, nested ? " in a region" : ""); }, [&]() {
                  W = world::World();
                  std::string o1 = mc::fmt("  \"tf_executor.%s\"() : () -> ()\n", op);
                  if (nested) o1 = "  \"tf_executor.graph\"() ({\n  \"tf_executor.island\"() ({\n" + o1 + "  }) : () -> ()\n  }) : () -> ()\n";
                  W.text = "func.func @main(%x: tensor<1x2xf32>) -> tensor<1x2xf32> attributes {tf.entry_function = {inputs = \"x\", outputs = \"y\"}} {\n" + o1 + "  return %x : tensor<1x2xf32>\n}\n";
                  const Outcome o = Convert(c);
                  EX->eval(1);
                  if (!o.raised) return EX->fail("the conversion accepts it");
                  for (auto& s : W.log) if (s == "MlirToFlatBufferTranslateFunction") EX->fail("a model is exported");
                });
          }
}
}  // namespace
int main(int argc, char** argv) {
  standin_init_module();
  return Main(argc, argv, [](const mc::Options& o, mc::Explorer& ex) {
    world::Setup(*ev::C);
    // (failures are expected: they are not printed)
    if (o.prop == "M11") ExploreM11(ex.thorough);
    if (o.prop == "M13") ExploreM13(ex.thorough);
    if (o.prop == "M14") ExploreM14(ex.thorough);
  });
}
