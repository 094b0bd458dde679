// M09: LCE operators become TFLite custom operators and come back.
//
// Modules are compared operator by operator in a canonical form (operands and
// results numbered, attributes sorted, locations included); what the options of
// a custom operator must be is written down here from the documentation of the
// operators.
#include <map>
#include <set>

#include "common.h"
#include "flatbuffers/flexbuffers.h"
#include "larq_compute_engine/mlir/ir/lce_ops.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
using namespace mlx;

namespace mlir { namespace TFL {
std::unique_ptr<OperationPass<func::FuncOp>> CreateTranslateToLCEPass();
} }
namespace {
const char* kAct[] = {"NONE", "RELU", "RELU_N1_TO_1", "RELU6", "TANH", "SIGN_BIT"};  // (schema order)
const char* kPad[] = {"SAME", "VALID"};
template <class T> std::string Str(T x) {
  std::string s;
  llvm::raw_string_ostream os(s);
  x.print(os);
  return os.str();
}
using Map = std::map<std::string, int64_t>;
std::string Text(const Map& m) {
  std::string s;
  for (auto& [k, v] : m) s += k + "=" + std::to_string(v) + ";";
  return s;
}
const std::set<std::string> kBconv = {"channels_in", "dilation_height_factor", "dilation_width_factor", "fused_activation_function", "pad_values", "padding", "stride_height", "stride_width"},
                            kPool = {"padding", "stride_width", "stride_height", "filter_width", "filter_height"};
Map FromAttributes(Operation* op, const std::set<std::string>& names) {
  Map m;
  for (auto& n : names) {
    Attribute a = op->getAttr(n);
    if (!a && n == "pad_values") { m[n] = 0; continue; }
    if (!a) { m[n] = -99999; continue; }
    if (auto i = dyn_cast<IntegerAttr>(a)) { m[n] = i.getValue().getSExtValue(); continue; }
    const StringRef s = cast<StringAttr>(a).getValue();
    m[n] = -99999;
    if (n == "padding") for (int i = 0; i < 2; ++i) if (s == kPad[i]) m[n] = i;
    if (n == "fused_activation_function") for (int i = 0; i < 6; ++i) if (s == kAct[i]) m[n] = i;
  }
  return m;
}
std::string Decode(StringRef bytes, const std::set<std::string>& names) {
  if (bytes.empty()) return "(empty)";
  auto map = flexbuffers::GetRoot((const uint8_t*)bytes.data(), bytes.size()).AsMap();
  Map m;
  for (auto& n : names) {
    auto r = map[n.c_str()];
    m[n] = r.IsNull() ? -99999 : r.AsInt32();
  }
  return Text(m);  // (further entries do not matter)
}
enum Mode { AS_IS, LEGALIZED };
// The operators of a function in canonical form; LEGALIZED: LCE operators as the
// custom operators they have to become.
std::vector<std::string> Canon(func::FuncOp f, Mode mode, bool decode) {
  std::vector<std::string> out;
  llvm::DenseMap<Value, int> id;
  std::string head = f.getName().str() + Str(f.getFunctionType());
  out.push_back(head);
  Block& b = f.getBody().front();
  for (auto a : b.getArguments()) id.insert({a, (int)id.size()});
  for (Operation& op : b) {
    const std::string name = op.getName().getStringRef().str();
    std::string s, attrs, nm = name;
    const bool lq = name.rfind("lq.", 0) == 0;
    const std::set<std::string>* opts = name == "lq.Bconv2d" ? &kBconv : name == "lq.BMaxPool2d" ? &kPool : nullptr;
    if (lq && mode == LEGALIZED) {
      nm = "tfl.custom";
      attrs = "custom_code=\"Lce" + name.substr(3) + "\";options:" + (opts ? Text(FromAttributes(&op, *opts)) : std::string("(empty)"));
    } else if (lq) {
      attrs = opts ? Text(FromAttributes(&op, *opts)) : std::string();
      for (auto a : op.getAttrs())
        if (!opts || !opts->count(a.getName().str())) attrs += a.getName().str() + "=" + Str(a.getValue()) + ";";
    } else if (decode && name == "tfl.custom" && isa_and_nonnull<StringAttr>(op.getAttr("custom_code")) && cast<StringAttr>(op.getAttr("custom_code")).getValue().starts_with("Lce") &&
               std::set<std::string>{"LceBconv2d", "LceBMaxPool2d", "LceQuantize", "LceDequantize"}.count(cast<StringAttr>(op.getAttr("custom_code")).getValue().str())) {
      const std::string code = cast<StringAttr>(op.getAttr("custom_code")).getValue().str();
      attrs = "custom_code=\"" + code + "\";options:" + Decode(cast<TFL::ConstBytesAttr>(op.getAttr("custom_option")).getValue(), code == "LceBconv2d" ? kBconv : kPool);
      for (auto a : op.getAttrs())
        if (a.getName() != "custom_code" && a.getName() != "custom_option") attrs += a.getName().str() + "=" + Str(a.getValue()) + ";";
    } else {
      for (auto a : op.getAttrs()) attrs += a.getName().str() + "=" + Str(a.getValue()) + ";";
    }
    s = nm + "(";
    for (Value v : op.getOperands()) s += "%" + std::to_string(id.count(v) ? id[v] : -1) + ":" + Str(v.getType()) + ",";
    s += "){" + attrs + "}->";
    for (Value v : op.getResults()) {
      id.insert({v, (int)id.size()});
      s += Str(v.getType()) + ",";
    }
    s += " " + Str(LocationAttr(op.getLoc()));
    out.push_back(s);
  }
  return out;
}
std::string Difference(const std::vector<std::string>& a, const std::vector<std::string>& b) {
  for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
    const std::string x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
    if (x != y) return "expected " + x + "\n     got " + y;
  }
  return "";
}
void Run(const std::string& text) {
  auto m = ev::Parse(text);
  auto f = [&]() { return *m->getOps<func::FuncOp>().begin(); };
  const auto legal = Canon(f(), LEGALIZED, true), same = Canon(f(), AS_IS, true);
  std::string d;
  const auto run = [&](bool back) {
    return ev::RunPasses(*m, [&](OpPassManager& pm) { pm.addPass(back ? TFL::CreateTranslateToLCEPass() : TFL::CreateLegalizeLCEPass()); }, d);
  };
  if (!run(false)) return EX->fail("legalization fails: %s\n%s", d.c_str(), text.c_str());
  EX->eval(2);
  d = Difference(legal, Canon(f(), AS_IS, true));
  if (!d.empty()) return EX->fail("legalization: %s\nfrom %s", d.c_str(), text.c_str());
  const auto raw = Canon(f(), AS_IS, false);
  if (!run(false)) return EX->fail("legalizing twice fails: %s\n%s", d.c_str(), text.c_str());
  d = Difference(raw, Canon(f(), AS_IS, false));
  if (!d.empty()) return EX->fail("legalizing twice: %s\nfrom %s", d.c_str(), text.c_str());
  EX->eval(2);
  if (!run(true)) return EX->fail("translation fails: %s\n%s", d.c_str(), text.c_str());
  EX->eval(2);
  const auto got = Canon(f(), AS_IS, true);
  d = Difference(same, got);
  if (!d.empty()) return EX->fail("translation back: %s\nfrom %s", d.c_str(), text.c_str());
  // and once more forward: the same bytes
  if (!run(false)) return EX->fail("legalization after translation fails: %s\n%s", d.c_str(), text.c_str());
  EX->eval(2);
  d = Difference(raw, Canon(f(), AS_IS, false));
  if (!d.empty()) return EX->fail("legalization after translation: %s\nfrom %s", d.c_str(), text.c_str());
  for (auto& s : got) EX->outcome(s.data(), s.size());
  EX->sample("%s", legal.size() > 1 ? legal[1].substr(0, 300).c_str() : "");
}
std::string Func(const std::string& args, const std::string& body, const std::string& rets, const std::string& types) {
  return "func.func @f(" + args + ") -> (" + types + ") {\n" + body + (rets.empty() ? "  return\n}\n" : "  return " + rets + " : " + types + "\n}\n");
}
void Config(const std::string& key, const std::string& text) {
  EX->config([&]() { return key; }, [&]() { Run(text); });
}
struct Conv { int64_t cin = 64, dh = 1, dw = 1, act = 0, pv = 0, pad = 1, sh = 1, sw = 1; };
std::string Attrs(const Conv& c, bool with_pv = true) {
  return mc::fmt("{channels_in = %lld : i32, dilation_height_factor = %lld : i32, dilation_width_factor = %lld : i32, fused_activation_function = \"%s\", %spadding = \"%s\", stride_height = %lld : i32, stride_width = %lld : i32}", (long long)c.cin,
                 (long long)c.dh, (long long)c.dw, kAct[c.act], with_pv ? mc::fmt("pad_values = %lld : i32, ", (long long)c.pv).c_str() : "", kPad[c.pad], (long long)c.sh, (long long)c.sw);
}
struct ConvTypes { std::string in = "tensor<1x8x8x2xi32>", f = "tensor<16x3x3x2xi32>", m = "tensor<16xf32>", b = "tensor<16xf32>", t = "none", out = "tensor<1x6x6x16xf32>"; };
std::string ConvText(const Conv& c, const ConvTypes& y = {}, bool with_pv = true) {
  return Func("%x: " + y.in + ", %f: " + y.f + ", %m: " + y.m + ", %b: " + y.b + ", %t: " + y.t,
              "  %r = \"lq.Bconv2d\"(%x, %f, %m, %b, %t) " + Attrs(c, with_pv) + " : (" + y.in + ", " + y.f + ", " + y.m + ", " + y.b + ", " + y.t + ") -> " + y.out + " loc(\"conv/name\")\n", "%r", y.out);
}
std::string PoolText(int pad, int64_t sw, int64_t sh, int64_t fw, int64_t fh, const std::string& in = "tensor<1x8x8x2xi32>", const std::string& out = "tensor<1x4x4x2xi32>") {
  return Func("%x: " + in, mc::fmt("  %%r = \"lq.BMaxPool2d\"(%%x) {padding = \"%s\", stride_width = %lld : i32, stride_height = %lld : i32, filter_width = %lld : i32, filter_height = %lld : i32} : (%s) -> %s loc(\"pool\"(\"x.py\":3:4))\n", kPad[pad],
                                   (long long)sw, (long long)sh, (long long)fw, (long long)fh, in.c_str(), out.c_str()), "%r", out);
}
// One member of a chain; `x` is its operand (type tx) and becomes its result.
struct Chain { std::string args, body, x, tx, rets, types; int n = 0; };
const char* kItems[] = {"quantize", "dequantize", "bconv-float", "bconv-bits", "bconv-int8", "pool", "custom", "opaque", "near-custom"};
bool Append(Chain& c, int item) {
  const std::string bits = "tensor<1x8x8x1xi32>", flt = "tensor<1x8x8x32xf32>", q8 = "tensor<1x8x8x32x!quant.uniform<i8:f32, 5.000000e-01:3>>";
  const bool isb = c.tx == bits;
  const std::string r = "%r" + std::to_string(c.n), k = std::to_string(c.n);
  std::string out;
  switch (item) {
    case 0: if (isb) return false; out = bits; c.body += "  " + r + " = \"lq.Quantize\"(" + c.x + ") : (" + c.tx + ") -> " + out; break;
    case 1: if (!isb) return false; out = flt; c.body += "  " + r + " = \"lq.Dequantize\"(" + c.x + ") : (" + c.tx + ") -> " + out; break;
    case 2: case 3: case 4: {
      if (!isb) return false;
      out = item == 2 ? flt : item == 3 ? bits : q8;
      Conv v;
      v.cin = 32; v.sh = 1 + c.n; v.sw = 7; v.act = item == 3 ? 0 : c.n % 4; v.pad = c.n % 2; v.pv = 1;
      const std::string m = item == 3 ? "none" : "tensor<32xf32>", t = item == 3 ? "tensor<32xi32>" : "none";
      c.args += ", %f" + k + ": tensor<32x3x3x1xi32>, %m" + k + ": " + m + ", %b" + k + ": " + m + ", %t" + k + ": " + t;
      c.body += "  " + r + " = \"lq.Bconv2d\"(" + c.x + ", %f" + k + ", %m" + k + ", %b" + k + ", %t" + k + ") " + Attrs(v) + " : (" + c.tx + ", tensor<32x3x3x1xi32>, " + m + ", " + m + ", " + t + ") -> " + out;
      break;
    }
    case 5: if (!isb) return false; out = bits; c.body += "  " + r + " = \"lq.BMaxPool2d\"(" + c.x + ") {padding = \"SAME\", stride_width = 1 : i32, stride_height = 2 : i32, filter_width = 3 : i32, filter_height = 4 : i32} : (" + c.tx + ") -> " + out; break;
    case 6: out = c.tx; c.body += "  " + r + " = \"tfl.custom\"(" + c.x + ") {custom_code = \"Other\", custom_option = #tfl<const_bytes : \"0x0102\">} : (" + c.tx + ") -> " + out; break;
    case 7: out = c.tx; c.body += "  " + r + " = \"x.op\"(" + c.x + ", " + c.x + ") {a = 1 : i32} : (" + c.tx + ", " + c.tx + ") -> " + out; break;
    case 8: out = c.tx; c.body += "  " + r + " = \"tfl.custom\"(" + c.x + ", " + c.x + ") {custom_code = \"LceBconv2dX\", custom_option = #tfl<const_bytes : \"0x\">} : (" + c.tx + ", " + c.tx + ") -> " + out; break;
  }
  c.body += " loc(\"n" + k + "\")\n";
  c.x = r, c.tx = out, c.n++;
  return true;
}
void Chains(const Chain& c, int depth, const std::string& key) {
  if (c.n) {
    // the last result, or every result, is returned
    for (int all = 0; all < 2; ++all) {
      std::string rets = c.x, types = c.tx;
      if (all) rets = c.rets + (c.rets.empty() ? "" : ", ") + c.x, types = c.types + (c.types.empty() ? "" : ", ") + c.tx;
      Config("chain" + key + (all ? " all" : ""), Func(c.args, c.body, rets, types));
      if (c.n == 1) break;
    }
  }
  if (!depth) return;
  for (int i = 0; i < 9; ++i) {
    Chain d = c;
    if (d.n) d.rets += (d.rets.empty() ? "" : ", ") + d.x, d.types += (d.types.empty() ? "" : ", ") + d.tx;
    if (Append(d, i)) Chains(d, depth - 1, key + " " + kItems[i]);
  }
}
void Explore(bool th) {
  // every combination of small attribute values, all distinguishable
  for (int64_t cin : {3, 64, 300, 70000})
    for (int64_t dh : {1, 5}) for (int64_t dw : {1, 6})
      for (int act = 0; act < 6; ++act)
        for (int64_t pv : {0, 1}) for (int pad = 0; pad < 2; ++pad)
          for (int64_t sh : {1, 2, 299}) for (int64_t sw : {1, 4, 301}) {
            Conv c{cin, dh, dw, act, pv, pad, sh, sw};
            Config(mc::fmt("bconv cin%lld d%lldx%lld %s pv%lld %s s%lldx%lld", (long long)cin, (long long)dh, (long long)dw, kAct[act], (long long)pv, kPad[pad], (long long)sh, (long long)sw), ConvText(c));
          }
  for (int pad = 0; pad < 2; ++pad)
    for (int64_t a : {1, 2, 299, 70000}) for (int64_t b : {1, 3, 300}) for (int64_t c : {1, 4, 301}) for (int64_t d : {1, 5, 40000})
      Config(mc::fmt("pool %s s%lldx%lld f%lldx%lld", kPad[pad], (long long)b, (long long)a, (long long)d, (long long)c), PoolText(pad, a, b, c, d));
  // every value of each attribute around the encoding widths
  std::vector<int64_t> vs;
  for (int64_t v = -3; v <= (th ? 70000 : 600); ++v) vs.push_back(v);
  for (int64_t v : {32766ll, 32767ll, 32768ll, 32769ll, 65534ll, 65535ll, 65536ll, 65537ll, 16777217ll, 2147483646ll, 2147483647ll, -127ll, -128ll, -129ll, -32768ll, -32769ll, -2147483647ll, -2147483648ll}) vs.push_back(v);
  for (int64_t v : vs) {
    for (int k = 0; k < 6; ++k) {
      Conv c{33, 2, 3, 1, 1, 0, 4, 5};
      (k == 0 ? c.cin : k == 1 ? c.dh : k == 2 ? c.dw : k == 3 ? c.sh : k == 4 ? c.sw : c.pv) = v;
      Config(mc::fmt("bconv attribute %d = %lld", k, (long long)v), ConvText(c));
    }
    for (int k = 0; k < 4; ++k) {
      int64_t w[4] = {2, 3, 4, 5};
      w[k] = v;
      Config(mc::fmt("pool attribute %d = %lld", k, (long long)v), PoolText(1, w[0], w[1], w[2], w[3]));
    }
  }
  Config("bconv default pad value", ConvText({}, {}, false));
  // types
  for (const char* in : {"tensor<1x8x8x2xi32>", "tensor<?x?x8x2xi32>", "tensor<*xi32>"})
    for (const char* f : {"tensor<16x3x3x2xi32>", "tensor<16x3x3x64xf32>", "tensor<16x3x3x?xf32>"})
      for (const char* m : {"none", "tensor<16xf32>", "tensor<1xf32>", "tensor<*xf32>"})
        for (const char* b : {"none", "tensor<16xf32>", "tensor<f32>"})
          for (const char* t : {"none", "tensor<16xi32>"})
            for (const char* o : {"tensor<1x6x6x16xf32>", "tensor<1x6x6x1xi32>", "tensor<?x6x?x16xf32>", "tensor<*xf32>", "tensor<1x6x6x16x!quant.uniform<i8:f32, 5.000000e-01>>", "tensor<1x6x6x16x!quant.uniform<i8:f32, 2.500000e-01:-7>>"}) {
              ConvTypes y{in, f, m, b, t, o};
              Config(std::string("types ") + in + f + m + b + t + o, ConvText({64, 1, 1, 0, 1, 0, 1, 1}, y));
            }
  const char* els[] = {"bf16", "f16", "f32", "f64", "i32", "i64", "i1", "!quant.uniform<i8:f32, 5.000000e-01>", "!quant.uniform<i8:f32, 2.500000e-01:-7>", "!quant.uniform<i16:f32, 5.000000e-01>"};
  const char* shapes[] = {"", "3x", "1x2x3x40x", "?x2x3x40x", "1x?x?x?x", "*x", "0x3x"};
  const char* packed[] = {"", "1x", "1x2x3x2x", "?x2x3x2x", "1x?x?x?x", "*x", "0x1x"};
  for (auto e : els)
    for (int s = 0; s < 7; ++s)
      for (int p = 0; p < 7; ++p) {
        const std::string a = std::string("tensor<") + shapes[s] + e + ">", b = std::string("tensor<") + packed[p] + "i32>";
        Config("quantize " + a + b, Func("%x: " + a, "  %r = \"lq.Quantize\"(%x) : (" + a + ") -> " + b + " loc(\"q\")\n", "%r", b));
        Config("dequantize " + b + a, Func("%x: " + b, "  %r = \"lq.Dequantize\"(%x) : (" + b + ") -> " + a + " loc(\"dq\")\n", "%r", a));
      }
  for (auto in : {"tensor<1x8x8x2xi32>", "tensor<?x8x8x2xi32>", "tensor<1x?x?x2xi32>", "tensor<*xi32>"})
    for (auto out : {"tensor<1x4x4x2xi32>", "tensor<?x4x4x2xi32>", "tensor<1x?x?x2xi32>", "tensor<*xi32>"}) Config(std::string("pool ") + in + out, PoolText(0, 2, 2, 2, 2, in, out));
  // other custom operators
  for (const char* code : {"", "Lce", "LceQuantiz", "LceQuantizeV2", "lceQuantize", "LCEQUANTIZE", "Quantize", "LceBconv2D", "Bconv2d", "LceBMaxPool2D", "LceBMaxPool", "Dequantize", "lq.Quantize", "TFLite_Detection_PostProcess", "FlexConv2D", "LceQuantize ", " LceDequantize"})
    for (const char* opt : {"0x", "0x00", "0x0102030405", "0x736861707300010B040206240001"})
      for (int nin = 0; nin <= 5; ++nin)
        for (int nout = 0; nout <= 3; ++nout) {
          std::string args, ops, ts, outs, rets, r = nout ? "%r" + (nout > 1 ? ":" + std::to_string(nout) : std::string()) + " = " : "";
          for (int i = 0; i < nin; ++i) {
            const std::string t = i % 2 ? "tensor<2xf32>" : "tensor<?x3xi32>";
            args += mc::fmt("%s%%a%d: ", i ? ", " : "", i) + t;
            ops += mc::fmt("%s%%a%d", i ? ", " : "", i);
            ts += (i ? ", " : "") + t;
          }
          for (int i = 0; i < nout; ++i) {
            outs += std::string(i ? ", " : "") + (i % 2 ? "tensor<*xf32>" : "tensor<1x2xi32>");
            rets += mc::fmt("%s%%r%s", i ? ", " : "", nout > 1 ? mc::fmt("#%d", i).c_str() : "");
          }
          Config(mc::fmt("custom '%s' %s %d>%d", code, opt, nin, nout),
                 Func(args, "  " + r + "\"tfl.custom\"(" + ops + ") {custom_code = \"" + code + "\", custom_option = #tfl<const_bytes : \"" + opt + "\">} : (" + ts + ") -> (" + outs + ") loc(\"c\")\n", rets, outs));
        }
  Chain c;
  c.args = "%x: tensor<1x8x8x32xf32>", c.x = "%x", c.tx = "tensor<1x8x8x32xf32>";
  Chains(c, th ? 6 : 4, "");
}
}  // namespace
int main(int argc, char** argv) {
  return Main(argc, argv, [](const mc::Options& o, mc::Explorer& ex) { Explore(ex.thorough); });
}
