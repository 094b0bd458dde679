// M10: the detection post-processing rewrite.
//
// Every module is compared, as symbolic terms, with the module the documented
// rewrite gives (or with itself where it does not apply).
#include <set>

#include "common.h"
using namespace mlx;

namespace mlir { namespace TFL {
std::unique_ptr<OperationPass<func::FuncOp>> QuantizeDetectionPostProcessPass();
} }
namespace {
template <class T> std::string Str(T x) {
  std::string s;
  llvm::raw_string_ostream os(s);
  x.print(os);
  return os.str();
}
struct Terms {
  std::vector<std::string> v;
  llvm::DenseMap<Value, std::string> term;
  explicit Terms(func::FuncOp f) {
    v.push_back(Str(f.getFunctionType()));
    int n = 0;
    for (auto a : f.getBody().front().getArguments()) term[a] = "arg" + std::to_string(a.getArgNumber());
    for (Operation& op : f.getBody().front()) {
      const std::string name = op.getName().getStringRef().str();
      if (name == "tfl.dequantize") {
        term[op.getResult(0)] = "dequantize(" + term[op.getOperand(0)] + "):" + Str(op.getResult(0).getType());
        continue;
      }
      std::string s = name + "(";
      for (Value o : op.getOperands()) s += term[o] + ":" + Str(o.getType()) + ",";
      s += ")";
      for (auto a : op.getAttrs()) s += a.getName().str() + "=" + Str(a.getValue()) + ";";
      for (Value o : op.getResults()) s += Str(o.getType()) + ",";
      if (isa<NameLoc>(op.getLoc())) s += Str(LocationAttr(op.getLoc()));
      for (unsigned i = 0; i < op.getNumResults(); ++i) term[op.getResult(i)] = "op" + std::to_string(n) + "#" + std::to_string(i);
      ++n;
      v.push_back(s);
    }
  }
};
// how an input is made
enum Src { DQ, DQ_SHARED, PLAIN, OTHER, DQ_QUANT, NSRC };
const char* kSrc[] = {"dequantize", "dequantize with another user", "float", "other operator", "dequantize of a quantize"};
struct In { int src; std::string q; };
struct G {
  std::string code = "TFLite_Detection_PostProcess", opts = "0x6D617800010203";
  std::vector<In> in;
  std::vector<std::string> out;  // types
  int same = 0;     // 1: scores input is the boxes value; 2: all the same
  int users = 0;    // 0: all returned; 1: outputs used by another operator; 2: the scores are not used; 3: scores used twice
  int copies = 1;
};
const char* kShape[] = {"1x10x4x", "1x10x2x", "10x4x", "7x"};
bool Signed8(const std::string& q) { return q.rfind("!quant.uniform<i8:f32", 0) == 0; }
// The module; `after`: rewritten.
std::string Text(const G& g, bool after) {
  std::string args, body, rets, types;
  auto ret = [&](const std::string& v, const std::string& t) { rets += (rets.empty() ? "" : ", ") + v; types += (types.empty() ? "" : ", ") + t; };
  for (int c = 0; c < g.copies; ++c) {
    const std::string k = std::to_string(c);
    std::vector<std::string> ops, tys, raw, rawt;
    for (size_t i = 0; i < g.in.size(); ++i) {
      const In& in = g.in[i];
      const std::string n = k + "_" + std::to_string(i), sh = kShape[i < 4 ? i : 3], tf = "tensor<" + sh + "f32>", tq = "tensor<" + sh + in.q + ">";
      std::string q = "%q" + n;
      if (in.src == PLAIN) {
        args += (args.empty() ? "%q" : ", %q") + n + ": " + tf;
        ops.push_back(q), tys.push_back(tf), raw.push_back(q), rawt.push_back(tf);
        continue;
      }
      if (in.src == OTHER) {
        args += (args.empty() ? "%q" : ", %q") + n + ": " + tq;
        body += "  %d" + n + " = \"x.dequantize\"(" + q + ") : (" + tq + ") -> " + tf + "\n";
        ops.push_back("%d" + n), tys.push_back(tf), raw.push_back(q), rawt.push_back(tq);
        continue;
      }
      if (in.src == DQ_QUANT) {
        args += (args.empty() ? "%f" : ", %f") + n + ": " + tf;
        body += "  %q" + n + " = \"x.quantize\"(%f" + n + ") : (" + tf + ") -> " + tq + "\n";
      } else {
        args += (args.empty() ? "%q" : ", %q") + n + ": " + tq;
      }
      body += "  %d" + n + " = \"tfl.dequantize\"(" + q + ") : (" + tq + ") -> " + tf + "\n";
      ops.push_back("%d" + n), tys.push_back(tf), raw.push_back(q), rawt.push_back(tq);
      if (in.src == DQ_SHARED) ret("%d" + n, tf);
    }
    for (size_t i = 1; i < ops.size(); ++i)
      if (g.same == 2 || (g.same == 1 && i == 1)) ops[i] = ops[0], tys[i] = tys[0], raw[i] = raw[0], rawt[i] = rawt[0];
    if (after) ops = raw, tys = rawt;
    std::vector<std::string> outs = g.out;
    if (after) {
      const std::string q = g.in[g.same ? 0 : 1].q;
      outs[2] = outs[2].substr(0, outs[2].size() - 4) + q + ">";
    }
    std::string o, t, r;
    for (size_t i = 0; i < ops.size(); ++i) o += (i ? ", " : "") + ops[i], t += (i ? ", " : "") + tys[i];
    for (size_t i = 0; i < outs.size(); ++i) r += (i ? ", " : "") + outs[i];
    body += "  " + (outs.empty() ? std::string() : "%r" + k + (outs.size() > 1 ? ":" + std::to_string(outs.size()) : std::string()) + " = ") + "\"tfl.custom\"(" + o + ") {custom_code = \"" + g.code + "\", custom_option = #tfl<const_bytes : \"" + g.opts + "\">} : (" + t + ") -> (" + r +
            ") loc(\"det" + k + "\")\n";
    std::vector<std::string> res;
    for (size_t i = 0; i < outs.size(); ++i) res.push_back(outs.size() > 1 ? "%r" + k + "#" + std::to_string(i) : "%r" + k);
    if (after) {
      body += "  %s" + k + " = \"tfl.dequantize\"(" + res[2] + ") : (" + outs[2] + ") -> " + g.out[2] + "\n";
      res[2] = "%s" + k;
    }
    for (size_t i = 0; i < res.size(); ++i) {
      if (g.users == 2 && i == 2) continue;
      if (g.users == 1 || (g.users == 3 && i == 2)) {
        body += "  %u" + k + std::to_string(i) + " = \"x.use\"(" + res[i] + ") : (" + g.out[i] + ") -> tensor<i1>\n";
        ret("%u" + k + std::to_string(i), "tensor<i1>");
        if (g.users == 1) continue;
      }
      ret(res[i], g.out[i]);
    }
  }
  return "func.func @f(" + args + ") -> (" + types + ") {\n" + body + "  return " + rets + (types.empty() ? "" : " : ") + types + "\n}\n";
}
bool ElementIs(const std::string& t, const char* e) { return t.size() > 5 && t.compare(t.size() - 4, 4, std::string(e) + ">") == 0 && (t[t.size() - 5] == 'x' || t[t.size() - 5] == '<'); }
// 0: must stay; 1: must be rewritten; 2: either
int Applies(const G& g) {
  if (g.code != "TFLite_Detection_PostProcess" || g.in.size() != 3 || g.out.size() != 4) return 0;
  for (int i = 0; i < 4; ++i)
    if (!ElementIs(g.out[i], i == 2 ? "f32" : "i32")) return 0;
  bool part = false;
  for (int i = 0; i < 3; ++i) {
    const In& in = g.in[g.same == 2 ? 0 : g.same == 1 && i == 1 ? 0 : i];
    if (in.src == PLAIN || in.src == OTHER) return 0;
    // the operator takes signed 8-bit numbers with one scale and zero point
    const bool p = in.q.rfind("!quant.uniform<i8<", 0) == 0;
    if ((!Signed8(in.q) && !p) || in.q.find('{') != std::string::npos) return 0;
    part |= p;
  }
  if (part) return 3;  // a part of the value range: the output may have either range
  for (auto& o : g.out) if (o.find('*') != std::string::npos) return 2;
  return 1;
}
void Run(const G& g) {
  const std::string text = Text(g, false);
  auto m = ev::Parse(text);
  const auto before = Terms(*m->getOps<func::FuncOp>().begin()).v;
  const int a = Applies(g);
  std::vector<std::string> want[2];
  if (a) want[1] = Terms(*ev::Parse(Text(g, true))->getOps<func::FuncOp>().begin()).v;
  std::string d;
  if (!ev::RunPasses(*m, [](OpPassManager& pm) { pm.addPass(TFL::QuantizeDetectionPostProcessPass()); }, d)) return EX->fail("the pass fails: %s\n%s", d.c_str(), text.c_str());
  EX->eval(2);
  auto got = Terms(*m->getOps<func::FuncOp>().begin()).v;
  if (a == 3) {
    for (auto* v : {&want[1], &got})
      for (auto& s : *v)
        for (size_t p; (p = s.find("i8<-127:127>")) != std::string::npos;) s.replace(p, 12, "i8");
  }
  (got == before ? EX->sh->rejected : EX->sh->accepted)++;
  for (auto& s : got) EX->outcome(s.data(), s.size());
  if ((a != 1 && got == before) || (a && got == want[1])) return;
  std::string e, x, y;
  for (auto& s : a ? want[1] : before) e += "\n  " + s;
  EX->fail("%s\nexpected%s\ngot\n%s", text.c_str(), e.c_str(), ev::Print(*m).c_str());
}
std::string Key(const G& g) {
  std::string s = g.code + " " + g.opts + " in";
  for (auto& i : g.in) s += std::string(" ") + kSrc[i.src] + " " + i.q + ",";
  s += " out";
  for (auto& o : g.out) s += " " + o;
  return s + mc::fmt(" same%d users%d copies%d", g.same, g.users, g.copies);
}
void Explore(bool th) {
  const std::string q = "!quant.uniform<i8:f32, 5.000000e-01:3>", q2 = "!quant.uniform<i8:f32, 2.500000e-01>", q3 = "!quant.uniform<i8:f32, 1.250000e-01:-7>";
  const std::vector<std::string> types = {q2, q, "!quant.uniform<u8:f32, 5.000000e-01:128>", "!quant.uniform<i16:f32, 5.000000e-01>", "!quant.uniform<i8<-127:127>:f32, 5.000000e-01:3>", "!quant.uniform<i8:f32:1, {5.000000e-01,2.500000e-01}>", "f16", "!quant.uniform<u8:f32, 5.000000e-01>"};
  G base;
  base.in = {{DQ, q}, {DQ, q2}, {DQ, q3}};
  base.out = {"tensor<1x20x4xi32>", "tensor<1x20xi32>", "tensor<1x20xf32>", "tensor<1xi32>"};
  auto go = [&](const G& g) {
    // (per-axis types need the dimension they name)
    EX->config([&]() { return Key(g); }, [&]() { Run(g); });
  };
  // sources x types of the three inputs
  for (int s0 = 0; s0 < NSRC; ++s0)
    for (int s1 = 0; s1 < NSRC; ++s1)
      for (int s2 = 0; s2 < NSRC; ++s2)
        for (size_t t0 = 0; t0 < types.size(); ++t0)
          for (size_t t1 = 0; t1 < types.size(); ++t1)
            for (size_t t2 = 0; t2 < types.size(); ++t2) {
              if (!th && (t0 > 1) + (t1 > 1) + (t2 > 1) > 1) continue;
              for (int same = 0; same < 3; ++same)
                for (int users = 0; users < 4; ++users) {
                  if (!th && same && users) continue;
                  G g = base;
                  g.in = {{s0, types[t0]}, {s1, types[t1]}, {s2, types[t2]}};
                  if (t0 == 5) continue;  // (the second dimension of the boxes is not 2)
                  if (t2 == 5) continue;
                  g.same = same, g.users = users;
                  go(g);
                }
            }
  // the types of the outputs
  const std::vector<std::string> els = {"i32", "f32", "i64", "f16", "ui32", "f64", q};
  const std::vector<std::string> sh[4] = {{"1x20x4x", "?x?x4x", "*x", ""}, {"1x20x", "?x20x", "*x", ""}, {"1x20x", "1x?x", "*x", ""}, {"1x", "?x", "*x", ""}};
  for (auto& e0 : els) for (auto& e1 : els) for (auto& e2 : els) for (auto& e3 : els)
    for (int users : {0, 1, 2}) {
      G g = base;
      g.out = {"tensor<1x20x4x" + e0 + ">", "tensor<1x20x" + e1 + ">", "tensor<1x20x" + e2 + ">", "tensor<1x" + e3 + ">"};
      g.users = users;
      go(g);
    }
  for (auto& s0 : sh[0]) for (auto& s1 : sh[1]) for (auto& s2 : sh[2]) for (auto& s3 : sh[3])
    for (int users = 0; users < 4; ++users) {
      G g = base;
      g.out = {"tensor<" + s0 + "i32>", "tensor<" + s1 + "i32>", "tensor<" + s2 + "f32>", "tensor<" + s3 + "i32>"};
      g.users = users;
      go(g);
    }
  // codes, options, numbers of inputs and outputs
  for (const char* code : {"TFLite_Detection_PostProcess", "TFLite_Detection_PostProces", "TFLite_Detection_PostProcess2", "tflite_detection_postprocess", "", "LceQuantize"})
    for (const char* opts : {"0x", "0x00", "0x6D61785F646574656374696F6E73000A217E8E465B"})
      for (int ni = 0; ni <= 5; ++ni)
        for (int no = 0; no <= 6; ++no)
          for (int copies = 1; copies <= 3; ++copies)
            for (int users = 0; users < 4; ++users) {
              G g = base;
              g.code = code, g.opts = opts;
              g.in.clear(), g.out.clear();
              for (int i = 0; i < ni; ++i) g.in.push_back(base.in[i % 3]);
              for (int i = 0; i < no; ++i) g.out.push_back(base.out[i % 4]);
              g.copies = copies, g.users = users;
              go(g);
            }
}
}  // namespace
int main(int argc, char** argv) {
  return Main(argc, argv, [](const mc::Options& o, mc::Explorer& ex) { Explore(ex.thorough); });
}
