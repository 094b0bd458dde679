// M08: removal of pass-through operators.
//
// Graphs of pass-through, constant, opaque and calling operators go through the
// real pass; every result and every operand of an operator that is not
// pass-through is compared as a symbolic term (which argument, constant or
// result of which opaque operator it is).
#include <set>

#include "common.h"
using namespace mlx;

namespace mlir { namespace TFL {
std::unique_ptr<OperationPass<func::FuncOp>> CreateOpRemovalPass();
} }
namespace {
const char* kTy[] = {"tensor<2x3xf32>", "tensor<?x3xf32>", "tensor<*xf32>", "tensor<4xi32>"};
bool Compatible(int a, int b) { return (a == 3) == (b == 3); }
template <class T> std::string Str(T x) {
  std::string s;
  llvm::raw_string_ostream os(s);
  x.print(os);
  return os.str();
}
bool PassThrough(Operation& op) {
  static const std::set<std::string> names = {"tf.Identity", "tf.IdentityN", "tf.Snapshot", "tf.StopGradient", "tf.PlaceholderWithDefault", "tf.CheckNumerics"};
  return names.count(op.getName().getStringRef().str());
}
struct Terms {
  std::vector<std::string> effects, results;
  llvm::DenseMap<Value, std::string> term;
  int n = 0;
  void Visit(Block& b, const std::string& where) {
    for (auto a : b.getArguments()) term[a] = where + "arg" + std::to_string(a.getArgNumber());
    for (Operation& op : b) {
      const std::string name = op.getName().getStringRef().str();
      if (PassThrough(op)) {
        for (unsigned i = 0; i < op.getNumResults(); ++i) term[op.getResult(i)] = i < op.getNumOperands() ? term[op.getOperand(i)] : "?";
        continue;
      }
      if (name == "tf.Const" || name == "arith.constant") {
        term[op.getResult(0)] = "const " + Str(op.getAttr("value"));
        continue;
      }
      std::string s = name + "(";
      for (Value v : op.getOperands()) s += term[v] + ",";
      s += ")";
      if (name == "func.return") { for (Value v : op.getOperands()) results.push_back(term[v]); continue; }
      const int k = n++;
      for (auto a : op.getAttrs()) s += a.getName().str() + "=" + Str(a.getValue()) + ";";
      for (Value v : op.getResults()) s += Str(v.getType()) + ",";
      s += Str(LocationAttr(op.getLoc()));
      for (unsigned i = 0; i < op.getNumResults(); ++i) term[op.getResult(i)] = "op" + std::to_string(k) + "#" + std::to_string(i);
      effects.push_back(where + s);
      for (auto& r : op.getRegions())
        for (auto& bb : r) Visit(bb, where + "op" + std::to_string(k) + ":");
    }
  }
};
struct V { std::string name; int ty; };
struct Graph {
  std::string text, extra, key;
  std::vector<V> vals;  // values that may be used
  std::vector<V> last;  // results of the last operator
  int n = 0;
};
void Check(const std::string& text) {
  auto m = ev::Parse(text);
  auto f = *m->getOps<func::FuncOp>().begin();
  Terms want, got;
  want.Visit(f.getBody().front(), "");
  const std::string type = Str(f.getFunctionType());
  std::string d;
  if (!ev::RunPasses(*m, [](OpPassManager& pm) { pm.addPass(TFL::CreateOpRemovalPass()); }, d)) return EX->fail("the pass fails or produces invalid code: %s\nfrom %s", d.c_str(), text.c_str());
  f = *m->getOps<func::FuncOp>().begin();
  got.Visit(f.getBody().front(), "");
  EX->eval(2);
  std::string e;
  if (type != Str(f.getFunctionType())) e = "the function type changes";
  if (want.results != got.results) {
    e = "results differ:";
    for (size_t i = 0; i < want.results.size(); ++i) e += " " + want.results[i] + " became " + (i < got.results.size() ? got.results[i] : "nothing") + ";";
  }
  if (want.effects != got.effects) {
    e = "other operators change:";
    for (auto& s : want.effects) e += "\n  " + s;
    e += "\nbecame";
    for (auto& s : got.effects) e += "\n  " + s;
  }
  if (!e.empty()) return EX->fail("%s\nbefore\n%s\nafter\n%s", e.c_str(), text.c_str(), ev::Print(*m).c_str());
  std::string all;
  for (auto& s : got.effects) all += s;
  for (auto& s : got.results) all += s;
  EX->outcome(all.data(), all.size());
  int left = 0, const_left = 0;
  m->walk([&](Operation* op) { left += PassThrough(*op); const_left += op->getName().getStringRef() == "tf.Const"; });
  (left ? EX->sh->rejected : EX->sh->accepted)++;
}
const char* kNames[] = {"tf.Identity", "tf.Snapshot", "tf.StopGradient", "tf.PlaceholderWithDefault", "tf.CheckNumerics"};
Graph With(const Graph& g, const std::string& key, const std::string& op, const std::vector<int>& tys, const std::string& extra = "") {
  Graph h = g;
  const std::string r = "%v" + std::to_string(g.n);
  std::string line = "  ";
  h.last.clear();
  for (size_t i = 0; i < tys.size(); ++i) {
    h.last.push_back({tys.size() > 1 ? r + "#" + std::to_string(i) : r, tys[i]});
    h.vals.push_back(h.last.back());
  }
  if (!tys.empty()) line += r + (tys.size() > 1 ? ":" + std::to_string(tys.size()) : std::string()) + " = ";
  h.text += line + op + " loc(\"n" + std::to_string(g.n) + "\")\n";
  h.key += " " + key;
  h.extra += extra;
  h.n++;
  return h;
}
std::string List(const std::vector<V>& v, bool types) {
  std::string s;
  for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + (types ? std::string(kTy[v[i].ty]) : v[i].name);
  return s;
}
void Emit(const Graph& g) {
  for (int all = 0; all < 2; ++all) {
    std::vector<V> ret = g.last;
    if (all) {
      ret = g.vals;
      std::reverse(ret.begin(), ret.end());
    } else if (ret.empty()) {
      continue;
    }
    EX->config([&]() { return g.key + (all ? " all" : ""); },
               [&]() {
                 Check("func.func @f(%a: tensor<2x3xf32>, %b: tensor<?x3xf32>, %c: tensor<4xi32>) -> (" + List(ret, true) + ") {\n" + g.text + "  return " + List(ret, false) + " : " + List(ret, true) + "\n}\n" +
                       "func.func private @g0(tensor<2x3xf32>) -> tensor<2x3xf32>\nfunc.func private @g1(tensor<?x3xf32>) -> tensor<?x3xf32>\nfunc.func private @g2(tensor<*xf32>) -> tensor<*xf32>\nfunc.func private @g3(tensor<4xi32>) -> tensor<4xi32>\n" + g.extra);
               });
  }
}
void Walk(const Graph& g, int depth, bool wide) {
  if (g.n) Emit(g);
  if (!depth) return;
  const bool first = g.n == 0;
  // operands: the arguments and the results of the last two operators
  std::vector<V> use = g.vals;
  if (!wide && use.size() > 5) use.erase(use.begin() + 2, use.end() - 3);
  for (auto& v : use)
    for (int t = 0; t < 4; ++t) {
      if (!Compatible(v.ty, t) || (t == 2 && v.ty == 0 && !first && !wide)) continue;
      for (int k = 0; k < 5; ++k) {
        if (k == 4 && v.ty == 3) continue;
        if (k == 1 && !first && !wide) continue;  // (Snapshot and StopGradient are alike)
        Walk(With(g, mc::fmt("%s(%s):%d", kNames[k], v.name.c_str(), t), std::string("\"") + kNames[k] + "\"(" + v.name + ")" + (k == 4 ? " {message = \"m\"}" : "") + " : (" + kTy[v.ty] + ") -> " + kTy[t], {t}), depth - 1, wide);
      }
      Walk(With(g, mc::fmt("N1(%s):%d", v.name.c_str(), t), "\"tf.IdentityN\"(" + v.name + ") : (" + kTy[v.ty] + ") -> " + kTy[t], {t}), depth - 1, wide);
    }
  for (auto& v : use)
    for (auto& w : use) {
      const bool one = v.name == w.name;
      for (int variant = 0; variant < (one || first || wide ? 2 : 1); ++variant) {
        const int t = variant && w.ty != 3 ? 1 : w.ty;
        if (variant && t == w.ty) continue;
        Walk(With(g, mc::fmt("N2(%s,%s):%d", v.name.c_str(), w.name.c_str(), t), "\"tf.IdentityN\"(" + v.name + ", " + w.name + ") : (" + kTy[v.ty] + ", " + kTy[w.ty] + ") -> (" + kTy[v.ty] + ", " + kTy[t] + ")", {v.ty, t}), depth - 1, wide);
      }
      if (&v <= &w || wide)
        Walk(With(g, mc::fmt("x(%s,%s)", v.name.c_str(), w.name.c_str()), "\"x.op\"(" + v.name + ", " + w.name + ") {k = " + std::to_string(g.n) + " : i32} : (" + kTy[v.ty] + ", " + kTy[w.ty] + ") -> (" + kTy[v.ty] + ", " + kTy[3] + ")", {v.ty, 3}), depth - 1, wide);
    }
  for (auto& v : use) {
    Walk(With(g, mc::fmt("call(%s)", v.name.c_str()), mc::fmt("\"func.call\"(%s) {callee = @g%d} : (%s) -> %s", v.name.c_str(), v.ty, kTy[v.ty], kTy[v.ty]), {v.ty}), depth - 1, wide);
    Walk(With(g, mc::fmt("region(%s)", v.name.c_str()),
              "\"x.region\"(" + v.name + ") ({\n  ^bb0(%i" + std::to_string(g.n) + ": " + kTy[v.ty] + "):\n    %j" + std::to_string(g.n) + " = \"tf.Identity\"(%i" + std::to_string(g.n) + ") : (" + kTy[v.ty] + ") -> " + kTy[v.ty] + "\n    %k" + std::to_string(g.n) +
                  " = \"tf.Snapshot\"(" + v.name + ") : (" + kTy[v.ty] + ") -> " + kTy[v.ty] + "\n    \"x.yield\"(%j" + std::to_string(g.n) + ", %k" + std::to_string(g.n) + ") : (" + kTy[v.ty] + ", " + kTy[v.ty] + ") -> ()\n  }) : (" + kTy[v.ty] + ") -> " + kTy[v.ty],
              {v.ty}), depth - 1, wide);
  }
  // constants
  struct K { const char* key; const char* value; int ty; const char* extra; };
  static const K ks[] = {{"splat", "dense<1.5> : tensor<2x3xf32>", 0, ""},
                         {"dense", "dense<[[1.0, 2.0, 3.0], [4.0, 5.0, -0.0]]> : tensor<2x3xf32>", 0, ""},
                         {"as-dynamic", "dense<2.5> : tensor<2x3xf32>", 1, ""},
                         {"as-unranked", "dense<3.5> : tensor<2x3xf32>", 2, ""},
                         {"ints", "dense<[1, -2, 3, 4]> : tensor<4xi32>", 3, ""},
                         {"sparse", "sparse<[[0, 1]], [7.0]> : tensor<2x3xf32>", 0, ""},
                         {"resource", "dense_resource<kk> : tensor<4xi32>", 3, "{-# dialect_resources: { builtin: { kk: \"0x0400000001000000020000000300000004000000\" } } #-}\n"}};
  for (auto& k : ks) {
    if (*k.extra && !g.extra.empty()) continue;
    Walk(With(g, std::string("const ") + k.key, std::string("\"tf.Const\"() {value = ") + k.value + "} : () -> " + kTy[k.ty], {k.ty}, k.extra), depth - 1, wide);
  }
}
// Constants of every element type and rank.
void Constants() {
  struct E { const char* ty; std::vector<const char*> v; };
  const std::vector<E> es = {{"f16", {"1.5", "-2.0"}}, {"bf16", {"1.5", "-2.0"}}, {"f32", {"0x7FC00000", "-0.0"}}, {"f64", {"1.5", "1.0e300"}}, {"i1", {"true", "false"}}, {"i8", {"-128", "7"}}, {"ui8", {"255", "0"}}, {"i16", {"-3", "4"}},
                             {"i32", {"5", "6"}}, {"i64", {"-9", "8"}}, {"ui64", {"9", "8"}}, {"complex<f32>", {"(1.0, 2.0)", "(0.0, -1.0)"}}, {"!tf.string", {"\"a\"", "\"bc\""}}};
  for (auto& e : es)
    for (const char* shape : {"", "2x", "1x2x", "2x1x1x1x1x", "0x", "3x0x"})
      for (int splat = 0; splat < 2; ++splat)
        for (const char* res : {"", "dyn", "unranked"}) {
          const std::string s = shape, t = "tensor<" + s + e.ty + ">";
          std::string v;
          const bool empty = s == "0x" || s == "3x0x";
          if (empty) {
            if (splat) continue;
            v = "";
          } else if (splat || s.empty()) {
            if (!splat) continue;
            v = e.v[0];
          } else {
            v = s == "2x" ? std::string("[") + e.v[0] + ", " + e.v[1] + "]" : s == "1x2x" ? std::string("[[") + e.v[0] + ", " + e.v[1] + "]]" : std::string("[[[[[") + e.v[0] + "]]]], [[[[" + e.v[1] + "]]]]]";
          }
          std::string r = t;
          if (*res == 'd') {
            if (s.empty()) continue;
            r = "tensor<?x" + s.substr(s.find('x') + 1) + e.ty + ">";
          } else if (*res) r = std::string("tensor<*x") + e.ty + ">";
          for (int through = 0; through < 2; ++through)
            EX->config([&]() { return "constant " + t + " " + v + " as " + r + (through ? " identity" : ""); },
                       [&]() {
                         Check("func.func @f() -> " + r + " {\n  %0 = \"tf.Const\"() {value = dense<" + v + "> : " + t + "} : () -> " + r + " loc(\"k\")\n" +
                               (through ? "  %1 = \"tf.Identity\"(%0) : (" + r + ") -> " + r + "\n  return %1 : " : "  return %0 : ") + r + "\n}\n");
                       });
        }
}
void Explore(bool th) {
  Graph g;
  g.vals = {{"%a", 0}, {"%b", 1}, {"%c", 3}};
  Walk(g, 2, true);
  Walk(g, 3, th);
  Constants();
}
}  // namespace
int main(int argc, char** argv) {
  return Main(argc, argv, [](const mc::Options& o, mc::Explorer& ex) { Explore(ex.thorough); });
}
