// M01: the batch-size pass on every function signature of the bound.
//
// A configuration is a module of functions; the reference model works on the
// list of argument types.  Both the module the pass produced and the module
// written from the model's types are printed in generic form and compared, so
// any change outside the leading dimensions of arguments shows.
#include "larq_compute_engine/mlir/transforms/passes.h"
#include "mc.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"

namespace mlir {
std::unique_ptr<OperationPass<func::FuncOp>> CreateSetBatchSizePass();
}
using namespace mlir;

namespace {
mc::Explorer* EX;
MLIRContext* C;

struct Ty {
  std::string before, after;
};
// dims: -1 dynamic.  enc: encoding attribute text.
Ty Tensor(const std::vector<int>& d, const std::string& el, const std::string& enc = "") {
  auto s = [&](const std::vector<int>& v) {
    std::string r = "tensor<";
    for (int x : v) r += (x < 0 ? std::string("?") : std::to_string(x)) + "x";
    r += el;
    if (!enc.empty()) r += ", " + enc;
    return r + ">";
  };
  std::vector<int> a = d;
  if (!a.empty() && a[0] < 0) a[0] = 1;
  return {s(d), s(a)};
}
Ty Other(const std::string& t) { return {t, t}; }

enum Body { DECL, EMPTY, USES, BLOCKS, NESTED, NBODY };
const char* kBody[] = {"decl", "empty", "uses", "blocks", "nested"};

// One function; `after` selects the model's version.
std::string Func(const std::string& name, const std::vector<Ty>& args, const std::vector<std::string>& results, int body, bool attrs, bool after) {
  std::string s = body == DECL ? "func.func private @" + name : "func.func @" + name;
  s += "(";
  for (size_t i = 0; i < args.size(); ++i) {
    if (i) s += ", ";
    if (body != DECL) s += "%a" + std::to_string(i) + ": ";
    s += after ? args[i].after : args[i].before;
    if (attrs) s += " {tf_saved_model.index_path = [\"in" + std::to_string(i) + "\"], lq.n = " + std::to_string(i) + " : i64}";
  }
  s += ") -> (";
  for (size_t i = 0; i < results.size(); ++i) {
    if (i) s += ", ";
    s += results[i];
    if (attrs) s += " {tf_saved_model.index_path = [\"out" + std::to_string(i) + "\"]}";
  }
  s += ")";
  if (attrs) s += " attributes {tf.entry_function = {inputs = \"a\", outputs = \"b\"}, tf_saved_model.exported_names = [\"x\"]}";
  if (body == DECL) return s + "\n";
  s += " {\n";
  std::string at, an;
  for (size_t i = 0; i < args.size(); ++i) {
    at += (i ? ", " : "") + (after ? args[i].after : args[i].before);
    an += (i ? ", %a" : "%a") + std::to_string(i);
  }
  std::string rt, rn;
  for (size_t i = 0; i < results.size(); ++i) {
    rt += (i ? ", " : "") + results[i];
    rn += (i ? ", %r" : "%r") + std::to_string(i);
  }
  const std::string use = body == EMPTY ? "" : an, uset = body == EMPTY ? "" : at;
  if (body == BLOCKS) {
    s += "  \"x.br\"(" + use + ")[^b1] : (" + uset + ") -> ()\n";
    s += "^b1(%m0: tensor<?x3xf32>, %m1: tensor<?xf32>):\n";
    s += "  \"x.use\"(%m0, %m1) : (tensor<?x3xf32>, tensor<?xf32>) -> ()\n";
  }
  if (body == NESTED) {
    s += "  \"x.region\"(" + use + ") ({\n  ^b0(%z: tensor<?x2xf32>):\n    \"x.yield\"(%z) : (tensor<?x2xf32>) -> ()\n  }) {shape = tensor<?x4xf32>} : (" + uset + ") -> ()\n";
  }
  for (size_t i = 0; i < results.size(); ++i)
    s += "  %r" + std::to_string(i) + " = \"x.op\"(" + use + ") {t = tensor<?x7xf32>, k = " + std::to_string(i) + " : i32} : (" + uset + ") -> " + results[i] + "\n";
  s += "  return " + (results.empty() ? "" : rn + " : " + rt) + "\n}\n";
  return s;
}
std::string Print(ModuleOp m) {
  std::string r;
  llvm::raw_string_ostream os(r);
  OpPrintingFlags f;
  f.printGenericOpForm();
  m.getOperation()->print(os, f);
  return os.str();
}
struct F {
  std::vector<Ty> args;
  std::vector<std::string> res;
  int body;
  bool attrs;
};
void Check(const std::vector<F>& fs) {
  std::string src, exp;
  for (size_t i = 0; i < fs.size(); ++i) {
    const std::string n = "f" + std::to_string(i);
    src += Func(n, fs[i].args, fs[i].res, fs[i].body, fs[i].attrs, false);
    exp += Func(n, fs[i].args, fs[i].res, fs[i].body, fs[i].attrs, true);
  }
  ParserConfig pc(C);
  auto m = parseSourceString<ModuleOp>(src, pc), e = parseSourceString<ModuleOp>(exp, pc);
  if (!m || !e) { fprintf(stderr, "harness: cannot parse\n%s\n%s", src.c_str(), exp.c_str()); exit(77); }
  const std::string want = Print(*e);
  for (int round = 0; round < 2; ++round) {
    PassManager pm(C);
    pm.enableVerifier(false);
    pm.addNestedPass<func::FuncOp>(CreateSetBatchSizePass());
    if (failed(pm.run(*m))) { EX->fail("pass failed"); return; }
    EX->eval((int64_t)fs.size());
    const std::string got = Print(*m);
    EX->outcome(got.data(), got.size());
    if (got != want) { EX->fail("%s:\n%s\nexpected\n%s", round ? "second run changed the result" : "result", got.c_str(), want.c_str()); return; }
    for (auto f : m->getOps<func::FuncOp>())
      if (!f.isExternal()) {
        auto in = f.getFunctionType().getInputs();
        if (in.size() != f.getNumArguments()) { EX->fail("argument count"); return; }
        for (size_t i = 0; i < in.size(); ++i)
          if (in[i] != f.getArgument(i).getType()) { EX->fail("signature and entry block disagree at argument %zu", i); return; }
      }
    if (failed(verify(*m))) { EX->fail("result does not verify"); return; }
  }
}

std::vector<std::vector<int>> Dims(int maxrank, const std::vector<int>& vals) {
  std::vector<std::vector<int>> r = {{}};
  size_t lo = 0;
  for (int k = 0; k < maxrank; ++k) {
    const size_t hi = r.size();
    for (size_t i = lo; i < hi; ++i)
      for (int v : vals) {
        auto d = r[i];
        d.push_back(v);
        r.push_back(d);
      }
    lo = hi;
  }
  return r;
}

void Explore(bool th) {
  mc::Explorer& ex = *EX;
  const std::string Q = "!quant.uniform<i8:f32, 0.5:3>", QP = "!quant.uniform<i8<-127:127>:f32:0, {0.5,0.25}>";
  std::vector<Ty> one;
  for (auto& d : Dims(4, {-1, 1, 2, 0})) one.push_back(Tensor(d, "f32"));
  for (auto& d : Dims(6, {-1, 3})) one.push_back(Tensor(d, "i8"));
  for (const char* el : {"i1", "i32", "i64", "f16", "complex<f32>", "ui8", "index", "vector<2xf32>", "!x.opaque"})
    for (auto& d : Dims(3, {-1, 1, 5})) one.push_back(Tensor(d, el));
  for (auto& d : Dims(3, {-1, 1, 5})) {
    one.push_back(Tensor(d, Q));
    if (!d.empty() && d[0] != 1) one.push_back(Tensor(d, "f32", "\"enc\""));
    one.push_back(Tensor(d, "f32", "{a = 1 : i32}"));
  }
  one.push_back(Tensor({-1, 2}, QP));
  one.push_back(Tensor({-1, 1000000, -1}, "f32"));
  for (const char* t : {"tensor<*xf32>", "tensor<*xi8>", "f32", "index", "i1", "none", "vector<4xf32>", "vector<[4]xf32>", "memref<?x3xf32>", "memref<*xf32>", "tuple<tensor<?xf32>>", "tuple<>", "complex<f32>", "!x.resource<tensor<?x3xf32>>", "(tensor<?xf32>) -> tensor<?xf32>"})
    one.push_back(Other(t));
  const std::vector<std::string> RES = {"tensor<?x3xf32>", "tensor<1x3xf32>", "f32", "tensor<*xf32>"};
  for (size_t i = 0; i < one.size(); ++i)
    for (int b = 0; b < NBODY; ++b)
      for (int at = 0; at < 2; ++at)
        for (int r = 0; r < 3; ++r)
          ex.config([&]() { return mc::fmt("one %s body=%s attrs=%d results=%d", one[i].before.c_str(), kBody[b], at, r); }, [&]() {
            Check({{{one[i]}, std::vector<std::string>(RES.begin(), RES.begin() + r), b, at != 0}});
            ex.sample("argument becomes %s", one[i].after.c_str());
          });
  // several arguments
  std::vector<Ty> few = {Tensor({}, "f32"), Tensor({-1}, "f32"), Tensor({-1, -1}, "i8"), Tensor({1, -1}, "f32"), Tensor({4, 2}, "f32"), Tensor({-1, 2, 3, 4}, "f32"),
                         Tensor({-1, 2}, Q), Other("tensor<*xf32>"), Other("f32"), Other("memref<?xf32>"), Tensor({0, -1}, "f32"), Tensor({-1, 2}, "f32", "{a = 1 : i32}")};
  const int n = (int)few.size();
  for (int k = 0; k <= (th ? 5 : 4); ++k) {
    int total = 1;
    for (int i = 0; i < k; ++i) total *= n;
    for (int m = 0; m < total; ++m)
      for (int b = 0; b < NBODY; ++b) {
        std::vector<Ty> a;
        for (int i = 0, q = m; i < k; ++i, q /= n) a.push_back(few[q % n]);
        ex.config([&]() {
          std::string s = mc::fmt("args body=%s", kBody[b]);
          for (auto& t : a) s += " " + t.before;
          return s;
        }, [&]() { Check({{a, {RES[m % 4], RES[k % 4]}, b, (m + b) % 3 == 0}}); });
      }
  }
  // several functions in a module
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      for (int b = 0; b < NBODY * NBODY; ++b)
        ex.config([&]() { return mc::fmt("two %s / %s bodies=%s,%s", few[i].before.c_str(), few[j].before.c_str(), kBody[b % NBODY], kBody[b / NBODY]); },
                  [&]() { Check({{{few[i]}, {RES[0]}, b % NBODY, true}, {{few[j], few[i]}, {}, b / NBODY, false}}); });
}
}  // namespace
int main(int argc, char** argv) {
  mc::Options o = mc::parse(argc, argv);
  return mc::run(o, [&](mc::Explorer& ex) {
    EX = &ex;
    DialectRegistry reg;
    reg.insert<func::FuncDialect, quant::QuantizationDialect, arith::ArithDialect>();
    MLIRContext ctx(reg, MLIRContext::Threading::DISABLED);
    ctx.allowUnregisteredDialects();
    ctx.loadAllAvailableDialects();
    C = &ctx;
    Explore(ex.thorough);
  });
}
