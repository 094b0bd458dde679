// Shared parts of the pass explorers.
#ifndef VERIF_MLIR_COMMON_H_
#define VERIF_MLIR_COMMON_H_
#include "eval.h"
#include "larq_compute_engine/mlir/transforms/passes.h"
#include "mc.h"
#include "mlir/AsmParser/AsmParser.h"

namespace mlx {
using namespace mlir;
using ev::Shape;
using ev::Tensor;
inline mc::Explorer* EX;
using Build = std::function<void(OpPassManager&)>;
using Inputs = std::vector<std::vector<Tensor>>;

inline Type Elem(const std::string& s) {
  static std::map<std::string, Type> cache;
  auto& t = cache[s];
  if (!t) t = mlir::parseType(s, ev::C);
  if (!t) { fprintf(stderr, "harness: type %s\n", s.c_str()); exit(77); }
  return t;
}
inline Tensor T(const Shape& s, const std::string& el, const std::vector<double>& v) { return Tensor{s, v, Elem(el)}; }
// All values of a deterministic pattern
template <class F>
Tensor Fill(const Shape& s, const std::string& el, F f) {
  Tensor t{s, {}, Elem(el)};
  const int64_t n = t.n();
  for (int64_t i = 0; i < n; ++i) t.v.push_back(f(i));
  return t;
}

// The function @f computes the same before and after the passes, on every
// input; `after` sees the rewritten module.  False: the original already does
// not make sense.
// `known`: a class of failures, and the (non-empty) text of the function that is
// computed instead (or its first results).
struct Known { const char* name = nullptr; std::string text; };
inline bool Preserves(const std::string& text, const Build& build, const Inputs& ins, double tol = 0, const std::function<void(ModuleOp)>& after = {}, const Known& known = {}) {
  auto m = ev::Parse(text);
  auto f = *m->getOps<func::FuncOp>().begin();
  std::vector<std::vector<Tensor>> want(ins.size());
  std::string err;
  for (size_t i = 0; i < ins.size(); ++i) {
    auto s = ev::Run(f, ins[i], want[i], err);
    if (s == ev::UNSUPPORTED) { fprintf(stderr, "harness: %s\n", err.c_str()); exit(77); }
    if (s != ev::OK) return false;
  }
  std::string diag;
  FunctionType ft = f.getFunctionType();
  if (!ev::RunPasses(*m, build, diag)) { EX->fail("the pass fails or produces invalid code: %s\nfrom\n%s", diag.c_str(), text.c_str()); return true; }
  f = *m->getOps<func::FuncOp>().begin();
  if (f.getFunctionType() != ft) { EX->fail("the pass changes the function type\n%s", ev::Print(*m).c_str()); return true; }
  std::vector<std::vector<Tensor>> all(ins.size());
  for (size_t i = 0; i < ins.size(); ++i) {
    std::vector<Tensor>& got = all[i];
    auto s = ev::Run(f, ins[i], got, err);
    if (s == ev::UNSUPPORTED) { fprintf(stderr, "harness: %s\n", err.c_str()); exit(77); }
    EX->eval(2);
    std::string d = s == ev::ERROR ? "not executable: " + err : ev::Diff(want[i], got, tol);
    if (!d.empty()) {
      std::string in;
      for (auto& t : ins[i]) in += ev::Show(t) + " ";
      if (s == ev::OK && known.name && !known.text.empty()) {
        auto km = ev::Parse(known.text);
        bool same = true;
        for (size_t j = 0; j < ins.size() && same; ++j) {
          std::vector<Tensor> r;
          std::string e;
          if (j > i && ev::Run(f, ins[j], all[j], e) != ev::OK) same = false;
          else {
            same = ev::Run(*km->getOps<func::FuncOp>().begin(), ins[j], r, e) == ev::OK;
            for (size_t q = r.size(); q < want[j].size(); ++q) r.push_back(want[j][q]);
            same = same && ev::Diff(r, all[j], tol).empty();
          }
        }
        if (same) {
          EX->fail_class(known.name, d + "\ninput " + in.substr(0, 300) + "\nbefore\n" + text.substr(0, 1200) + "\nafter\n" + ev::Print(*m).substr(0, 1300));
          return true;
        }
      }
      EX->fail("%s\ninput %s\nbefore\n%s\nafter\n%s", d.c_str(), in.substr(0, 300).c_str(), text.substr(0, 1200).c_str(), ev::Print(*m).substr(0, 1300).c_str());
      return true;
    }
    for (auto& t : got) if (!t.v.empty()) EX->outcome(t.v.data(), t.v.size() * sizeof(double));
  }
  if (after) after(*m);
  return true;
}
inline int Main(int argc, char** argv, const std::function<void(const mc::Options&, mc::Explorer&)>& explore) {
  mc::Options o = mc::parse(argc, argv);
  return mc::run(o, [&](mc::Explorer& ex) {
    EX = &ex;
    DialectRegistry reg;
    ev::Register(reg);
    MLIRContext ctx(reg, MLIRContext::Threading::DISABLED);
    ctx.allowUnregisteredDialects();
    ctx.loadAllAvailableDialects();
    ev::Init(&ctx);
    explore(o, ex);
  });
}
}  // namespace mlx
#endif
