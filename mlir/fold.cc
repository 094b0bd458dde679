// M05: packing of weights and folding of (de)quantized constants.
#include <math.h>

#include "common.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/IR/AsmState.h"
#include "mlir/IR/DialectResourceBlobManager.h"
using namespace mlx;

namespace {
const char* kPass[] = {"bitpack-weights", "optimize-arm", "optimize-xcore", "quantize"};
Build Pass(int p) {
  return [=](OpPassManager& pm) {
    if (p == 0) pm.addPass(TFL::CreateBitpackWeightsLCEPass());
    else if (p == 3) pm.addPass(TFL::CreateLCEQuantizePass());
    else pm.addPass(TFL::CreateOptimizeLCEPass(p == 2 ? LCETarget::XCORE : LCETarget::ARM));
  };
}
// The constants of a module are placeholders "h.const" until they are filled in.
struct Mod {
  OwningOpRef<ModuleOp> m;
  explicit Mod(const std::string& text) : m(ev::Parse(text)) {}
  void fill(const std::vector<Attribute>& a) {
    std::vector<Operation*> ops;
    m->walk([&](Operation* o) { if (o->getName().getStringRef() == "h.const") ops.push_back(o); });
    for (size_t i = 0; i < ops.size(); ++i) {
      OpBuilder b(ops[i]);
      auto c = b.create<arith::ConstantOp>(ops[i]->getLoc(), ops[i]->getResult(0).getType(), cast<TypedAttr>(a[i]));
      ops[i]->getResult(0).replaceAllUsesWith(c);
      ops[i]->erase();
    }
  }
  func::FuncOp f() { return *m->getOps<func::FuncOp>().begin(); }
};
Attribute Make(const Tensor& t, bool resource) {
  auto type = RankedTensorType::get(t.shape, t.elem);
  Type e = t.elem;
  auto q = dyn_cast<quant::QuantizedType>(e);
  std::vector<char> raw;
  auto put = [&](auto x) { raw.insert(raw.end(), (char*)&x, (char*)&x + sizeof x); };
  if (e.isInteger(1) && !resource) {
    std::vector<bool> b;
    SmallVector<bool> v;
    for (double d : t.v) v.push_back(d != 0);
    return DenseElementsAttr::get(type, ArrayRef<bool>(v));
  }
  const int w = q ? q.getStorageTypeIntegralWidth() : e.isInteger(1) ? 8 : e.getIntOrFloatBitWidth();
  for (double d : t.v) {
    if (!q && isa<FloatType>(e)) {
      APFloat f(d);
      bool l;
      f.convert(cast<FloatType>(e).getFloatSemantics(), APFloat::rmNearestTiesToEven, &l);
      const uint64_t bits = f.bitcastToAPInt().getZExtValue();
      if (w == 16) put((uint16_t)bits);
      else if (w == 32) put((uint32_t)bits);
      else put(bits);
    } else if (w == 8) put((int8_t)(int64_t)d);
    else if (w == 16) put((int16_t)(int64_t)d);
    else if (w == 32) put((int32_t)(int64_t)d);
    else put((int64_t)d);
  }
  if (resource) {
    AsmResourceBlob blob = HeapAsmResourceBlob::allocateAndCopyWithAlign(ArrayRef<char>(raw), 8);
    return DenseResourceElementsAttr::get(type, "w", std::move(blob));
  }
  return DenseElementsAttr::getFromRawBuffer(type, raw);
}
enum { DENSE, RESOURCE, SPARSE, KINDS };
const char* kKind[] = {"dense", "resource", "sparse"};
Attribute MakeKind(const Tensor& t, int kind) {
  if (kind != SPARSE) return Make(t, kind == RESOURCE);
  // every second element is stored
  SmallVector<APInt> idx;
  std::vector<int64_t> flat;
  Tensor v{{0}, {}, t.elem};
  for (int64_t i = 0; i < t.n(); i += 2) {
    std::vector<int64_t> ix(t.shape.size());
    int64_t r = i;
    for (int d = (int)ix.size() - 1; d >= 0; --d) ix[d] = r % t.shape[d], r /= t.shape[d];
    flat.insert(flat.end(), ix.begin(), ix.end());
    v.v.push_back(t.v[i]);
  }
  v.shape = {(int64_t)v.v.size()};
  auto it = RankedTensorType::get({v.shape[0], (int64_t)t.shape.size()}, IntegerType::get(ev::C, 64));
  return SparseElementsAttr::get(RankedTensorType::get(t.shape, t.elem), DenseIntElementsAttr::get(it, ArrayRef<int64_t>(flat)), cast<DenseElementsAttr>(Make(v, false)));
}
// lq.Quantize or lq.Dequantize of a constant, folded in place: the function
// still returns what the operator computes, and if the runtime does not
// compute it, the operator and its operand stay.
void Fold(const char* op, const Tensor& t, const std::string& ty, const std::string& to, int kind, int pass) {
  // unfoldable constants are arguments for the reference
  const std::string body = std::string("  %r = \"") + op + "\"(%c) : (" + ty + ") -> " + to + "\n  return %r : " + to + "\n}\n";
  Mod ref("func.func @f(%c: " + ty + ") -> " + to + " {\n" + body), mod("func.func @f() -> " + to + " {\n  %c = \"h.const\"() : () -> " + ty + "\n" + body);
  std::vector<Tensor> want, got;
  std::string err, diag;
  Tensor x = t;
  if (kind == SPARSE) for (size_t i = 1; i < x.v.size(); i += 2) x.v[i] = 0;
  const auto s = ev::Run(ref.f(), {x}, want, err);
  if (s == ev::UNSUPPORTED) { fprintf(stderr, "harness: %s\n", err.c_str()); exit(77); }
  const Attribute att = MakeKind(t, kind);
  mod.fill({att});
  if (!ev::RunPasses(*mod.m, Pass(pass), diag)) return EX->fail("the pass fails or produces invalid code: %s", diag.c_str());
  EX->eval(2);
  Operation* ret = mod.f().front().getTerminator();
  Operation* def = ret->getOperand(0).getDefiningOp();
  if (def && def->getName().getStringRef() == op) {
    auto c = def->getOperand(0).getDefiningOp<arith::ConstantOp>();
    if (!c || c.getValue() != att) return EX->fail("the constant of an unfolded operator changed\n%s", ev::Print(*mod.m).c_str());
    return;
  }
  if (s == ev::ERROR) return EX->fail("an operator the runtime does not compute (%s) was folded\n%s", err.c_str(), ev::Print(*mod.m).c_str());
  if (ev::Run(mod.f(), {}, got, err) != ev::OK) return EX->fail("not executable: %s", err.c_str());
  const std::string d = ev::Diff(want, got);
  if (!d.empty()) return EX->fail("%s: of %s\n%s", d.c_str(), ev::Show(x).c_str(), ev::Print(*mod.m).c_str());
  EX->outcome(got[0].v.data(), got[0].v.size() * sizeof(double));
}
std::string Attrs(int ci, int act, int pad, int same, int sh, int dw) {
  static const char* a[] = {"NONE", "RELU", "RELU_N1_TO_1", "RELU6"};
  return mc::fmt("{channels_in = %d : i32, dilation_height_factor = 1 : i32, dilation_width_factor = %d : i32, fused_activation_function = \"%s\", pad_values = %d : i32, padding = \"%s\", stride_height = %d : i32, stride_width = 1 : i32}", ci,
                 dw, a[act], pad, same ? "SAME" : "VALID", sh);
}
// A filter through the weight packing: exactly these words, everything else as before.
void Weights(const Tensor& w, int kind, int users, int threshold, int act) {
  const Shape& s = w.shape;
  const int64_t ci = s.back(), words = (ci + 31) / 32, o = s[0];
  const std::string ft = ev::Ty(s, s.empty() ? "f32" : "f32"), attrs = Attrs((int)ci, act, act & 1, act & 1, 1 + act % 3, 1 + act % 2);
  const std::string mt = threshold ? "none" : mc::fmt("tensor<%dxf32>", (int)o), tt = threshold ? mc::fmt("tensor<%dxi32>", (int)o) : "none", ot = threshold ? "tensor<1x?x?x?xi32>" : "tensor<1x?x?x?xf32>";
  std::string t = "func.func @f(%x: tensor<1x?x?x?xi32>, %m: " + mt + ", %b: " + mt + ", %t: " + tt + ") -> (" + ot + (users & 1 ? ", " + ft : "") + (users & 2 ? ", " + ot : "") + ") {\n  %w = \"h.const\"() : () -> " + ft + "\n";
  auto conv = [&](const char* r) { t += std::string("  ") + r + " = \"lq.Bconv2d\"(%x, %w, %m, %b, %t) " + attrs + " : (tensor<1x?x?x?xi32>, " + ft + ", " + mt + ", " + mt + ", " + tt + ") -> " + ot + "\n"; };
  conv("%r");
  if (users & 2) conv("%r2");
  t += std::string("  return %r") + (users & 1 ? ", %w" : "") + (users & 2 ? ", %r2" : "") + " : " + ot + (users & 1 ? ", " + ft : "") + (users & 2 ? ", " + ot : "") + "\n}\n";
  Mod mod(t);
  const Attribute att = MakeKind(w, kind);
  mod.fill({att});
  std::vector<NamedAttribute> before, after;
  std::string diag;
  mod.m->walk([&](Operation* op) { if (op->getName().getStringRef() == "lq.Bconv2d") for (auto a : op->getAttrs()) before.push_back(a); });
  if (!ev::RunPasses(*mod.m, Pass(0), diag)) return EX->fail("the pass fails or produces invalid code: %s", diag.c_str());
  EX->eval(2);
  int n = 0;
  auto f = mod.f();
  mod.m->walk([&](Operation* op) {
    if (op->getName().getStringRef() != "lq.Bconv2d") return;
    ++n;
    for (auto a : op->getAttrs()) after.push_back(a);
    if (op->getOperand(0) != f.getArgument(0) || op->getOperand(2) != f.getArgument(1) || op->getOperand(3) != f.getArgument(2) || op->getOperand(4) != f.getArgument(3)) return EX->fail("operands changed\n%s", ev::Print(*mod.m).c_str());
    auto c = op->getOperand(1).getDefiningOp<arith::ConstantOp>();
    if (!c) return EX->fail("the filter is no constant");
    Tensor got;
    if (kind != DENSE || s.size() != 4) {
      if (c.getValue() != att) return EX->fail("a filter that cannot be packed changed\n%s", ev::Print(*mod.m).c_str());
      return;
    }
    if (!ev::FromAttr(c.getValue(), got)) return EX->fail("invalid filter constant\n%s", ev::Print(*mod.m).c_str());
    if (got.shape != Shape{s[0], s[1], s[2], words} || !got.elem.isInteger(32)) return EX->fail("the filter became %s\n%s", ev::ShapeText(got.shape).c_str(), ev::Print(*mod.m).c_str());
    for (int64_t r = 0; r < s[0] * s[1] * s[2]; ++r)
      for (int64_t k = 0; k < words; ++k) {
        uint32_t e = 0;
        for (int b = 0; b < 32 && k * 32 + b < ci; ++b) e |= (uint32_t)(w.v[r * ci + k * 32 + b] < 0) << b;
        if ((uint32_t)(int64_t)got.v[r * words + k] != e) return EX->fail("word %d of row %d is %08x instead of %08x", (int)k, (int)r, (uint32_t)(int64_t)got.v[r * words + k], e);
      }
    EX->outcome(got.v.data(), got.v.size() * sizeof(double));
  });
  if (n != (users & 2 ? 2 : 1) && !(n == 1 && (users & 2) && f.front().getTerminator()->getOperand(0) == f.front().getTerminator()->getOperand(f.front().getTerminator()->getNumOperands() - 1))) return EX->fail("%d convolutions are left\n%s", n, ev::Print(*mod.m).c_str());
  // (attributes: as many, the same)
  for (auto a : after) if (std::find(before.begin(), before.end(), a) == before.end()) return EX->fail("attribute %s changed", a.getName().str().c_str());
  if (after.size() != before.size() / (n == 1 && (users & 2) ? 2 : 1)) return EX->fail("attributes were dropped");
  if (users & 1) {
    auto c = f.front().getTerminator()->getOperand(1).getDefiningOp<arith::ConstantOp>();
    if (!c || c.getValue() != att) return EX->fail("the weights of another user changed");
  }
}
double Val(int64_t i) { static const double v[] = {0.5, -1, 2, 1, -2, 0.25, -0.5, 0, -0.0, -1e-30, 3e38, -3e38}; return v[i % 12]; }
void Explore(bool th) {
  // ---- weights: every sign pattern of tiny filters
  std::vector<Shape> tiny = {{1, 1, 1, 1}, {1, 1, 1, 2}, {2, 1, 1, 1}, {1, 2, 1, 2}, {2, 1, 2, 3}, {2, 2, 1, 2}, {1, 1, 3, 3}, {3, 1, 1, 3}, {1, 1, 1, 9}};
  if (th) for (auto s : std::vector<Shape>{{1, 1, 1, 18}, {2, 2, 2, 2}, {1, 3, 3, 2}, {17, 1, 1, 1}}) tiny.push_back(s);
  for (auto& s : tiny) {
    int64_t n = 1;
    for (auto d : s) n *= d;
    for (int64_t v = 0; v < 1 << n; ++v)
      EX->config([&]() { return mc::fmt("weights [%s] pattern %d", ev::ShapeText(s).c_str(), (int)v); }, [&]() { Weights(Fill(s, "f32", [&](int64_t i) { return v >> i & 1 ? -1.0 : 1.0; }), DENSE, 0, v & 1, v % 4); });
  }
  // every position of larger ones, both ways
  std::vector<Shape> big = {{1, 1, 1, 31}, {1, 1, 1, 32}, {1, 1, 1, 33}, {2, 1, 2, 33}, {1, 2, 1, 64}, {1, 1, 1, 65}, {2, 1, 1, 97}, {33, 1, 1, 2}};
  if (th) for (auto s : std::vector<Shape>{{3, 3, 3, 33}, {1, 1, 1, 128}, {1, 1, 1, 129}, {4, 2, 2, 63}, {64, 1, 1, 32}}) big.push_back(s);
  for (auto& s : big) {
    int64_t n = 1;
    for (auto d : s) n *= d;
    for (int64_t p = 0; p < n; ++p)
      for (int base = 0; base < 2; ++base)
        EX->config([&]() { return mc::fmt("weights [%s] position %d %d", ev::ShapeText(s).c_str(), (int)p, base); }, [&]() { Weights(Fill(s, "f32", [&](int64_t i) { return (i == p) != base ? -1.0 : 1.0; }), DENSE, p % 4, 0, 0); });
  }
  // all values, users and attributes; constants that cannot be packed
  const std::vector<Shape> forms = {{1, 1, 1, 1}, {2, 1, 2, 3}, {1, 1, 1, 33}, {2, 3, 1, 64}, {3}, {2, 3}, {2, 1, 3}, {1, 1, 1, 1, 3}, {2, 1, 2, 3, 4}};
  for (auto& s : forms)
    for (int kind = 0; kind < KINDS; ++kind)
      for (int users = 0; users < 4; ++users)
        for (int t = 0; t < 2; ++t)
          for (int act = 0; act < 4; ++act)
            for (int v = 0; v < 14; ++v)
              EX->config([&]() { return mc::fmt("weights [%s] %s users=%d threshold=%d act=%d values=%d", ev::ShapeText(s).c_str(), kKind[kind], users, t, act, v); },
                         [&]() { Weights(Fill(s, "f32", [&](int64_t i) { return v == 12 ? 1.0 : v == 13 ? -1.0 : Val(i + v); }), kind, users, t, act); });
  // ---- folding
  std::vector<Shape> shapes;
  const std::vector<int64_t> dims = {1, 2, 3}, chans = {1, 2, 31, 32, 33, 64, 65};
  for (int rank = 0; rank <= 5; ++rank) {
    if (rank == 0) { shapes.push_back({}); continue; }
    for (int64_t c : chans) {
      Shape s(rank, 1);
      s.back() = c;
      shapes.push_back(s);
      if (rank > 1) { s[0] = 2; shapes.push_back(s); s[rank - 2] = 3; shapes.push_back(s); }
    }
  }
  for (auto s : std::vector<Shape>{{0}, {0, 1, 1, 3}, {1, 0, 2, 3}, {2, 1, 2, 0}}) shapes.push_back(s);
  // every sign pattern, and back
  for (auto s : std::vector<Shape>{{1, 1, 1, 9}, {1, 1, 2, 5}, {2, 2, 2, 1}, {1, 2, 1, 5}, {3, 1, 1, 3}, {1, 1, 1, th ? 16 : 10}}) {
    int64_t n = 1;
    for (auto d : s) n *= d;
    for (int64_t v = 0; v < 1 << n; ++v) {
      Shape q = s;
      q.back() = 1;
      EX->config([&]() { return mc::fmt("quantize [%s] pattern %d", ev::ShapeText(s).c_str(), (int)v); }, [&]() { Fold("lq.Quantize", Fill(s, "f32", [&](int64_t i) { return v >> i & 1 ? -0.5 : i % 3 ? 0.25 : 0.0; }), ev::Ty(s, "f32"), ev::Ty(q, "i32"), DENSE, 1); });
      EX->config([&]() { return mc::fmt("dequantize [%s] pattern %d", ev::ShapeText(s).c_str(), (int)v); }, [&]() {
        Fold("lq.Dequantize", Fill(q, "i32", [&](int64_t i) { return (double)(v >> (i * s[3]) & ((1 << s[3]) - 1)); }), ev::Ty(q, "i32"), ev::Ty(s, "f32"), DENSE, 1);
      });
    }
  }
  for (int pass = 0; pass < 4; ++pass)
    for (const char* el : {"f32", "f16", "bf16", "f64", "i32", "i64", "i1", "!quant.uniform<i8:f32, 0.5:3>", "!quant.uniform<i16:f32, 0.5>", "!quant.uniform<i8:f32:0, {0.5,0.25}>"})
      for (auto& s : shapes)
        for (int kind = 0; kind < KINDS; ++kind)
          for (int dyn = 0; dyn < 2; ++dyn)
            for (int v = 0; v < 14; ++v) {
              if (el[0] == '!' && strstr(el, ":0,") && (s.empty() || s[0] != 2)) continue;
              if (el[0] == '!' && kind != RESOURCE) continue;  // (no dense constants of quantized types in MLIR)
              int64_t n = 1;
              for (auto d : s) n *= d;
              if ((kind == SPARSE && (!n || s.empty())) || (kind && el == std::string("i1")) || (n == 0 && v)) continue;
              if (kind && v > 1) continue;
              EX->config([&]() { return mc::fmt("%s quantize %s [%s] %s dynamic=%d values=%d", kPass[pass], el, ev::ShapeText(s).c_str(), kKind[kind], dyn, v); }, [&]() {
                Shape q = s;
                if (!q.empty()) q.back() = (q.back() + 31) / 32;
                if (dyn) for (auto& d : q) d = -1;
                Tensor t = Fill(s, el, [&](int64_t i) {
                  const double x = v == 12 ? 1 : v == 13 ? -1 : Val(i + v);
                  if (el[0] == 'f' && el[1] == '3') return x;
                  if (el == std::string("i1")) return (double)(x < 0);
                  return el[0] == 'i' || el[0] == '!' ? (double)(int)fmax(-100, fmin(100, x * 4)) : fmax(-1e4, fmin(1e4, x));
                });
                Fold("lq.Quantize", t, ev::Ty(s, el), ev::Ty(q, "i32"), kind, pass);
              });
            }
  for (int pass = 0; pass < 4; ++pass)
    for (const char* el : {"f32", "f16", "bf16", "f64", "i32", "i64", "i1", "!quant.uniform<i8:f32, 0.5:3>", "!quant.uniform<i8:f32, 0.0078125:-5>", "!quant.uniform<i8:f32, 3.0:127>", "!quant.uniform<i8<-127:127>:f32, 0.0078125:3>", "!quant.uniform<u8:f32, 0.5:3>",
                           "!quant.uniform<i16:f32, 0.5>", "!quant.uniform<i8:f32:0, {0.5,0.25}>"})
      for (auto& s : shapes)
        for (int kind = 0; kind < KINDS; ++kind)
          for (int dyn = 0; dyn < 2; ++dyn)
            for (int v = 0; v < 8; ++v) {
              if (strstr(el, ":0,") && (s.empty() || s[0] != 2)) continue;
              Shape q = s;
              if (!q.empty()) q.back() = (q.back() + 31) / 32;
              int64_t n = 1;
              for (auto d : q) n *= d;
              if ((kind == SPARSE && (!n || s.empty())) || (n == 0 && v)) continue;
              if (kind && v > 1) continue;
              EX->config([&]() { return mc::fmt("%s dequantize %s [%s] %s dynamic=%d values=%d", kPass[pass], el, ev::ShapeText(s).c_str(), kKind[kind], dyn, v); }, [&]() {
                Shape o = s;
                if (dyn) for (auto& d : o) d = -1;
                const uint32_t pat[] = {0, ~0u, 1, 0x80000000u, 0x55555555u, 0x12345678u, 2, 0xdeadbeefu};
                Tensor t = Fill(q, "i32", [&](int64_t i) { return (double)(int32_t)pat[(i * 3 + v) % 8]; });
                Fold("lq.Dequantize", t, ev::Ty(q, "i32"), ev::Ty(o, el), kind, pass);
              });
              // packed input of another size than the output wants
              if (!dyn && !kind && v < 2)
                for (int d = 0; d < (int)s.size(); ++d)
                  EX->config([&]() { return mc::fmt("%s dequantize %s [%s] off in dimension %d values=%d", kPass[pass], el, ev::ShapeText(s).c_str(), d, v); }, [&]() {
                    Shape q2 = q;
                    q2[d] += 1;
                    Fold("lq.Dequantize", Fill(q2, "i32", [&](int64_t i) { return (double)(i & 1); }), ev::Ty(q2, "i32"), ev::Ty(s, el), kind, pass);
                  });
            }
}
}  // namespace
int main(int argc, char** argv) {
  return Main(argc, argv, [](const mc::Options& o, mc::Explorer& ex) { Explore(ex.thorough); });
}
