// K12: what the LCE operator registration makes resolvable, and what the
// registered operators do.
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
#include "ops_common.h"
using namespace compute_engine::tflite;

namespace {
mc::Explorer* EX;

bool Accepts(const TfLiteRegistration* r, const Geo& g, int type, std::string* err) {
  OutSpec s = DyadicSpec(g, type);
  Bits w = Pattern(g.nW(), 5);
  ConvOp op(g, r, s, w);
  if (op.prep != kTfLiteOk) return false;
  for (int p = 0; p < 6; ++p) {
    Bits x = Pattern(g.nIn(), p);
    std::vector<int> acc;
    Model(g, x, w, acc);
    op.SetInput(g, x);
    if (op.Run() != kTfLiteOk) { *err = "invocation failed"; return true; }
    EX->eval();
    *err = Compare(g, s, acc, op.it.data<char>(op.out), op.it.bytes(op.out));
    EX->outcome(op.it.data<char>(op.out), op.it.bytes(op.out));
    if (!err->empty()) return true;
  }
  return true;
}
// Which implementation is behind a registration (its documented support).
std::string Which(const TfLiteRegistration* r) {
  std::string e;
  Geo plain;
  plain.H = 3; plain.W = 2; plain.Ci = 34; plain.Co = 3; plain.fh = 2; plain.fw = 2; plain.pad = SAME_ONE; plain.act = 1;
  for (int t : {FLOAT, INT8, BITS})
    if (!Accepts(r, plain, t, &e) || !e.empty()) return "not a convolution: " + e;
  Geo zero = plain;
  zero.pad = SAME_ZERO;
  const bool z = Accepts(r, zero, FLOAT, &e);
  if (!e.empty()) return "wrong: " + e;
  Geo grp = plain;
  grp.Ci = 64; grp.Co = 4; grp.groups = 2;
  const bool g = Accepts(r, grp, FLOAT, &e);
  if (!e.empty()) return "wrong: " + e;
  if (z && g) return "reference";
  if (!z && !g) return "optimized";
  if (!z && g) return "indirect";
  return "unknown";
}
std::string Unary(const TfLiteRegistration* q, const TfLiteRegistration* d, const TfLiteRegistration* p) {
  for (int n : {1, 31, 32, 33, 70})
    for (int k = 0; k < 6; ++k) {
      Bits b = Pattern(2 * n, k);
      std::vector<float> v(2 * n);
      for (int i = 0; i < 2 * n; ++i) v[i] = b[i] ? -1.f : 1.f;
      auto packed = Pack(b, 2, n);
      UnaryOp Q(q, kTfLiteFloat32, {2, n}, 0, 0, kTfLiteInt32, {2, n}, 0, 0);
      if (Q.prep != kTfLiteOk) return "LceQuantize rejects a supported configuration";
      Q.it.Set(Q.in, v.data(), v.size() * 4);
      EX->eval(3);
      if (Q.Run() != kTfLiteOk || Q.it.bytes(Q.out) != packed.size() * 4 || memcmp(Q.it.data<char>(Q.out), packed.data(), packed.size() * 4)) return "LceQuantize result";
      UnaryOp D(d, kTfLiteInt32, {2, Words(n)}, 0, 0, kTfLiteFloat32, {2, n}, 0, 0);
      if (D.prep != kTfLiteOk) return "LceDequantize rejects a supported configuration";
      D.it.Set(D.in, packed.data(), packed.size() * 4);
      if (D.Run() != kTfLiteOk || memcmp(D.it.data<char>(D.out), v.data(), v.size() * 4)) return "LceDequantize result";
      PoolGeo g;
      g.B = 1; g.H = 2; g.W = 1; g.C = n; g.fh = 2; g.fw = 1; g.pad = SAME_ONE;
      UnaryOp P(p, kTfLiteInt32, {1, 2, 1, Words(n)}, 0, 0, kTfLiteInt32, {}, 0, 0, PoolOptions(g));
      if (P.prep != kTfLiteOk) return "LceBMaxPool2d rejects a supported configuration";
      std::vector<uint32_t> in(packed.begin(), packed.end());
      auto want = PoolModel(g, in);
      P.it.Set(P.in, in.data(), in.size() * 4);
      if (P.Run() != kTfLiteOk || P.it.bytes(P.out) != want.size() * 4 || memcmp(P.it.data<char>(P.out), want.data(), want.size() * 4)) return "LceBMaxPool2d result";
    }
  return "";
}
struct Res : ::tflite::MutableOpResolver {
  size_t nc() const { return custom_ops_.size(); }
  size_t nb() const { return builtins_.size(); }
};
bool Same(const TfLiteRegistration& a, const TfLiteRegistration& b) {
  return a.init == b.init && a.free == b.free && a.prepare == b.prepare && a.invoke == b.invoke;
}
TfLiteRegistration Foreign(int i) {
  TfLiteRegistration r{};
  r.builtin_code = i;
  r.invoke = [](TfLiteContext*, TfLiteNode*) { return kTfLiteError; };
  if (i % 2) r.prepare = [](TfLiteContext*, TfLiteNode*) { return kTfLiteError; };
  return r;
}
#ifdef TFLITE_WITH_RUY
const char* kDefault = "optimized";
#else
const char* kDefault = "reference";
#endif
// -1: argument left out
const int F[7][2] = {{-1, -1}, {0, -1}, {1, -1}, {0, 0}, {0, 1}, {1, 0}, {1, 1}};
void Register(Res* r, int k) {
  if (F[k][0] < 0) RegisterLCECustomOps(r);
  else if (F[k][1] < 0) RegisterLCECustomOps(r, F[k][0] != 0);
  else RegisterLCECustomOps(r, F[k][0] != 0, F[k][1] != 0);
}
std::string Expect(int k) {
  return F[k][0] == 1 ? "reference" : F[k][1] == 1 ? "indirect" : kDefault;
}

void Explore(bool th) {
  mc::Explorer& ex = *EX;
  // histories of registrations on two resolvers, resolver contents beforehand
  std::vector<std::vector<int>> hist;
  for (int a = 0; a < 14; ++a) {
    hist.push_back({a});
    for (int b = 0; b < 14; ++b) {
      hist.push_back({a, b});
      for (int c = 0; c < (th ? 14 : 0); ++c) hist.push_back({a, b, c});
    }
  }
  for (int pre = 0; pre < 4; ++pre)
    for (auto& h : hist)
      ex.config([&]() {
        std::string s = mc::fmt("register pre=%d", pre);
        for (int k : h) s += mc::fmt(" r%d(%d,%d)", k / 7, F[k % 7][0], F[k % 7][1]);
        return s;
      }, [&]() {
        Res r[2];
        std::vector<std::pair<std::string, int>> cust;
        std::vector<int> built;
        if (pre & 1) {
          cust = {{"Other", 1}, {"LceQuantize", 2}, {"LceBconv2dX", 1}, {"lcequantize", 1}, {"", 1}, {"LceBconv2d", 7}};
          if (pre & 2) cust.push_back({"LceBconv2d", 1});
        }
        if (pre & 2) built = {0, 3, 17, 114};
        for (auto& x : r) {
          int i = 0;
          for (auto& c : cust) { auto f = Foreign(i++); x.AddCustom(c.first.c_str(), &f, c.second); }
          for (int b : built) { auto f = Foreign(i++); x.AddBuiltin((::tflite::BuiltinOperator)b, &f, 1 + b % 2); }
        }
        int last[2] = {-1, -1};
        for (int k : h) { Register(&r[k / 7], k % 7); last[k / 7] = k % 7; ex.eval(); }
        for (int w = 0; w < 2; ++w) {
          size_t expected = cust.size();
          auto has = [&](const char* n) { for (auto& c : cust) if (c.first == n && c.second == 1) return true; return false; };
          if (last[w] >= 0) for (const char* n : {"LceQuantize", "LceDequantize", "LceBconv2d", "LceBMaxPool2d"}) expected += !has(n);
          if (r[w].nc() != expected || r[w].nb() != built.size()) {
            ex.fail("resolver %d: %zu custom and %zu builtin operators resolvable, expected %zu and %zu", w, r[w].nc(), r[w].nb(), expected, built.size());
            return;
          }
          int i = 0;
          for (auto& c : cust) {
            auto f = Foreign(i++);
            auto* g = r[w].FindOp(c.first.c_str(), c.second);
            if (last[w] >= 0 && c.first == "LceBconv2d" && c.second == 1) continue;
            if (!g || !Same(*g, f)) { ex.fail("foreign operator %s v%d changed", c.first.c_str(), c.second); return; }
          }
          for (int b : built) {
            auto f = Foreign(i++);
            auto* g = r[w].FindOp((::tflite::BuiltinOperator)b, 1 + b % 2);
            if (!g || !Same(*g, f)) { ex.fail("builtin operator %d changed", b); return; }
          }
          if (last[w] < 0) continue;
          auto* q = r[w].FindOp("LceQuantize", 1);
          auto* d = r[w].FindOp("LceDequantize", 1);
          auto* p = r[w].FindOp("LceBMaxPool2d", 1);
          auto* b = r[w].FindOp("LceBconv2d", 1);
          if (!q || !d || !p || !b) { ex.fail("operator not resolvable"); return; }
          std::string e = Unary(q, d, p);
          if (!e.empty()) { ex.fail("%s", e.c_str()); return; }
          e = Which(b);
          if (e != Expect(last[w])) { ex.fail("resolver %d: LceBconv2d resolves to '%s', expected '%s'", w, e.c_str(), Expect(last[w]).c_str()); return; }
        }
        ex.sample("as expected");
      });
  // registrations stay what they are, in whatever order they are obtained
  typedef TfLiteRegistration* (*Fn)();
  const Fn fn[4] = {Register_BCONV_2D, Register_BCONV_2D_REF, Register_BCONV_2D_OPT_BGEMM, Register_BCONV_2D_OPT_INDIRECT_BGEMM};
  const char* want[4] = {kDefault, "reference", "optimized", "indirect"};
  for (int a = 0; a < 4; ++a)
    for (int b = 0; b < 4; ++b)
      for (int c = 0; c < 4; ++c)
        ex.config([&]() { return mc::fmt("obtain %d %d %d", a, b, c); }, [&]() {
          const TfLiteRegistration* r[3] = {fn[a](), fn[b](), fn[c]()};
          const int k[3] = {a, b, c};
          for (int i = 0; i < 3; ++i) {
            std::string e = Which(r[i]);
            if (e != want[k[i]]) { ex.fail("registration %d is '%s', expected '%s'", i, e.c_str(), want[k[i]]); return; }
          }
        });
}
}  // namespace
int main(int argc, char** argv) {
  mc::Options o = mc::parse(argc, argv);
  return mc::run(o, [&](mc::Explorer& ex) {
    EX = &ex;
    Explore(ex.thorough);
  });
}
