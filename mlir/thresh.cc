// M04: the bits of convolutions that write bitpacked output, for every
// accumulator value, against the sign of the real-valued output.
#include <math.h>

#include <set>

#include "common.h"
using namespace mlx;

namespace {
const char* kT[] = {"arm", "xcore"};
const char* kAct[] = {"NONE", "RELU", "RELU_N1_TO_1", "RELU6"};
struct Channel { float m, b; };
float Next(float f, int d) { return nextafterf(f, d > 0 ? INFINITY : -INFINITY); }
// Multipliers with biases at, and right beside, every sign change.
std::vector<Channel> Channels(int a, bool th) {
  std::vector<float> ms = {1, 0.5f, 1.0f / 3, 0.1f, 1e-3f, 1e-20f, 3e7f, 1.1754944e-38f, 0.0f, 2.0f / 3};
  if (th) for (float x : {0.7f, 1.7f, 3.0f, 7.0f, 0.013f, 1.0000001f, 0.99999994f, 1234.567f, 1e10f, 3e-30f}) ms.push_back(x);
  std::vector<Channel> r;
  for (float m0 : ms)
    for (int s = 0; s < 2; ++s) {
      const float m = s ? -m0 : m0;
      std::set<std::pair<float, bool>> bs;
      auto add = [&](float b) { if (fabsf(b) < 1e35f) bs.insert({b, std::signbit(b)}); };
      for (float b : {0.0f, -0.0f, 1e-9f, -1e-9f, 1e-30f, -1e-30f, 1.4e-45f, -1.4e-45f, 0.3f, -0.3f, 1e6f, -1e6f, 1e30f, -1e30f}) add(b);
      std::set<int> ks;
      for (int k = -a - 2; k <= a + 2; ++k) if (th || a <= 36 || k % 7 == 0 || abs(k) <= 7 || abs(k) >= a - 2) ks.insert(k);
      for (int k : {-6, 6, -7, 7}) ks.insert(k);
      for (int k : ks)
        for (int d = -1; d <= 1; ++d) {
          float b = k * m;
          add(d ? Next(b, d) : b);
          if (th || a <= 12) add((k + d * 0.5f) * m), add((k + d * 1e-3f) * m);
        }
      for (auto& b : bs) r.push_back({m, b.first});
    }
  return r;
}
// a: inputs per output = fh*fw*ci; windows do not overlap, window k differs from the weights in k positions.
void Check(int fh, int fw, int ci, int act, int same, int target, const std::vector<Channel>& ch, int wpat) {
  const int a = fh * fw * ci, n = (int)ch.size(), words = (ci + 31) / 32, px = a + 1;
  std::vector<double> w1, w, m, b;
  for (int i = 0; i < a; ++i) w1.push_back(wpat == 0 ? 1 : wpat == 1 ? ((i * 7 + i / 3) % 3 ? -1 : 1) : -1);
  std::vector<double> sgn(n, 1);
  for (int c = 0; c < n; ++c) {
    if (wpat == 1 && c % 3 == 1) sgn[c] = -1;
    for (double x : w1) w.push_back(sgn[c] * x);
    m.push_back(ch[c].m), b.push_back(ch[c].b);
  }
  const Shape in = {1, fh, (int64_t)fw * px, words}, fs = {n, fh, fw, ci}, os = {1, 1, px, n}, qs = {1, 1, px, (n + 31) / 32};
  Tensor x = Fill(in, "i32", [&](int) { return 0; });
  for (int k = 0; k < px; ++k)
    for (int i = 0; i < a; ++i) {
      const int y = i / ci / fw, xx = i / ci % fw, c = i % ci;
      bool neg = w1[i] < 0;
      if ((i * 5 + 3) % a < k) neg = !neg;  // k of the positions differ, if a and 5 are coprime
      if (!neg) continue;
      double& d = x.v[((int64_t)y * fw * px + k * fw + xx) * words + c / 32];
      d = (int32_t)((uint32_t)(int64_t)d | 1u << (c % 32));
    }
  const std::string common = mc::fmt("  %%w = arith.constant %s\n  %%m = arith.constant %s\n  %%b = arith.constant %s\n  %%none = \"tfl.no_value\"() {value} : () -> none\n", ev::Dense(w, fs, "f32").c_str(),
                                     ev::Dense(m, {n}, "f32").c_str(), ev::Dense(b, {n}, "f32").c_str());
  const std::string conv = mc::fmt(
      "  %%c = \"lq.Bconv2d\"(%%x, %%w, %%m, %%b, %%none) {channels_in = %d : i32, dilation_height_factor = 1 : i32, dilation_width_factor = 1 : i32, fused_activation_function = \"%s\", pad_values = %d : i32, padding = \"%s\", "
      "stride_height = %d : i32, stride_width = %d : i32} : (%s, %s, tensor<%dxf32>, tensor<%dxf32>, none) -> %s\n",
      ci, kAct[act], same, same ? "SAME" : "VALID", fh, fw, ev::Ty(in, "i32").c_str(), ev::Ty(fs, "f32").c_str(), n, n, ev::Ty(os, "f32").c_str());
  const std::string text = "func.func @f(%x: " + ev::Ty(in, "i32") + ") -> " + ev::Ty(qs, "i32") + " {\n" + common + conv + "  %q = \"lq.Quantize\"(%c) : (" + ev::Ty(os, "f32") + ") -> " + ev::Ty(qs, "i32") + "\n  return %q : " +
                           ev::Ty(qs, "i32") + "\n}\n";
  auto mod = ev::Parse(text);
  std::string diag, err;
  if (!ev::RunPasses(*mod, [=](OpPassManager& pm) { pm.addPass(TFL::CreateOptimizeLCEPass(target ? LCETarget::XCORE : LCETarget::ARM)); }, diag)) return EX->fail("the pass fails or produces invalid code: %s", diag.c_str());
  auto f = *mod->getOps<func::FuncOp>().begin();
  std::vector<Tensor> got;
  auto s = ev::Run(f, {x}, got, err);
  if (s == ev::UNSUPPORTED) { fprintf(stderr, "harness: %s\n", err.c_str()); exit(77); }
  if (s != ev::OK) return EX->fail("not executable: %s", err.c_str());
  if (got.size() != 1 || got[0].shape != qs) return EX->fail("wrong result shape");
  const double amin[] = {-(double)a, 0, -1, 0}, amax[] = {(double)a, (double)a, 1, 6};
  for (int k = 0; k < px; ++k)
    for (int c = 0; c < n; ++c) {
      // the interpreter's words are checked against this in K03/M03
      int mism = 0;
      for (int i = 0; i < a; ++i) mism += (i * 5 + 3) % a < k;
      if (sgn[c] < 0) mism = a - mism;
      const double acc = std::min(std::max((double)(a - 2 * mism), amin[act]), amax[act]);
      const double exact = acc * ch[c].m + ch[c].b;  // exact product; the sign of the sum is exact
      const float y = (float)((float)acc * ch[c].m) + ch[c].b, z = fmaf((float)acc, ch[c].m, ch[c].b);
      EX->eval(1);
      if ((y < 0) != (exact < 0) || (z < 0) != (exact < 0)) continue;  // within float rounding
      const int64_t word = (int64_t)got[0].v[k * qs[3] + c / 32];
      const bool bit = (uint32_t)word >> (c % 32) & 1;
      if (bit != (exact < 0)) {
        return EX->fail("accumulator %d (%d of %d differ), clamped to %g, multiplier %.9g, bias %.9g: output %.9g, but bit %d (%d convolutions with bits)", a - 2 * mism, mism, a, acc, ch[c].m, ch[c].b, exact, bit,
                        1 - (int)ev::CountOps(*mod, "lq.Quantize"));
      }
    }
  for (int64_t i = qs[3] - 1; i < (int64_t)got[0].v.size(); i += qs[3])
    if (n % 32 && (uint32_t)(int64_t)got[0].v[i] >> (n % 32)) return EX->fail("bits of absent channels are set");
  EX->outcome(got[0].v.data(), got[0].v.size() * sizeof(double));
}
void Explore(bool th) {
  struct G { int fh, fw, ci; };
  std::vector<G> gs = {{1, 1, 1}, {1, 1, 2}, {1, 1, 3}, {1, 1, 4}, {1, 2, 3}, {1, 1, 7}, {2, 2, 2}, {3, 3, 1}, {2, 3, 2}, {3, 3, 3}, {1, 1, 32}, {1, 1, 33}, {2, 1, 32}, {1, 1, 96}};
  if (th) for (G g : std::vector<G>{{1, 1, 5}, {1, 1, 6}, {1, 1, 8}, {5, 5, 1}, {1, 7, 7}, {3, 3, 16}, {3, 3, 32}, {3, 3, 64}, {2, 2, 129}, {1, 1, 1024}}) gs.push_back(g);
  for (auto& g : gs) {
    const int a = g.fh * g.fw * g.ci;
    // (of the larger ones, every accumulator needs 5 and a to be coprime)
    const auto all = Channels(a, th && a <= 200);
    const size_t part = a > 200 ? 64 : 300;
    for (size_t p = 0; p < all.size(); p += part)
      for (int act = 0; act < 4; ++act)
        for (int same = 0; same < 2; ++same)
          for (int target = 0; target < 2; ++target)
            for (int wp = 0; wp < 3; ++wp)
              EX->config([&]() { return mc::fmt("%s %dx%dx%d %s %s weights=%d channels %d..", kT[target], g.fh, g.fw, g.ci, kAct[act], same ? "SAME" : "VALID", wp, (int)p); },
                         [&]() { Check(g.fh, g.fw, g.ci, act, same, target, std::vector<Channel>(all.begin() + p, all.begin() + std::min(all.size(), p + part)), wp); });
  }
  // every number of channels around the word borders
  for (int n : {1, 2, 31, 32, 33, 63, 64, 65})
    for (int act = 0; act < 4; ++act)
      for (int target = 0; target < 2; ++target)
        EX->config([&]() { return mc::fmt("%s %d channels %s", kT[target], n, kAct[act]); }, [&]() {
          auto all = Channels(3, false);
          std::vector<Channel> c;
          for (int i = 0; i < n; ++i) c.push_back(all[i * 17 % all.size()]);
          Check(1, 1, 3, act, 0, target, c, 1);
        });
}
}  // namespace
int main(int argc, char** argv) {
  return Main(argc, argv, [](const mc::Options& o, mc::Explorer& ex) { Explore(ex.thorough); });
}
