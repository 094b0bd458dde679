// K01-K05, A01: exhaustive exploration of the LceBconv2d operator.
#include <cstring>

#include "ops_common.h"
#if defined(LCE_A64) || defined(LCE_A32)
#include "shim.h"
#endif
#ifdef LCE_A64
namespace arm = a64;
constexpr bool kA32 = false;
#elif defined(LCE_A32)
namespace arm = a32;
constexpr bool kA32 = true;
#else
constexpr bool kA32 = false;
#endif

namespace {
struct Case {
  const char* grid;
  Geo g;
  int level;    // 0 all bits, 1 baselines + single flips, 2 baselines
  int variant;  // output constants
  OutSpec spec;
  bool has_spec = false;
};

std::string Prop;
mc::Explorer* EX;
#if defined(LCE_A64) || defined(LCE_A32)
constexpr bool kA64 = true;  // the operators are those of an ARM program (a64/, a32/)
// Schedules of the matrix multiplication, in kernel blocks per cell.
constexpr int kCells[][2] = {{0, 0}, {1, 1}, {2, 1}, {1, 3}};
void Cells(int k) { arm::Cells(kCells[k][0], kCells[k][1]); }
#else
constexpr bool kA64 = false;
void Cells(int) {}
#endif

void ContentsOf(const Case& c, std::vector<std::pair<Bits, std::vector<Bits>>>& o) {
  const int nw = c.g.nW(), ni = c.g.nIn();
  if (c.level == 0) {
    auto xs = AllBits(ni);
    for (auto& w : AllBits(nw)) o.push_back({w, xs});
    return;
  }
  std::vector<Bits> xs;
  for (int p = 0; p < 4; ++p) xs.push_back(Pattern(ni, p));
  if (c.level == 2) {
    o.push_back({Pattern(nw, 5), {xs[1], xs[2]}});
    o.push_back({Pattern(nw, 1), {xs[0], xs[3]}});
    return;
  }
  o.push_back({Pattern(nw, 0), xs});
  o.push_back({Pattern(nw, 1), xs});
  // every input position on its own
  for (auto& f : Flips(ni, 2, kA32 ? 96 : 160)) xs.push_back(f);
  o.push_back({Pattern(nw, 4), xs});
  // every weight position on its own
  for (auto& f : Flips(nw, 5, kA32 ? 60 : 80)) o.push_back({f, {Pattern(ni, 3)}});
}

std::string ShowBits(const Bits& b) {
  std::string s;
  for (size_t i = 0; i < b.size() && i < 96; ++i) s += b[i] ? '1' : '0';
  if (b.size() > 96) s += "...";
  return s;
}

bool OutputsAgree(const OutSpec& s, const Geo& g, const std::vector<char>& a,
                  const std::vector<char>& b, std::string* why) {
  if (a.size() != b.size()) { *why = "different output sizes"; return false; }
  if (s.type == FLOAT) {
    const float *x = (const float*)a.data(), *y = (const float*)b.data();
    for (size_t i = 0; i < a.size() / 4; ++i) {
      const int c = i % g.Co;
      double tol = 0;
      // The zero-padding correction is a separately rounded float sum.
      if (g.pad == SAME_ZERO && !s.exact)
        tol = 4e-7 * (4.0 * g.K() * std::fabs(s.mul[c]) + 2 * std::fabs(s.bias[c]));
      if (!(x[i] == y[i] || std::fabs((double)x[i] - y[i]) <= tol ||
            (std::isnan(x[i]) && std::isnan(y[i])))) {
        *why = mc::fmt("element %zu: %.9g vs %.9g", i, x[i], y[i]);
        return false;
      }
    }
    return true;
  }
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i] != b[i]) {
      *why = mc::fmt("byte %zu: 0x%02x vs 0x%02x", i, (uint8_t)a[i], (uint8_t)b[i]);
      return false;
    }
  return true;
}

// K05: outputs must not depend on what lies behind the tensors, on the old
// contents of the output or of temporaries; nothing but the output is written.
// `make` builds and fills an interpreter for the given slack / fresh fills.
void MemCheck(const char* what, const std::function<std::unique_ptr<Interp>(uint8_t, uint8_t)>& make, int out) {
  mc::Explorer& ex = *EX;
  std::vector<char> first;
  static const uint8_t F[][2] = {{0x00, 0xFF}, {0xFF, 0x00}, {0x5A, 0xA5}};
  for (auto& f : F) {
    auto it = make(f[0], f[1]);
    if (!it) return;
    std::vector<std::vector<char>> before(it->nt);
    for (int i = 0; i < it->nt; ++i)
      if (i != out && it->tensors[i].data.raw)
        before[i].assign(it->data<char>(i), it->data<char>(i) + it->bytes(i));
    const int nt = it->nt;
    int rounds = 2;
    while (rounds--) {
      if (it->Invoke() != kTfLiteOk) { ex.fail("%s: invocation failed: %s", what, it->error.c_str()); return; }
      ex.eval(1);
      int d = it->SlackDamaged();
      if (d >= 0) { ex.fail("%s: wrote behind tensor %d", what, d); return; }
      std::vector<char> o(it->data<char>(out), it->data<char>(out) + it->bytes(out));
      if (first.empty()) first = o;
      else if (o != first) {
        size_t i = 0;
        while (o[i] == first[i]) ++i;
        ex.fail("%s: output byte %zu depends on memory outside the inputs (0x%02x / 0x%02x)", what, i, (uint8_t)first[i], (uint8_t)o[i]);
        return;
      }
    }
    for (int i = 0; i < nt; ++i) {
      bool is_in = false;
      for (auto& n : it->nodes)
        for (int k = 0; k < n->n.inputs->size; ++k) is_in |= n->n.inputs->data[k] == i;
      if (is_in && !before[i].empty() && memcmp(before[i].data(), it->data<char>(i), before[i].size())) {
        ex.fail("%s: modified its input %d", what, i);
        return;
      }
    }
  }
}
void RunMem(const Case& c, int type) {
  const Geo& g = c.g;
  for (int k = 0; k < 3; ++k) {
    if (!g.supported(k, type)) continue;
    EX->config([&]() { return mc::fmt("%s %s out=%s v%d %s", c.grid, g.str().c_str(), kOutN[type], c.variant, kKernN[k]); },
               [&]() {
                 OutSpec spec = c.has_spec ? c.spec : DyadicSpec(g, type, c.variant);
                 spec.type = type;
                 for (int p : {2, 1}) {
                   int out = 0;
                   std::vector<std::unique_ptr<ConvOp>> keep;
                   const Bits wb = Pattern(g.nW(), p == 2 ? 5 : 1), xb = Pattern(g.nIn(), p);
                   {
                     ConvOp probe(g, Reg(k), spec, wb);
                     if (probe.prep != kTfLiteOk) { EX->fail("supported configuration rejected"); return; }
                     out = probe.out;
                     EX->sh->accepted++;
                   }
                   MemCheck(kKernN[k], [&](uint8_t slack, uint8_t fresh) {
                     auto it = std::make_unique<Interp>();
                     it->slack_fill = slack;
                     it->fresh_fill = fresh;
                     int in = it->Tensor(kTfLiteInt32, {g.B, g.H, g.W, g.Cw()});
                     int w = it->Tensor(kTfLiteInt32, {g.Co, g.fh, g.fw, g.Cgw()}, kTfLiteMmapRo);
                     auto pw = Pack(wb, g.Co * g.fh * g.fw, g.Cg());
                     it->Set(w, pw.data(), pw.size() * 4);
                     int mul = -1, bias = -1, thr = -1;
                     if (type == BITS) {
                       thr = it->Tensor(kTfLiteInt32, {g.Co}, kTfLiteMmapRo);
                       it->Set(thr, spec.thr.data(), spec.thr.size() * 4);
                     } else {
                       mul = it->Tensor(kTfLiteFloat32, {g.Co}, kTfLiteMmapRo);
                       bias = it->Tensor(kTfLiteFloat32, {g.Co}, kTfLiteMmapRo);
                       it->Set(mul, spec.mul.data(), spec.mul.size() * 4);
                       it->Set(bias, spec.bias.data(), spec.bias.size() * 4);
                     }
                     int o = type == INT8 ? it->Tensor(kTfLiteInt8, {}, kTfLiteArenaRw, spec.scale, spec.zp)
                                          : it->Tensor(type == FLOAT ? kTfLiteFloat32 : kTfLiteInt32, {});
                     it->Node(Reg(k), {in, w, mul, bias, thr}, {o}, ConvOptions(g));
                     if (o != out) abort();
                     if (it->Allocate() != kTfLiteOk) { EX->fail("allocation failed"); return std::unique_ptr<Interp>(); }
                     auto px = Pack(xb, g.B * g.H * g.W, g.Ci);
                     it->Set(in, px.data(), px.size() * 4);
                     return it;
                   }, out);
                   if (EX->failed_here) return;
                 }
                 EX->sample("3 surroundings x 2 invocations, 2 contents");
               });
  }
}
void MemUnary(bool thorough) {
  using namespace compute_engine::tflite;
  mc::Explorer& ex = *EX;
  static const TfLiteType T[] = {kTfLiteFloat32, kTfLiteInt8, kTfLiteBool};
  auto run = [&](const std::string& name, const TfLiteRegistration* r, TfLiteType ti, std::vector<int> di, TfLiteType to, std::vector<int> dout, int zp, std::vector<uint8_t> opt) {
    ex.config([&]() { return name + " " + DimStr(di); }, [&]() {
      ex.sh->accepted++;
      MemCheck(name.c_str(), [&](uint8_t slack, uint8_t fresh) {
        auto it = std::make_unique<Interp>();
        it->slack_fill = slack;
        it->fresh_fill = fresh;
        int a = it->Tensor(ti, di, kTfLiteArenaRw, 0.25f, zp), o = it->Tensor(to, dout, kTfLiteArenaRw, 0.25f, zp);
        it->Node(r, {a}, {o}, opt);
        if (it->Allocate() != kTfLiteOk) { ex.fail("supported configuration rejected: %s", it->error.c_str()); return std::unique_ptr<Interp>(); }
        std::vector<uint8_t> v(it->bytes(a));
        for (size_t i = 0; i < v.size(); ++i) v[i] = ti == kTfLiteBool ? Mix(i) & 1 : (uint8_t)Mix(i);
        if (ti == kTfLiteFloat32)
          for (size_t i = 0; i < v.size() / 4; ++i) ((float*)v.data())[i] = (float)(int)(Mix(i) % 9) - 4;
        it->Set(a, v.data(), v.size());
        return it;
      }, 1);
    });
  };
  for (int n = 1; n <= (thorough ? 300 : 200); ++n)
    for (int rows : {1, 2, 3, 5})
      for (int t = 0; t < 3; ++t)
        for (int zp : {-128, -3, 127, 200, -200}) {
          if (t != 1 && zp != -3) continue;
          std::vector<int> d = {rows, n}, p = {rows, Words(n)};
          run(mc::fmt("quantize type%d zp%d", t, zp), Register_QUANTIZE(), T[t], d, kTfLiteInt32, p, zp, {});
          run(mc::fmt("dequantize type%d zp%d n%d", t, zp, n), Register_DEQUANTIZE(), kTfLiteInt32, p, T[t], d, std::min(127, std::max(-128, zp)), {});
        }
  PoolGeo g;
  for (int H = 1; H <= 5; ++H)
    for (int W = 1; W <= 5; ++W)
      for (int C : {32, 70})
        for (int fh = 1; fh <= 6; fh += (thorough ? 1 : 1))
          for (int fw = 1; fw <= 4; ++fw)
            for (int sh = 1; sh <= 4; ++sh)
              for (int sw = 1; sw <= 3; ++sw)
                for (int pad : {VALID, SAME_ZERO}) {
                  g.B = 2; g.H = H; g.W = W; g.C = C; g.fh = fh; g.fw = fw; g.sh = sh; g.sw = sw; g.pad = pad;
                  if (!g.valid()) continue;
                  run("maxpool " + g.str(), Register_BMAXPOOL_2D(), kTfLiteInt32, {2, H, W, Words(C)}, kTfLiteInt32, {1, 1, 1, 1}, 0, PoolOptions(g));
                }
}

void RunCase(const Case& c, int type) {
  mc::Explorer& ex = *EX;
  const Geo& g = c.g;
  if (Prop == "K05") { RunMem(c, type); return; }
  std::vector<int> kerns;
  for (int k = 0; k < 3; ++k)
    if (g.supported(k, type)) kerns.push_back(k);
  if (kerns.empty() || (Prop == "K02" && kerns.size() < 2)) return;
  ex.config(
      [&]() {
        return mc::fmt("%s %s out=%s v%d %s", c.grid, g.str().c_str(),
                       kOutN[type], c.variant, c.level == 0 ? "all" : c.level == 1 ? "flips" : "base");
      },
      [&]() {
        OutSpec spec = c.has_spec ? c.spec : DyadicSpec(g, type, c.variant);
        spec.type = type;
        std::vector<std::pair<Bits, std::vector<Bits>>> cont;
        ContentsOf(c, cont);
        const auto want = ExpectedDims(g, type);
        std::vector<int> acc;
        for (auto& wx : cont) {
          std::vector<std::unique_ptr<ConvOp>> ops;
          std::vector<int> used;
          for (int k : kerns) {
            // (the portable kernels, covered in full on the host, with two weights only)
            if (kA32 && k != BGEMM && std::count(kerns.begin(), kerns.end(), BGEMM) && &wx - &cont[0] > 1) continue;
            used.push_back(k);
            ops.emplace_back(new ConvOp(g, Reg(k), spec, wx.first));
            ConvOp& op = *ops.back();
            if (op.prep != kTfLiteOk) {
              ex.fail("%s: supported configuration rejected: %s", kKernN[k],
                      op.it.error.c_str());
              return;
            }
            if (op.it.dims(op.out) != want) {
              ex.fail("%s: wrong output shape", kKernN[k]);
              return;
            }
            ex.sh->accepted++;
          }
          for (auto& x : wx.second) {
            if (Prop != "K02") Model(g, x, wx.first, acc);
            std::vector<char> first;
            for (size_t i = 0; i < ops.size(); ++i) {
              ConvOp& op = *ops[i];
              op.SetInput(g, x);
              for (int cells = 0; cells < (kA64 && used[i] == BGEMM ? 4 : 1); ++cells) {
              if (kA64) Cells(cells);
              if (op.Run() != kTfLiteOk) {
                ex.fail("%s: invocation failed: %s", kKernN[used[i]], op.it.error.c_str());
                return;
              }
              const char* raw = op.it.data<char>(op.out);
              const size_t n = op.it.bytes(op.out);
              ex.eval(1);
              if (!(ex.sh->evals & 63)) ex.outcome(raw, n);
              if (op.it.SlackDamaged() >= 0) {
                ex.fail("%s: wrote behind a tensor", kKernN[used[i]]);
                return;
              }
              if (Prop == "K02") {
                if (i == 0) first.assign(raw, raw + n);
                else {
                  std::string why;
                  std::vector<char> o(raw, raw + n);
                  if (!OutputsAgree(spec, g, first, o, &why)) {
                    ex.fail("%s and %s differ at %s; w=%s x=%s", kKernN[used[0]],
                            kKernN[used[i]], why.c_str(), ShowBits(wx.first).c_str(),
                            ShowBits(x).c_str());
                    return;
                  }
                }
              } else {
                std::string e = Compare(g, spec, acc, raw, n);
                if (!e.empty()) {
                  ex.fail("%s: %s; w=%s x=%s", kKernN[used[i]], e.c_str(),
                          ShowBits(wx.first).c_str(), ShowBits(x).c_str());
                  return;
                }
              }
              }
            }
          }
        }
        ex.sample("%zu weight settings, %zu inputs for the last", cont.size(),
                  cont.back().second.size());
      });
}

}  // namespace
namespace {
// The spaces.
void Explore(int type, bool thorough) {
  auto go = [&](const char* grid, Geo g, int level, int variant = 0) {
    if (!g.valid()) return;
    Case c{grid, g, level, variant, {}, false};
    RunCase(c, type);
  };
  Geo g;
  // G4: tiny shapes, every weight and input bit assignment.
  {
    const int cap = kA64 ? thorough ? 11 : 9 : thorough ? 17 : 12;
    for (int H = 1; H <= 4; ++H)
      for (int W = 1; W <= 4; ++W)
        for (int Ci = 1; Ci <= 4; ++Ci)
          for (int Co = 1; Co <= 3; ++Co)
            for (int fh = 1; fh <= 3; ++fh)
              for (int fw = 1; fw <= 3; ++fw)
                for (int s = 1; s <= 2; ++s)
                  for (int d = 1; d <= 2; ++d)
                    for (int pad = 0; pad < 3; ++pad) {
                      g = Geo();
                      g.H = H; g.W = W; g.Ci = Ci; g.Co = Co; g.fh = fh; g.fw = fw;
                      g.sh = g.sw = s; g.dh = g.dw = d; g.pad = pad;
                      if (d > 1 && fh == 1 && fw == 1) continue;
                      if (g.nW() + g.nIn() > cap) continue;
                      go("G4", g, 0, H + W);
                    }
  }
  // G1: spatial geometry.
  {
    const int M = kA64 ? thorough ? 4 : 3 : thorough ? 7 : 5;
    for (int H = 1; H <= M; ++H)
      for (int W = 1; W <= M; ++W)
        for (int fh = 1; fh <= 3; ++fh)
          for (int fw = 1; fw <= 3; ++fw)
            for (int sh = 1; sh <= 3; ++sh)
              for (int sw = 1; sw <= 3; ++sw)
                for (int dh = 1; dh <= (thorough && !kA64 ? 3 : 2); ++dh)
                  for (int dw = 1; dw <= (thorough && !kA64 ? 3 : 2); ++dw)
                    for (int pad = 0; pad < 3; ++pad) {
                      if ((dh > 1 && fh == 1) || (dw > 1 && fw == 1)) continue;
                      g = Geo();
                      g.H = H; g.W = W; g.Ci = 2; g.Co = 2; g.fh = fh; g.fw = fw;
                      g.sh = sh; g.sw = sw; g.dh = dh; g.dw = dw; g.pad = pad;
                      go("G1", g, thorough && !kA64 ? 1 : 2, (H + W + fh) % 4);
                    }
    // larger filters / images
    for (int H : {2, 5, 7, 9})
      for (int W : {3, 6, 8})
        for (int f : {4, 5, 7})
          for (int s : {1, 2, 4})
            for (int d : {1, 2, 3})
              for (int pad = 0; pad < 3; ++pad) {
                g = Geo();
                g.H = H; g.W = W; g.Ci = 4; g.Co = 3; g.fh = f; g.fw = f == 7 ? 1 : f;
                g.sh = s; g.sw = s == 4 ? 1 : s; g.dh = d; g.dw = 1; g.pad = pad;
                go("G1b", g, 2, H % 4);
                std::swap(g.fh, g.fw); std::swap(g.sh, g.sw); std::swap(g.dh, g.dw);
                go("G1c", g, 2, W % 4);
              }
  }
  // G2: channel counts, batches, activations.
  {
    const std::vector<int> CI = {1, 2, 3, 16, 31, 32, 33, 48, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 192, 255, 256, 257};
    const std::vector<int> CO = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 17, 31, 32, 33, 34, 35, 36, 40, 63, 64, 65, 95, 96, 97};
    struct Sp { int H, W, fh, fw, s, pad, B; };
    const std::vector<Sp> SP = {{1, 1, 1, 1, 1, VALID, 1}, {3, 3, 1, 1, 1, VALID, 2}, {1, 3, 1, 1, 1, SAME_ONE, 1},
                                {3, 2, 3, 3, 1, SAME_ONE, 1}, {3, 3, 3, 3, 2, SAME_ZERO, 3}, {3, 4, 2, 3, 1, VALID, 3},
                                {5, 1, 2, 1, 2, SAME_ZERO, 1}};
    for (int Ci : CI)
      for (int Co : CO)
        for (size_t s = 0; s < SP.size(); ++s) {
          if (!thorough && s > 1 && Ci > 33 && Co > 9 && Co != 33 && Co != 64) continue;
          g = Geo();
          g.B = SP[s].B; g.H = SP[s].H; g.W = SP[s].W; g.Ci = Ci; g.Co = Co;
          g.fh = SP[s].fh; g.fw = SP[s].fw; g.sh = g.sw = SP[s].s; g.pad = SP[s].pad;
          for (int act = 0; act < 4; ++act) {
            g.act = act;
            if (type == BITS && act) continue;
            const bool flips = s == 0 && (Ci == 33 || Ci == 64 || Ci == 129 || Co == 5 || Co == 33);
            go("G2", g, (thorough ? s <= 1 && !kA64 : flips && act == 0) ? 1 : 2, act + (int)s);
          }
        }
  }
  // G3: groups.
  {
    struct Sp { int H, W, fh, fw, s, d, pad, B; };
    const std::vector<Sp> SP = {{1, 1, 1, 1, 1, 1, VALID, 1}, {3, 3, 1, 1, 1, 1, VALID, 1}, {3, 2, 3, 3, 1, 1, SAME_ONE, 2},
                                {4, 3, 2, 3, 2, 1, SAME_ZERO, 1}, {4, 5, 2, 3, 1, 2, VALID, 1}};
    for (int groups : {2, 3, 4, 5})
      for (int per : kA64 ? std::vector<int>{32, 64, 96, 128, 192, 256, 384} : std::vector<int>{32, 64, 96, 128, 160})
        for (int cog : {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 64})
          for (size_t s = 0; s < SP.size(); ++s) {
            if (!thorough && (per > 64 && s > 2)) continue;
            g = Geo();
            g.groups = groups; g.Ci = per * groups; g.Co = cog * groups;
            g.B = SP[s].B; g.H = SP[s].H; g.W = SP[s].W; g.fh = SP[s].fh; g.fw = SP[s].fw;
            g.sh = g.sw = SP[s].s; g.dh = g.dw = SP[s].d; g.pad = SP[s].pad;
            g.act = (cog % 3 == 0 && type != BITS) ? 1 : 0;
            go("G3", g, s == 0 && cog <= 4 && groups == 2 ? 1 : 2, cog);
          }
  }
  // G6: numbers of pixels around the tile sizes, batches.
  for (int B = 1; B <= 4; ++B)
    for (int W = 1; W <= (thorough ? 40 : 18); ++W)
      for (int Ci : {32, 40, 96})
        for (int Co : {3, 8, 33})
          for (int s : {1, 2}) {
            g = Geo();
            g.B = B; g.W = W; g.H = 1; g.Ci = Ci; g.Co = Co; g.sw = s;
            go("G6", g, 2, B);
          }
  // G5: accumulators beyond 16 bits.
  for (int Ci : {2048, 32768, 65504, 65536, 65537 + 31, 70000})
    for (int f : {1, 3}) {
      if (f == 3 && Ci > 40000 && !thorough) continue;
      g = Geo();
      g.Ci = Ci; g.Co = 5; g.fh = g.fw = f; g.H = g.W = f; g.pad = VALID;
      go("G5", g, 2, 0);
      g.pad = SAME_ONE;
      go("G5", g, 2, 1);
      g.W = f + 4; g.Co = 9;
      go("G5", g, 2, 2);
    }
  // G7: outputs far beyond the output type, in every place of a block.
  if (type == INT8)
    for (int Ci : {32, 64, 96, 128, 160, 256})
      for (int W : {1, 2, 3, 4, 5, 7, 9})
        for (int Co : {1, 3, 4, 7, 8, 9, 13, 17})
          for (int v = 0; v < 4; ++v) {
            g = Geo();
            g.Ci = Ci; g.Co = Co; g.W = W; g.fw = W > 4 ? 2 : 1; g.pad = SAME_ONE;
            Case c{"G7", g, 2, v, DyadicSpec(g, type, v), true};
            c.spec.scale = v < 2 ? 1.f / 4096 : 1.f / 262144;
            if (v >= 2) c.spec.zp = 0;  // (so that sums stay exact)
            RunCase(c, type);
          }
  // G8: results on and beside the ties between two integers.
  if (type == INT8)
    for (int Ci : {1, 5, 33, 70, 128})
      for (int W : {1, 5})
        for (int e = 1; e <= (thorough ? 14 : 12); ++e)
          for (int sign = -1; sign <= 1; ++sign)
            for (float m : {1.f, -1.f, 2.f, 0.5f})
              for (int act : {0, 2}) {
                g = Geo();
                g.Ci = Ci; g.Co = 5; g.W = W; g.pad = VALID; g.act = act;
                Case c{"G8", g, 2, (e * 3 + sign + 1) * 100 + (int)(m * 2) * 10 + act, DyadicSpec(g, type, 0), true};
                for (int i = 0; i < g.Co; ++i) c.spec.mul[i] = m, c.spec.bias[i] = 11 * i - 21.5f + sign * std::ldexp(1.f, -e);
                c.spec.scale = 1; c.spec.zp = 0;
                RunCase(c, type);
              }
  // G5b: accumulators around 16 bits, filters larger than the input.
  for (int Ci : {448, 512, 1280, 1312, 1344, 7264, 7296, 7328, 8192, 16384})
    for (int f : {3, 7, 11})
      for (int HW : {1, 2, 3})
        for (int pad = 0; pad < 3; ++pad) {
          g = Geo();
          g.Ci = Ci; g.Co = 5; g.fh = g.fw = f; g.H = g.W = HW; g.pad = pad;
          if (f == 11 && Ci > 1400) continue;
          if (f * f * Ci > 400000 || f * f * Ci < 20000) continue;
          go("G5b", g, 2, HW);
          if (Ci % 64 == 0 && pad == SAME_ONE) { g.groups = 2; g.Ci *= 2; g.Co = 6; go("G5b", g, 2, HW); }
        }
}
// Output constants.
void ExploreSpecs(int type, bool thorough) {
  Geo g;
  std::vector<Geo> gs;
  g = Geo(); g.Ci = 3; g.Co = 4; g.H = 2; g.W = 2; g.fh = g.fw = 2; g.pad = SAME_ONE; gs.push_back(g);
  g = Geo(); g.Ci = 40; g.Co = 6; g.H = 3; g.W = 3; g.fh = g.fw = 3; g.pad = SAME_ONE; gs.push_back(g);
  g = Geo(); g.Ci = 64; g.Co = 3; g.H = 3; g.W = 1; g.fh = 3; g.pad = SAME_ZERO; gs.push_back(g);
  g = Geo(); g.Ci = 128; g.Co = 4; g.groups = 2; g.H = 1; g.W = 3; gs.push_back(g);
  if (type == BITS) {
    // Every threshold around every accumulator value, in every channel.
    for (Geo q : gs)
      for (int Co : {4, 6, 34})
        for (int t = -2; t <= q.K() + 2; ++t) {
          q.Co = Co;
          OutSpec s;
          s.thr.assign(q.Co, t);
          for (int c = 1; c < q.Co; c += 3) s.thr[c] = c % 2 ? INT32_MIN : INT32_MAX;
          Case c{"thr", q, 2, t, s, true};
          RunCase(c, type);
        }
    return;
  }
  static const float MULS[] = {1, -1, 0, 0.1f, -0.37f, 3.14159f, 1e-4f, 17.3f, 123.456f};
  static const float BIAS[] = {0, 0.5f, -0.7f, 11.3f, -100.1f, 1e-3f};
  static const float SC[] = {0.5f, 1, 3, 0.0039215686f, 0.1f, 2.5e-2f, 40};
  static const int ZP[] = {-128, -7, 0, 3, 127};
  int v = 0;
  for (const Geo& base : gs)
    for (int act = 0; act < 4; ++act)
      for (size_t m = 0; m < sizeof MULS / sizeof *MULS; ++m)
        for (size_t b = 0; b < sizeof BIAS / sizeof *BIAS; ++b)
          for (size_t si = 0; si < (type == INT8 ? sizeof SC / sizeof *SC : 1); ++si)
            for (size_t z = 0; z < (type == INT8 ? 5 : 1); ++z) {
              Geo q = base;
              q.act = act;
              OutSpec s;
              for (int c = 0; c < q.Co; ++c) {
                s.mul.push_back(MULS[(m + c) % 9]);
                s.bias.push_back(BIAS[(b + c * 5) % 6]);
              }
              s.scale = SC[si];
              s.zp = ZP[z];
              s.exact = false;
              Case c{"spec", q, thorough && !kA64 ? 1 : 2,
                     (int)(((m * 6 + b) * 7 + si) * 5 + z), s, true};
              RunCase(c, type);
              ++v;
            }
  // Integer-valued sweep: multiplier/scale exactly representable, so the
  // expected rounding is exact (ties may go either way).
  for (const Geo& base : gs)
    for (int act = 0; act < 4; ++act)
      for (int var = 0; var < 8; ++var)
        for (int zp : {-128, -50, 0, 1, 127})
          for (float sc : {0.25f, 0.5f, 1.f, 2.f, 8.f}) {
            Geo q = base;
            q.act = act;
            OutSpec s = DyadicSpec(q, type, var);
            s.scale = sc;
            s.zp = zp;
            Case c{"dyadic", q, 2, (int)(var * 1000 + sc * 4), s, true};
            c.variant = var * 100000 + (zp + 128) * 100 + (int)(sc * 4);
            RunCase(c, type);
          }
}
}  // namespace

int main(int argc, char** argv) {
  mc::Options o = mc::parse(argc, argv);
  Prop = o.prop;
  return mc::run(o, [&](mc::Explorer& ex) {
    EX = &ex;
    std::vector<int> types = Prop == "K01" ? std::vector<int>{FLOAT}
                             : Prop == "K03" ? std::vector<int>{BITS}
                             : Prop == "K04" ? std::vector<int>{INT8}
                                             : std::vector<int>{FLOAT, INT8, BITS};
    for (int t : types) {
      Explore(t, ex.thorough);
      if (Prop != "K05" && (!kA64 || ex.thorough || t == BITS)) ExploreSpecs(t, ex.thorough);
    }
    if (Prop == "K05") MemUnary(ex.thorough);
  });
}
