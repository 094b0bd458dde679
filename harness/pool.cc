// K11: exhaustive exploration of LceBMaxPool2d.
#include "ops_common.h"
using namespace compute_engine::tflite;

int main(int argc, char** argv) {
  mc::Options o = mc::parse(argc, argv);
  return mc::run(o, [&](mc::Explorer& ex) {
    const bool th = ex.thorough;
    auto go = [&](const PoolGeo& g, const char* grid, bool exhaustive) {
      if (!g.valid()) return;
      ex.config([&]() { return std::string(grid) + " " + g.str(); }, [&]() {
        const int cw = Words(g.C);
        const std::vector<int> d = {g.B, g.H, g.W, cw};
        UnaryOp op(Register_BMAXPOOL_2D(), kTfLiteInt32, d, 0, 0, kTfLiteInt32, {1, 1, 1, 1}, 0, 0, PoolOptions(g));
        if (op.prep != kTfLiteOk) { ex.fail("supported configuration rejected: %s", op.it.error.c_str()); return; }
        const std::vector<int> want = {g.B, g.OH(), g.OW(), cw};
        if (op.it.dims(op.out) != want) { ex.fail("output shape %s expected %s", DimStr(op.it.dims(op.out)).c_str(), DimStr(want).c_str()); return; }
        ex.sh->accepted++;
        const size_t n = (size_t)g.B * g.H * g.W * cw;
        std::vector<uint32_t> in(n);
        auto check = [&]() {
          op.it.Set(op.in, in.data(), n * 4);
          if (op.Run() != kTfLiteOk) { ex.fail("invocation failed"); return false; }
          ex.eval(1);
          auto e = PoolModel(g, in);
          const uint32_t* r = op.it.data<uint32_t>(op.out);
          for (size_t i = 0; i < e.size(); ++i)
            if (r[i] != e[i]) {
              ex.fail("output word %zu: expected 0x%08x got 0x%08x", i, e[i], r[i]);
              return false;
            }
          if (op.it.SlackDamaged() >= 0) { ex.fail("wrote behind a tensor"); return false; }
          if (memcmp(op.it.data<char>(op.in), in.data(), n * 4)) { ex.fail("input modified"); return false; }
          ex.outcome(r, e.size() * 4);
          return true;
        };
        if (exhaustive) {
          // 32 lanes carry 32 different binary images at a time
          const int px = g.H * g.W;
          const uint64_t imgs = 1ull << px;
          for (uint64_t base = 0; base < imgs; base += 32) {
            for (int p = 0; p < px; ++p) {
              uint32_t w = 0;
              for (int l = 0; l < 32; ++l) w |= (uint32_t)(((base + l) >> p) & 1) << l;
              in[p] = w;
            }
            if (!check()) return;
          }
          ex.sample("%llu binary images", (unsigned long long)imgs);
        } else {
          const uint32_t m = TailMask(g.C);
          for (int p = 0; p < 4; ++p) {
            for (size_t i = 0; i < n; ++i)
              in[i] = (p == 0 ? 0u : p == 1 ? ~0u : (uint32_t)Mix(i * 31 + p)) & ((int)(i % cw) == cw - 1 ? m : ~0u);
            if (!check()) return;
          }
          // one +1 among -1s at every position, and the reverse
          for (size_t k = 0; k < n * 32; k += (n > 60 ? 7 : 1)) {
            for (int s = 0; s < 2; ++s) {
              for (size_t i = 0; i < n; ++i) in[i] = (s ? ~0u : 0u) & ((int)(i % cw) == cw - 1 ? m : ~0u);
              if (!((((int)(k / 32) % cw) == cw - 1 ? m : ~0u) >> (k % 32) & 1)) continue;
              in[k / 32] ^= 1u << (k % 32);
              if (!check()) return;
            }
          }
        }
      });
    };
    PoolGeo g;
    for (int H = 1; H <= (th ? 6 : 5); ++H)
      for (int W = 1; W <= (th ? 6 : 5); ++W)
        for (int fh = 1; fh <= 5; ++fh)
          for (int fw = 1; fw <= 5; ++fw)
            for (int sh = 1; sh <= 4; ++sh)
              for (int sw = 1; sw <= 4; ++sw)
                for (int pad : {VALID, SAME_ZERO}) {
                  g = PoolGeo();
                  g.H = H; g.W = W; g.C = 32; g.fh = fh; g.fw = fw; g.sh = sh; g.sw = sw; g.pad = pad;
                  go(g, "spatial", H * W <= (th ? 16 : 12));
                }
    for (int B = 1; B <= 3; ++B)
      for (int C : {1, 5, 31, 32, 33, 64, 65, 96, 100, 128, 160})
        for (int H : {1, 3, 4})
          for (int f : {1, 2, 3})
            for (int s : {1, 2, 3})
              for (int pad : {VALID, SAME_ZERO}) {
                g = PoolGeo();
                g.B = B; g.C = C; g.H = H; g.W = 3; g.fh = f; g.fw = f == 3 ? 2 : f; g.sh = s; g.sw = s == 3 ? 1 : s; g.pad = pad;
                go(g, "channels", false);
              }
    for (int H : {7, 9, 12})
      for (int f : {6, 7, 10})
        for (int s : {1, 3, 5, 11})
          for (int pad : {VALID, SAME_ZERO}) {
            g = PoolGeo();
            g.C = 40; g.H = H; g.W = H == 9 ? 2 : 8; g.fh = f; g.fw = 2; g.sh = s; g.sw = 2; g.pad = pad;
            go(g, "large", false);
            std::swap(g.H, g.W); std::swap(g.fh, g.fw); std::swap(g.sh, g.sw);
            go(g, "largeT", false);
          }
  });
}
