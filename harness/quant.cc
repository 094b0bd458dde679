// K09 / K10: exhaustive exploration of LceQuantize and LceDequantize.
#include "ops_common.h"
using namespace compute_engine::tflite;

namespace {
mc::Explorer* EX;
#if defined(LCE_A64) || defined(LCE_A32)
constexpr bool kA64 = true;
#else
constexpr bool kA64 = false;
#endif

std::vector<std::vector<int>> ShapesOf(int n, bool thorough) {
  std::vector<std::vector<int>> r = {{n}, {1, n}, {3, n}, {2, 3, n}, {2, 1, 2, n}, {1, 2, 3, 1, n}, {5, 1, n}};
  if (kA64 && n > 300) return {{1, n}, {2, n}};
  if (thorough && !kA64) { r.push_back({7, n}); r.push_back({2, 2, 2, 2, n}); r.push_back({1, 1, 1, n}); }
  return r;
}

// Up to N; for the blocks of the AArch64 code, also sizes of several blocks.
std::vector<int> Sizes(int N) {
  std::vector<int> r;
  for (int n = 1; n <= N; ++n) r.push_back(n);
  if (kA64) for (int n : {384, 385, 512, 545}) r.push_back(n);
  return r;
}
// ---- K09 -----------------------------------------------------------------
// values are given by index; neg[i] says whether they pack to a 1-bit.
template <class T>
void QuantCheck(UnaryOp& op, const std::vector<int>& d, const std::vector<T>& v,
                const std::vector<uint8_t>& neg, const char* what) {
  mc::Explorer& ex = *EX;
  op.it.Set(op.in, v.data(), v.size() * sizeof(T));
  if (op.Run() != kTfLiteOk) { ex.fail("invocation failed (%s)", what); return; }
  ex.eval(1);
  const int n = d.back(), w = Words(n), rows = RowsOf(d);
  const uint32_t* o = op.it.data<uint32_t>(op.out);
  for (int r = 0; r < rows; ++r)
    for (int k = 0; k < w; ++k) {
      uint32_t e = 0;
      for (int j = 0; j < 32 && k * 32 + j < n; ++j)
        e |= (uint32_t)neg[(size_t)r * n + k * 32 + j] << j;
      if (o[r * w + k] != e) {
        if (kA64 && std::is_same<T, float>::value && EX) {
          // Known: the assembly packs blocks of four words by the sign bit, so
          // that -0 counts as negative there (and as positive elsewhere).
          const int in_blocks = n % 32 == 0 ? rows * w / 4 * 4 : n / 32 / 4 * 4;
          uint32_t by_sign = 0;
          for (int j = 0; j < 32 && k * 32 + j < n; ++j)
            by_sign |= (uint32_t)std::signbit((double)v[(size_t)r * n + k * 32 + j]) << j;
          if ((n % 32 == 0 ? r * w + k : k) < in_blocks && o[r * w + k] == by_sign) {
            ex.fail_class("negative-zero", mc::fmt("%s: row %d word %d: -0 is packed as a negative number: expected 0x%08x got 0x%08x", what, r, k, e, o[r * w + k]));
            continue;
          }
        }
        ex.fail("%s: row %d word %d: expected 0x%08x got 0x%08x", what, r, k, e, o[r * w + k]);
        return;
      }
    }
  if (op.it.SlackDamaged() >= 0) ex.fail("%s: wrote behind a tensor", what);
  ex.outcome(o, (size_t)rows * w * 4);
}
bool Shape(UnaryOp& op, const std::vector<int>& want) {
  if (op.prep != kTfLiteOk) { EX->fail("supported configuration rejected: %s", op.it.error.c_str()); return false; }
  if (op.it.dims(op.out) != want) { EX->fail("output shape %s, expected %s", DimStr(op.it.dims(op.out)).c_str(), DimStr(want).c_str()); return false; }
  EX->sh->accepted++;
  return true;
}

void K09(bool thorough) {
  mc::Explorer& ex = *EX;
  const float INF = INFINITY;
  const std::vector<float> POS = {0.f, -0.f, 1.f, 1e-45f, 1.17549435e-38f, 3.4e38f, INF, 0.5f, 127.f};
  const std::vector<float> NEG = {-1.f, -1e-45f, -1.17549435e-38f, -3.4e38f, -INF, -0.5f, -128.f};
  const int N = kA64 && thorough ? 264 : thorough ? 300 : 170;
  for (int n : Sizes(N))
    for (auto d : ShapesOf(n, thorough)) {
      const int total = RowsOf(d) * n;
      // all sign patterns of short tensors / per-position patterns of long ones
      auto bits = [&](auto f) {
        if (total <= (thorough && !kA64 ? 14 : 10)) {
          for (auto& b : AllBits(total)) f(b);
        } else {
          for (int p = 0; p < 6; ++p) f(Pattern(total, p));
          const int lim = thorough && !kA64 ? total : std::min(total, n > 300 ? 1100 : 400);
          for (int i = 0; i < lim; ++i) {
            Bits b(total, 0); b[i] = 1; f(b);
            Bits c(total, 1); c[i] = 0; f(c);
          }
        }
      };
      ex.config([&]() { return "quantize float " + DimStr(d); }, [&]() {
        UnaryOp op(Register_QUANTIZE(), kTfLiteFloat32, d, 0, 0, kTfLiteInt32, d, 0, 0);
        if (!Shape(op, PackedDims(d))) return;
        int k = 0;
        std::vector<float> v(total);
        bits([&](const Bits& b) {
          for (int i = 0; i < total; ++i) v[i] = b[i] ? NEG[(i + k) % NEG.size()] : POS[(i + k) % POS.size()];
          ++k;
          QuantCheck(op, d, v, b, "float");
        });
        ex.sample("%d sign patterns", k);
      });
      ex.config([&]() { return "quantize bool " + DimStr(d); }, [&]() {
        UnaryOp op(Register_QUANTIZE(), kTfLiteBool, d, 0, 0, kTfLiteInt32, d, 0, 0);
        if (!Shape(op, PackedDims(d))) return;
        std::vector<uint8_t> v(total);
        bits([&](const Bits& b) {
          for (int i = 0; i < total; ++i) v[i] = !b[i];
          QuantCheck(op, d, v, b, "bool");
        });
      });
      for (int zp : {-128, -127, -1, 0, 1, 5, 126, 127})
        ex.config([&]() { return mc::fmt("quantize int8 zp=%d ", zp) + DimStr(d); }, [&]() {
          UnaryOp op(Register_QUANTIZE(), kTfLiteInt8, d, 0.5f, zp, kTfLiteInt32, d, 0, 0);
          if (!Shape(op, PackedDims(d))) return;
          std::vector<int8_t> v(total);
          bits([&](const Bits& b) {
            // values adjacent to the zero point and the extremes
            static int k;
            ++k;
            Bits e = b;
            for (int i = 0; i < total; ++i) {
              const int lo[] = {zp - 1, -128, zp - 2}, hi[] = {zp, 127, zp + 1};
              int q = b[i] ? lo[(i + k) % 3] : hi[(i + k) % 3];
              q = std::min(127, std::max(-128, q));
              v[i] = (int8_t)q;
              e[i] = q < zp;
            }
            QuantCheck(op, d, v, e, "int8");
          });
        });
    }
  // every int8 value against every zero point (also outside the int8 range)
  for (int zp = -131; zp <= 131; ++zp)
    for (int n : {1, 7, 31, 32, 33, 45, 64, 70})
      ex.config([&]() { return mc::fmt("quantize int8 values zp=%d n=%d", zp, n); }, [&]() {
        const int rows = (256 + n - 1) / n;
        std::vector<int> d = {rows, n};
        UnaryOp op(Register_QUANTIZE(), kTfLiteInt8, d, 1.f, zp, kTfLiteInt32, d, 0, 0);
        if (!Shape(op, PackedDims(d))) return;
        for (int off = 0; off < (thorough ? 256 : 40); ++off) {
          std::vector<int8_t> v(rows * n);
          Bits e(rows * n);
          for (int i = 0; i < rows * n; ++i) {
            v[i] = (int8_t)((i + off) & 255);
            e[i] = (int)v[i] < zp;
          }
          QuantCheck(op, d, v, e, "int8");
        }
      });
}

// ---- K10 -----------------------------------------------------------------
void K10(bool thorough) {
  mc::Explorer& ex = *EX;
  const int N = kA64 && thorough ? 264 : thorough ? 300 : 150;
  auto run = [&](UnaryOp& op, UnaryOp* back, const std::vector<int>& d, const Bits& b, uint32_t junk,
                 TfLiteType t, int lo, int hi, bool can) {
    const int n = d.back(), w = Words(n), rows = RowsOf(d);
    std::vector<uint32_t> in((size_t)rows * w);
    for (int r = 0; r < rows; ++r)
      for (int k = 0; k < w; ++k) {
        uint32_t x = 0;
        for (int j = 0; j < 32 && k * 32 + j < n; ++j) x |= (uint32_t)b[(size_t)r * n + k * 32 + j] << j;
        if (k == w - 1) x |= junk & ~TailMask(n);
        in[r * w + k] = x;
      }
    op.it.Set(op.in, in.data(), in.size() * 4);
    if (op.Run() != kTfLiteOk) { ex.fail("invocation failed"); return; }
    ex.eval(1);
    for (size_t i = 0; i < b.size(); ++i) {
      double got, want;
      if (t == kTfLiteFloat32) { got = op.it.data<float>(op.out)[i]; want = b[i] ? -1 : 1; }
      else if (t == kTfLiteBool) { got = op.it.data<uint8_t>(op.out)[i]; want = b[i] ? 0 : 1; }
      else { got = op.it.data<int8_t>(op.out)[i]; want = b[i] ? lo : hi; }
      if (!(got == want)) { ex.fail("element %zu of %zu: expected %g got %g", i, b.size(), want, got); return; }
    }
    if (op.it.SlackDamaged() >= 0) { ex.fail("wrote behind a tensor"); return; }
    if (memcmp(op.it.data<char>(op.in), in.data(), in.size() * 4)) { ex.fail("input modified"); return; }
    if (back && can) {
      back->it.Set(back->in, op.it.data<char>(op.out), op.it.bytes(op.out));
      if (back->Run() != kTfLiteOk) { ex.fail("requantization failed"); return; }
      ex.eval(1);
      for (int r = 0; r < rows; ++r)
        for (int k = 0; k < w; ++k) {
          uint32_t e = in[r * w + k];
          if (k == w - 1) e &= TailMask(n);
          if (back->it.data<uint32_t>(back->out)[r * w + k] != e) { ex.fail("requantization: word %d,%d", r, k); return; }
        }
    }
    ex.outcome(op.it.data<char>(op.out), op.it.bytes(op.out));
  };
  auto explore = [&](const std::vector<int>& d, TfLiteType t, float sc, int zp, bool all) {
    const char* tn = t == kTfLiteFloat32 ? "float" : t == kTfLiteBool ? "bool" : "int8";
    ex.config([&]() { return mc::fmt("dequantize %s scale=%g zp=%d ", tn, sc, zp) + DimStr(d) + (all ? "" : " few"); }, [&]() {
      UnaryOp op(Register_DEQUANTIZE(), kTfLiteInt32, PackedDims(d), 0, 0, t, d, sc, zp);
      if (!Shape(op, d)) return;
      UnaryOp back(Register_QUANTIZE(), t, d, sc, zp, kTfLiteInt32, d, 0, 0);
      int off = 0;
      if (t == kTfLiteInt8) off = (int)std::lround(1.0 / (double)sc);
      const int hi = std::min(127, zp + off), lo = std::max(-128, zp - off);
      const bool can = t != kTfLiteInt8 || lo < zp;
      const int total = RowsOf(d) * d.back();
      if (all && total <= (thorough && !kA64 ? 14 : 10)) {
        for (auto& b : AllBits(total)) for (uint32_t junk : {0u, ~0u}) run(op, &back, d, b, junk, t, lo, hi, can);
      } else {
        for (int p = 0; p < 4; ++p) run(op, &back, d, Pattern(total, p), p & 1 ? ~0u : 0xA5A5A5A5u, t, lo, hi, can);
        if (all)
          for (int i = 0; i < (thorough && !kA64 ? total : std::min(total, 300)); ++i) {
            Bits b(total, 0); b[i] = 1; run(op, &back, d, b, 0, t, lo, hi, can);
            Bits c(total, 1); c[i] = 0; run(op, &back, d, c, ~0u, t, lo, hi, can);
          }
      }
    });
  };
  for (int n : Sizes(N))
    for (auto d : ShapesOf(n, thorough)) {
      explore(d, kTfLiteFloat32, 0, 0, true);
      explore(d, kTfLiteBool, 0, 0, true);
      explore(d, kTfLiteInt8, 0.03125f, 4, true);
    }
  // all zero points, many scales (no exact ties of 1/scale)
  for (int zp = -128; zp <= 127; ++zp)
    for (float sc : {0.001f, 0.0039215686f, 0.0078125f, 0.008f, 0.01f, 0.1f, 0.25f, 0.3f, 0.5f, 0.7f, 0.9f, 1.f, 1.5f, 1.9f, 2.5f, 100.f})
      for (int n : {1, 33, 64}) explore({2, n}, kTfLiteInt8, sc, zp, false);
}
}  // namespace

int main(int argc, char** argv) {
  mc::Options o = mc::parse(argc, argv);
  return mc::run(o, [&](mc::Explorer& ex) {
    EX = &ex;
    if (o.prop != "K10") K09(ex.thorough);
    if (o.prop != "K09") K10(ex.thorough);
  });
}
