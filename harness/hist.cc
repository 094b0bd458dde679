// K06: all histories (up to a depth) of resize / re-allocate / move buffers /
// rewrite inputs / invoke, on one operator and on two operators in one
// interpreter; every invocation is compared with a freshly created operator.
#include "ops_common.h"
using namespace compute_engine::tflite;

namespace {
mc::Explorer* EX;
#if defined(LCE_A64) || defined(LCE_A32)
constexpr bool kA64 = true;
#else
constexpr bool kA64 = false;
#endif
enum Kind { CONV, QUANT, DEQUANT, POOL };

struct Proto {
  Kind kind = CONV;
  int kern = 0, type = 0;      // conv: kernel, output type; quant: input type
  Geo g;                       // conv / pool geometry without H, W, B
  int wseed = 2;
  std::string str() const {
    if (kind == CONV) return mc::fmt("conv/%s/%s/%s", kKernN[kern], kOutN[type], g.str().c_str());
    if (kind == QUANT) return mc::fmt("quantize/%d", type);
    if (kind == DEQUANT) return mc::fmt("dequantize/%d", type);
    return "maxpool";
  }
};
struct Dim3 { int B, H, W; };
const TfLiteType kQT[] = {kTfLiteFloat32, kTfLiteInt8, kTfLiteBool};

// One operator inside an interpreter.
struct Inst {
  Proto p;
  int in = -1, out = -1;
  Dim3 s;
  int content = 0;
  OutSpec spec;
  std::vector<int> InDims() const {
    if (p.kind == QUANT) return {s.B, s.H, s.W, 40};
    if (p.kind == DEQUANT) return {s.B, s.H, s.W, 2};
    return {s.B, s.H, s.W, p.g.Cw()};
  }
  void Build(Interp& it, Dim3 s0) {
    s = s0;
    if (p.kind == CONV) {
      in = it.Tensor(kTfLiteInt32, InDims());
      int w = it.Tensor(kTfLiteInt32, {p.g.Co, p.g.fh, p.g.fw, p.g.Cgw()}, kTfLiteMmapRo);
      auto pw = Pack(Pattern(p.g.nW(), p.wseed), p.g.Co * p.g.fh * p.g.fw, p.g.Cg());
      it.Set(w, pw.data(), pw.size() * 4);
      spec = DyadicSpec(p.g, p.type, p.wseed);
      int mul = -1, bias = -1, thr = -1;
      if (p.type == BITS) {
        thr = it.Tensor(kTfLiteInt32, {p.g.Co}, kTfLiteMmapRo);
        it.Set(thr, spec.thr.data(), spec.thr.size() * 4);
      } else {
        mul = it.Tensor(kTfLiteFloat32, {p.g.Co}, kTfLiteMmapRo);
        bias = it.Tensor(kTfLiteFloat32, {p.g.Co}, kTfLiteMmapRo);
        it.Set(mul, spec.mul.data(), spec.mul.size() * 4);
        it.Set(bias, spec.bias.data(), spec.bias.size() * 4);
      }
      out = p.type == INT8 ? it.Tensor(kTfLiteInt8, {}, kTfLiteArenaRw, spec.scale, spec.zp)
                           : it.Tensor(p.type == FLOAT ? kTfLiteFloat32 : kTfLiteInt32, {});
      it.Node(Reg(p.kern), {in, w, mul, bias, thr}, {out}, ConvOptions(p.g));
    } else if (p.kind == POOL) {
      in = it.Tensor(kTfLiteInt32, InDims());
      out = it.Tensor(kTfLiteInt32, {});
      PoolGeo g;
      g.C = p.g.Ci; g.fh = 2; g.fw = 3; g.sh = 2; g.sw = 1; g.pad = SAME_ZERO;
      it.Node(Register_BMAXPOOL_2D(), {in}, {out}, PoolOptions(g));
    } else if (p.kind == QUANT) {
      in = it.Tensor(kQT[p.type], InDims(), kTfLiteArenaRw, p.type == 1 ? 0.5f : 0, p.type == 1 ? 3 : 0);
      out = it.Tensor(kTfLiteInt32, {1, 1, 1, 1});
      it.Node(Register_QUANTIZE(), {in}, {out}, {});
    } else {
      in = it.Tensor(kTfLiteInt32, InDims());
      out = it.Tensor(kQT[p.type], {s.B, s.H, s.W, 40}, kTfLiteArenaRw, p.type == 1 ? 0.5f : 0, p.type == 1 ? 3 : 0);
      it.Node(Register_DEQUANTIZE(), {in}, {out}, {});
    }
  }
  void Fill(Interp& it) {
    const size_t n = it.bytes(in);
    std::vector<uint8_t> v(n);
    if (p.kind == CONV || p.kind == POOL) {
      auto b = Pack(Pattern(s.B * s.H * s.W * p.g.Ci, 11 + content), s.B * s.H * s.W, p.g.Ci);
      memcpy(v.data(), b.data(), n);
    } else if (p.kind == QUANT && p.type == 0) {
      for (size_t i = 0; i < n / 4; ++i) ((float*)v.data())[i] = (float)(int)(Mix(i + 77 * content) % 7) - 3.f;
    } else if (p.kind == QUANT && p.type == 2) {
      for (size_t i = 0; i < n; ++i) v[i] = Mix(i + 77 * content) & 1;
    } else {
      for (size_t i = 0; i < n; ++i) v[i] = (uint8_t)Mix(i + 77 * content);
    }
    it.Set(in, v.data(), n);
  }
};

struct Ref { std::vector<int> dims; std::vector<char> data; };
// What a fresh operator computes.
const Ref& Fresh(std::map<std::string, Ref>& cache, const Inst& i, bool& ok) {
  std::string k = i.p.str() + mc::fmt("|%d|%d,%d,%d|%d", i.p.wseed, i.s.B, i.s.H, i.s.W, i.content);
  auto f = cache.find(k);
  ok = true;
  if (f != cache.end()) return f->second;
  Interp it;
  Inst n;
  n.p = i.p;
  n.content = i.content;
  n.Build(it, i.s);
  Ref r;
  if (it.Allocate() != kTfLiteOk) { ok = false; return cache[k] = r; }
  n.Fill(it);
  if (it.Invoke() != kTfLiteOk) { ok = false; return cache[k] = r; }
  r.dims = it.dims(n.out);
  r.data.assign(it.data<char>(n.out), it.data<char>(n.out) + it.bytes(n.out));
  return cache[k] = r;
}

// Actions: 'A' re-allocate, 'M' move buffers, 'X' new input contents for all,
// 'V' invoke and check, '0'..'2' resize instance 0 to shape i, 'a'..'c' resize
// instance 1.
void RunHistory(const std::vector<Proto>& ps, const std::vector<Dim3>& shapes, bool arena,
                const std::string& h, std::map<std::string, Ref>& cache) {
  mc::Explorer& ex = *EX;
  Interp it;
  it.arena = arena;
  std::vector<Inst> in(ps.size());
  for (size_t i = 0; i < ps.size(); ++i) { in[i].p = ps[i]; in[i].Build(it, shapes[i ? 1 : 0]); }
  if (it.Allocate() != kTfLiteOk) { ex.fail("allocation failed: %s", it.error.c_str()); return; }
  for (auto& i : in) i.Fill(it);
  for (size_t k = 0; k < h.size(); ++k) {
    const char c = h[k];
    if (c == 'A' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'c')) {
      if (c != 'A') {
        Inst& i = in[c >= 'a' ? 1 : 0];
        i.s = shapes[c >= 'a' ? c - 'a' : c - '0'];
        it.Resize(i.in, i.InDims());
      }
      if (it.Allocate() != kTfLiteOk) { ex.fail("history %s step %zu: allocation failed: %s", h.c_str(), k, it.error.c_str()); return; }
      for (auto& i : in) i.Fill(it);
    } else if (c == 'M') {
      it.MoveBuffers();
    } else if (c == 'X') {
      for (auto& i : in) { i.content ^= 1; i.Fill(it); }
    } else {
      for (auto& i : in) memset(it.data<char>(i.out), 0xCD, it.bytes(i.out));
      if (it.Invoke() != kTfLiteOk) { ex.fail("history %s step %zu: invocation failed: %s", h.c_str(), k, it.error.c_str()); return; }
      for (size_t j = 0; j < in.size(); ++j) {
        bool ok;
        const Ref& r = Fresh(cache, in[j], ok);
        if (!ok) { ex.fail("a fresh operator fails"); return; }
        if (it.dims(in[j].out) != r.dims) { ex.fail("history %s step %zu operator %zu: output shape %s instead of %s", h.c_str(), k, j, DimStr(it.dims(in[j].out)).c_str(), DimStr(r.dims).c_str()); return; }
        if (memcmp(it.data<char>(in[j].out), r.data.data(), r.data.size())) {
          ex.fail("history %s step %zu operator %zu (shape %d,%d,%d): result differs from a fresh operator", h.c_str(), k, j, in[j].s.B, in[j].s.H, in[j].s.W);
          return;
        }
      }
    }
  }
  ex.eval((int64_t)h.size());
  ex.outcome(h.data(), h.size());
  if (it.SlackDamaged() >= 0) ex.fail("history %s: wrote behind a tensor", h.c_str());
}

void AllHistories(const std::vector<Proto>& ps, const std::vector<Dim3>& shapes, bool arena,
                  const std::string& alpha, int depth, const std::string& prefix,
                  std::map<std::string, Ref>& cache) {
  // every history of exactly `depth` steps that ends in an invocation and
  // starts with `prefix` (shorter ones are prefixes of these)
  mc::Explorer& ex = *EX;
  std::string h = prefix;
  std::function<void()> rec = [&]() {
    if (ex.failed_here) return;
    if ((int)h.size() == depth - 1) {
      h.push_back('V');
      RunHistory(ps, shapes, arena, h, cache);
      h.pop_back();
      return;
    }
    for (char c : alpha) {
      if (!h.empty() && h.back() == c && (c == 'A' || c == 'M')) continue;  // idempotent pairs
      h.push_back(c);
      rec();
      h.pop_back();
    }
  };
  rec();
}
}  // namespace

int main(int argc, char** argv) {
  mc::Options o = mc::parse(argc, argv);
  return mc::run(o, [&](mc::Explorer& ex) {
    EX = &ex;
    const bool th = ex.thorough;
    std::vector<Proto> ps;
    auto conv = [&](int pad, int Ci, int Co, int groups, int s, int d, int f, int type, int act = 0) {
      Proto p;
      p.g.pad = pad; p.g.Ci = Ci; p.g.Co = Co; p.g.groups = groups; p.g.sh = p.g.sw = s;
      p.g.dh = p.g.dw = d; p.g.fh = f; p.g.fw = f; p.type = type; p.g.act = act;
      for (int k = 0; k < 3; ++k)
        if (p.g.supported(k, type)) { p.kern = k; ps.push_back(p); }
    };
    for (int t = 0; t < 3; ++t) {
      conv(SAME_ONE, 34, 5, 1, 1, 1, 3, t);
      conv(VALID, 64, 8, 2, 1, 1, 1, t);
      conv(VALID, 32, 3, 1, 1, 1, 1, t);
      conv(SAME_ONE, 8, 33, 1, 2, 2, 2, t, t == BITS ? 0 : 1);
      conv(SAME_ZERO, 8, 5, 1, 1, 2, 3, t);
      conv(SAME_ZERO, 96, 9, 3, 2, 1, 3, t);
    }
    for (int t = 0; t < 3; ++t) { Proto p; p.kind = QUANT; p.type = t; ps.push_back(p); }
    { Proto p; p.kind = POOL; p.g.Ci = 70; ps.push_back(p); }
    std::vector<Proto> deq;
    for (int t = 0; t < 3; ++t) { Proto p; p.kind = DEQUANT; p.type = t; deq.push_back(p); }
    // Same number of elements in different shapes is included on purpose.
    const std::vector<std::vector<Dim3>> SH = {{{1, 3, 4}, {2, 4, 3}, {1, 1, 5}}, {{1, 2, 6}, {1, 6, 2}, {3, 2, 2}}};
    const int depth = kA64 && th ? 6 : th ? 7 : 5;
    // Two operators in one interpreter, each pair in a fresh process.
    ex.isolated = true;
    for (size_t a = 0; a < ps.size(); ++a)
      for (size_t b = 0; b < ps.size(); ++b) {
        if (ps[a].kind != CONV || ps[b].kind != CONV) continue;
        Proto q = ps[b];
        q.wseed = 7;
        // same implementation: everything that could be shared
        const bool same = ps[a].kern == q.kern;
        if (!th && !(same && (ps[a].type == q.type || a % 3 == b % 3))) continue;
        for (int arena = 0; arena < 2; ++arena) {
          if (!th && arena && a != b) continue;
          ex.config([&]() { return mc::fmt("pair %s + %s %s", ps[a].str().c_str(), q.str().c_str(), arena ? "arena" : "malloc"); },
                    [&]() {
                      std::map<std::string, Ref> cache;
                      AllHistories({ps[a], q}, SH[0], arena, "V1bMX", th && !kA64 ? 6 : 5, "", cache);
                    });
        }
      }
    ex.isolated = false;
    for (auto& p : ps)
      for (size_t s = 0; s < SH.size(); ++s)
        for (int arena = 0; arena < 2; ++arena)
          for (char first : std::string("012AMXV"))
            ex.config([&]() { return mc::fmt("single %s shapes%zu %s first=%c", p.str().c_str(), s, arena ? "arena" : "malloc", first); },
                      [&]() {
                        std::map<std::string, Ref> cache;
                        AllHistories({p}, SH[s], arena, "012AMXV", kA64 && s ? 5 : depth, std::string(1, first), cache);
                        ex.sample("all histories over {resize0,resize1,resize2,A,M,X,V} of depth %d starting with %c", depth, first);
                      });
    for (auto& p : deq)
      for (int arena = 0; arena < 2; ++arena)
        ex.config([&]() { return mc::fmt("single %s %s", p.str().c_str(), arena ? "arena" : "malloc"); }, [&]() {
          std::map<std::string, Ref> cache;
          AllHistories({p}, SH[0], arena, "AMXV", th ? 8 : 7, "", cache);
        });
  });
}
