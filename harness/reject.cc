// K07: every combination of up to two (thorough: three) deviations from a
// valid configuration, from small alphabets: accepted exactly when supported,
// and then computed as specified.
#include "ops_common.h"
using namespace compute_engine::tflite;

namespace {
mc::Explorer* EX;
struct TS { TfLiteType type; std::vector<int> dims; };
struct Cfg {
  int kern, out_type_kind;
  Geo g;                       // base geometry (before deviations)
  unsigned missing = 0;
  int pad_values, padding, channels_in, act;
  TS in, w, mul, bias, thr;
  TfLiteType out;
  bool out_quant;
  int n_inputs = 5;
  bool dynamic_input = false;
  bool touched_shape = false;
};
const char* kKeys[] = {"stride_height", "stride_width", "dilation_height_factor", "dilation_width_factor",
                       "padding", "pad_values", "channels_in", "fused_activation_function"};

bool Acceptable(const Cfg& c) {
  if (c.missing) return false;
  if (c.pad_values != 0 && c.pad_values != 1) return false;
  if (c.padding != (int)tflite::Padding_SAME && c.padding != (int)tflite::Padding_VALID) return false;
  if (c.act < 0 || c.act > 3) return false;  // none, relu, relu-1..1, relu6
  if (c.n_inputs != 5) return false;
  if (c.in.type != kTfLiteInt32 || c.w.type != kTfLiteInt32) return false;
  if (c.in.dims.size() != 4 || c.w.dims.size() != 4) return false;
  if (c.out != kTfLiteFloat32 && c.out != kTfLiteInt8 && c.out != kTfLiteInt32) return false;
  const int Cw = (c.channels_in + 31) / 32, fw = c.w.dims[3], Co = c.w.dims[0];
  if (c.in.dims[3] != Cw) return false;
  if (fw != Cw) {
    if (c.kern == BGEMM) return false;
    if (Cw % fw) return false;
    const int gr = Cw / fw;
    if (c.channels_in % gr || (c.channels_in / gr) % 32 || Co % gr) return false;
  }
  if (c.padding == (int)tflite::Padding_SAME && c.pad_values == 0) {
    if (c.kern == REF) { if (c.channels_in % 2) return false; }
    else if (c.out != kTfLiteFloat32 || c.act != 0) return false;
  }
  if (c.out == kTfLiteInt32) {
    if (c.thr.type != kTfLiteInt32 || c.thr.dims != std::vector<int>{Co}) return false;
  } else {
    if (c.mul.type != kTfLiteFloat32 || c.mul.dims != std::vector<int>{Co}) return false;
    if (c.bias.type != kTfLiteFloat32 || c.bias.dims != std::vector<int>{Co}) return false;
  }
  if (c.out == kTfLiteInt8 && !c.out_quant) return false;
  if (c.kern == INDIRECT && c.dynamic_input) return false;
  return true;
}

void RunCfg(const Cfg& c) {
  mc::Explorer& ex = *EX;
  Interp it;
  auto mk = [&](const TS& t, TfLiteAllocationType at) { return it.Tensor(t.type, t.dims, at); };
  int in = it.Tensor(c.in.type, c.in.dims, c.dynamic_input ? kTfLiteDynamic : kTfLiteArenaRw);
  int w = mk(c.w, kTfLiteMmapRo), mul = mk(c.mul, kTfLiteMmapRo), bias = mk(c.bias, kTfLiteMmapRo),
      thr = mk(c.thr, kTfLiteMmapRo);
  int out = it.Tensor(c.out, {}, kTfLiteArenaRw, c.out_quant ? 0.5f : 0, c.out_quant ? 3 : 0);
  std::vector<int> ins = {in, w, mul, bias, thr};
  while ((int)ins.size() > c.n_inputs) ins.pop_back();
  while ((int)ins.size() < c.n_inputs) ins.push_back(thr);
  flexbuffers::Builder fbb;
  const int vals[] = {c.g.sh, c.g.sw, c.g.dh, c.g.dw, c.padding, c.pad_values, c.channels_in, c.act};
  const int order[] = {6, 2, 3, 7, 5, 4, 0, 1};
  fbb.Map([&]() {
    for (int k : order)
      if (!(c.missing >> k & 1)) fbb.Int(kKeys[k], vals[k]);
  });
  fbb.Finish();
  it.Node(Reg(c.kern), ins, {out}, fbb.GetBuffer());
  const bool want = Acceptable(c);
  const bool got = it.Allocate() == kTfLiteOk;
  ex.eval(1);
  ex.outcome(it.error.data(), it.error.size());
  (got ? ex.sh->accepted : ex.sh->rejected)++;
  if (got && !want) { ex.fail("unsupported configuration accepted"); return; }
  if (!got && want) { ex.fail("supported configuration rejected: %s", it.error.c_str()); return; }
  if (!got) return;
  // Accepted: must be computed as specified.
  Geo g = c.g;
  g.pad = c.padding == (int)tflite::Padding_VALID ? VALID : c.pad_values ? SAME_ONE : SAME_ZERO;
  g.act = c.act;
  g.Ci = c.channels_in;
  g.B = c.in.dims[0]; g.H = c.in.dims[1]; g.W = c.in.dims[2];
  g.Co = c.w.dims[0];
  g.groups = g.Cw() / c.w.dims[3];
  if (!g.valid()) return;
  const int type = c.out == kTfLiteFloat32 ? FLOAT : c.out == kTfLiteInt8 ? INT8 : BITS;
  OutSpec s = DyadicSpec(g, type, 1);
  s.scale = 0.5f; s.zp = 3;
  Bits wb = Pattern(g.nW(), 4), xb = Pattern(g.nIn(), 3);
  auto pw = Pack(wb, g.Co * g.fh * g.fw, g.Cg());
  it.Set(w, pw.data(), pw.size() * 4);
  if (type == BITS) it.Set(thr, s.thr.data(), s.thr.size() * 4);
  else { it.Set(mul, s.mul.data(), s.mul.size() * 4); it.Set(bias, s.bias.data(), s.bias.size() * 4); }
  auto px = Pack(xb, g.B * g.H * g.W, g.Ci);
  it.Set(in, px.data(), px.size() * 4);
  if (it.Invoke() != kTfLiteOk) { ex.fail("accepted configuration fails to run"); return; }
  std::vector<int> acc;
  Model(g, xb, wb, acc);
  if (it.dims(out) != ExpectedDims(g, type)) { ex.fail("wrong output shape"); return; }
  std::string e = Compare(g, s, acc, it.data<char>(out), it.bytes(out));
  if (!e.empty()) ex.fail("accepted but miscomputed: %s", e.c_str());
}

struct Mut { std::string name; std::function<void(Cfg&)> f; };
std::vector<Mut> Mutations() {
  std::vector<Mut> m;
  for (int k = 0; k < 8; ++k) m.push_back({std::string("no ") + kKeys[k], [k](Cfg& c) { c.missing |= 1u << k; }});
  for (int v : {-1, 0, 1, 2, 256}) m.push_back({mc::fmt("pad_values=%d", v), [v](Cfg& c) { c.pad_values = v; }});
  for (int v : {-1, 0, 1, 2}) m.push_back({mc::fmt("padding=%d", v), [v](Cfg& c) { c.padding = v; }});
  for (int v : {-1, 0, 1, 2, 3, 4, 5, 6, 100}) m.push_back({mc::fmt("act=%d", v), [v](Cfg& c) { c.act = v; }});
  for (int v : {1, 31, 32, 33, 63, 64, 65, 96, 97, 127, 128, 160, 192})
    m.push_back({mc::fmt("channels_in=%d", v), [v](Cfg& c) { c.channels_in = v; }});
  for (int v : {1, 31, 33, 63, 64, 65, 96, 127, 128, 129, 192})
    m.push_back({mc::fmt("channels_in=%d with matching input", v), [v](Cfg& c) { c.channels_in = v; if (c.in.dims.size() == 4) c.in.dims[3] = (v + 31) / 32; }});
  for (int v : {1, 2, 3, 4, 5}) m.push_back({mc::fmt("filter words=%d", v), [v](Cfg& c) { if (c.w.dims.size() == 4) c.w.dims[3] = v; }});
  for (int v : {1, 2, 3, 4, 5}) m.push_back({mc::fmt("input words=%d", v), [v](Cfg& c) { if (c.in.dims.size() == 4) c.in.dims[3] = v; }});
  for (int v : {1, 2, 3, 5, 6})
    m.push_back({mc::fmt("channels_out=%d", v), [v](Cfg& c) { if (!c.w.dims.empty()) c.w.dims[0] = v; c.mul.dims = c.bias.dims = c.thr.dims = {v}; }});
  for (TfLiteType t : {kTfLiteFloat32, kTfLiteInt8, kTfLiteUInt8, kTfLiteInt64, kTfLiteBool}) {
    m.push_back({mc::fmt("input type %d", t), [t](Cfg& c) { c.in.type = t; }});
    m.push_back({mc::fmt("filter type %d", t), [t](Cfg& c) { c.w.type = t; }});
  }
  for (TfLiteType t : {kTfLiteFloat32, kTfLiteInt8, kTfLiteInt32, kTfLiteUInt8, kTfLiteInt16, kTfLiteInt64, kTfLiteBool})
    m.push_back({mc::fmt("output type %d", t), [t](Cfg& c) { c.out = t; }});
  m.push_back({"output quantized", [](Cfg& c) { c.out_quant = true; }});
  m.push_back({"output unquantized", [](Cfg& c) { c.out_quant = false; }});
  auto dims = [&](const char* n, std::function<TS&(Cfg&)> sel) {
    m.push_back({std::string(n) + " one longer", [sel](Cfg& c) { sel(c).dims = {c.w.dims[0] + 1}; }});
    m.push_back({std::string(n) + " one shorter", [sel](Cfg& c) { sel(c).dims = {c.w.dims[0] - 1}; }});
    m.push_back({std::string(n) + " single", [sel](Cfg& c) { sel(c).dims = {1}; }});
    m.push_back({std::string(n) + " 2d", [sel](Cfg& c) { sel(c).dims = {c.w.dims[0], 1}; }});
    m.push_back({std::string(n) + " 2d'", [sel](Cfg& c) { sel(c).dims = {1, c.w.dims[0]}; }});
    m.push_back({std::string(n) + " scalar", [sel](Cfg& c) { sel(c).dims = {}; }});
    m.push_back({std::string(n) + " int32", [sel](Cfg& c) { sel(c).type = kTfLiteInt32; }});
    m.push_back({std::string(n) + " float", [sel](Cfg& c) { sel(c).type = kTfLiteFloat32; }});
    m.push_back({std::string(n) + " int8", [sel](Cfg& c) { sel(c).type = kTfLiteInt8; }});
  };
  dims("multiplier", [](Cfg& c) -> TS& { return c.mul; });
  dims("bias", [](Cfg& c) -> TS& { return c.bias; });
  dims("thresholds", [](Cfg& c) -> TS& { return c.thr; });
  m.push_back({"input rank 3", [](Cfg& c) { c.in.dims = {3, 3, 2}; }});
  m.push_back({"input rank 2", [](Cfg& c) { c.in.dims = {3, 2}; }});
  m.push_back({"input rank 5", [](Cfg& c) { c.in.dims.insert(c.in.dims.begin(), 1); }});
  m.push_back({"filter rank 3", [](Cfg& c) { c.w.dims.pop_back(); }});
  m.push_back({"filter rank 5", [](Cfg& c) { c.w.dims.push_back(1); }});
  m.push_back({"3 inputs", [](Cfg& c) { c.n_inputs = 3; }});
  m.push_back({"4 inputs", [](Cfg& c) { c.n_inputs = 4; }});
  m.push_back({"6 inputs", [](Cfg& c) { c.n_inputs = 6; }});
  m.push_back({"dynamic input", [](Cfg& c) { c.dynamic_input = true; }});
  return m;
}

void Conv(bool th) {
  auto muts = Mutations();
  const int M = (int)muts.size();
  std::vector<Geo> gs;
  Geo g;
  g.H = 3; g.W = 2; g.Co = 4; g.fh = 3; g.fw = 2; g.Ci = 64; g.pad = SAME_ONE; gs.push_back(g);
  g.pad = VALID; gs.push_back(g);
  g.pad = SAME_ZERO; gs.push_back(g);
  g.Ci = 33; g.pad = VALID; gs.push_back(g);
  g.pad = SAME_ONE; g.groups = 2; g.Ci = 128; gs.push_back(g);
  g.groups = 3; g.Ci = 96; g.Co = 6; g.pad = VALID; gs.push_back(g);
  for (size_t gi = 0; gi < gs.size(); ++gi)
    for (int kern = 0; kern < 3; ++kern)
      for (int type = 0; type < 3; ++type) {
        Cfg b;
        b.kern = kern; b.out_type_kind = type; b.g = gs[gi];
        const Geo& q = gs[gi];
        b.pad_values = q.pad == SAME_ONE; b.padding = q.pad == VALID ? tflite::Padding_VALID : tflite::Padding_SAME;
        b.channels_in = q.Ci; b.act = 0;
        b.in = {kTfLiteInt32, {1, q.H, q.W, q.Cw()}};
        b.w = {kTfLiteInt32, {q.Co, q.fh, q.fw, q.Cgw()}};
        b.mul = b.bias = {kTfLiteFloat32, {q.Co}};
        b.thr = {kTfLiteInt32, {q.Co}};
        b.out = type == FLOAT ? kTfLiteFloat32 : type == INT8 ? kTfLiteInt8 : kTfLiteInt32;
        b.out_quant = type == INT8;
        // all subsets of missing options
        for (unsigned miss = 0; miss < 256; ++miss)
          EX->config([&]() { return mc::fmt("conv base%zu %s %s missing=%02x", gi, kKernN[kern], kOutN[type], miss); },
                     [&]() { Cfg c = b; c.missing = miss; RunCfg(c); });
        for (int i = 0; i < M; ++i)
          for (int j = i; j < M; ++j)
            EX->config([&]() { return mc::fmt("conv base%zu %s %s: ", gi, kKernN[kern], kOutN[type]) + muts[i].name + (j > i ? " + " + muts[j].name : ""); },
                       [&]() {
                         for (int k = th ? j : M - 1; k < M; ++k) {
                           Cfg c = b;
                           muts[i].f(c);
                           if (j > i) muts[j].f(c);
                           if (th && k > j) muts[k].f(c);
                           
                           RunCfg(c);
                           if (EX->failed_here) break;
                         }
                       });
      }
}

void Unary() {
  mc::Explorer& ex = *EX;
  const std::vector<TfLiteType> T = {kTfLiteFloat32, kTfLiteInt8, kTfLiteBool, kTfLiteInt32, kTfLiteUInt8, kTfLiteInt16, kTfLiteInt64, kTfLiteUInt32};
  const std::vector<std::vector<int>> D = {{5}, {2, 40}, {1, 2, 2, 64}, {1, 2, 2, 65}, {2, 2, 2}, {1, 2, 2, 2}, {1, 2, 2, 3}, {1, 2, 3, 2}, {2, 2, 2, 2}, {1, 1, 2, 2, 33}, {1, 1, 2, 2, 2}};
  for (int deq = 0; deq < 2; ++deq)
    for (TfLiteType ti : T)
      for (TfLiteType to : T)
        for (auto& di : D)
          for (auto& d2 : D)
            for (int extra = 0; extra < 3; ++extra)
              ex.config([&]() { return mc::fmt("%s %d->%d %s -> %s %d", deq ? "dequantize" : "quantize", ti, to, DimStr(di).c_str(), DimStr(d2).c_str(), extra); },
                        [&]() {
                          Interp it;
                          int a = it.Tensor(ti, di, kTfLiteArenaRw, 0.5f, 0);
                          int o = it.Tensor(to, d2, kTfLiteArenaRw, 0.5f, 0);
                          std::vector<int> ins = {a}, outs = {o};
                          if (extra == 1) ins.push_back(it.Tensor(ti, di));
                          if (extra == 2) outs.push_back(it.Tensor(to, d2));
                          it.Node(deq ? Register_DEQUANTIZE() : Register_QUANTIZE(), ins, outs, {});
                          auto real = [](TfLiteType t) { return t == kTfLiteFloat32 || t == kTfLiteInt8 || t == kTfLiteBool; };
                          bool want = extra == 0 && di.size() == d2.size();
                          if (deq) {
                            want = want && ti == kTfLiteInt32 && real(to) && PackedDims(d2) == di;
                          } else want = want && real(ti) && to == kTfLiteInt32;
                          bool got = it.Allocate() == kTfLiteOk;
                          ex.eval(1);
                          (got ? ex.sh->accepted : ex.sh->rejected)++;
                          if (got != want) { ex.fail(got ? "unsupported configuration accepted" : "supported configuration rejected: %s", it.error.c_str()); return; }
                          if (!got) return;
                          memset(it.data<char>(a), 0, it.bytes(a));
                          if (it.Invoke() != kTfLiteOk) ex.fail("accepted configuration fails to run");
                        });
  // max pooling
  for (TfLiteType ti : T)
    for (TfLiteType to : T)
      for (int rank = 2; rank <= 5; ++rank)
        for (int fh = 0; fh <= 2; ++fh)
          for (int fw = 0; fw <= 2; ++fw)
            for (int sh = 0; sh <= 2; ++sh)
              for (int sw = 0; sw <= 2; ++sw)
                for (int rawpad : {(int)tflite::Padding_VALID, (int)tflite::Padding_SAME, -1, 2})
                  for (int miss = 0; miss < 6; ++miss)
                    for (int extra = 0; extra < 3; ++extra) {
                      const bool known = rawpad == tflite::Padding_VALID || rawpad == tflite::Padding_SAME;
                      if ((miss || !known) && (rank != 4 || extra)) continue;
                      const Pad pad = rawpad == tflite::Padding_VALID ? VALID : SAME_ZERO;
                      ex.config([&]() { return mc::fmt("maxpool %d->%d rank%d f%dx%d s%dx%d padding%d miss%d extra%d", ti, to, rank, fh, fw, sh, sw, rawpad, miss, extra); },
                                [&]() {
                                  Interp it;
                                  std::vector<int> d(rank, 2);
                                  int a = it.Tensor(ti, d), o = it.Tensor(to, {});
                                  std::vector<int> ins = {a}, outs = {o};
                                  if (extra == 1) ins.push_back(it.Tensor(ti, d));
                                  if (extra == 2) outs.push_back(it.Tensor(to, {}));
                                  flexbuffers::Builder fbb;
                                  fbb.Map([&]() {
                                    if (miss != 1) fbb.Int("filter_height", fh);
                                    if (miss != 2) fbb.Int("filter_width", fw);
                                    if (miss != 5) fbb.Int("padding", rawpad);
                                    if (miss != 3) fbb.Int("stride_height", sh);
                                    if (miss != 4) fbb.Int("stride_width", sw);
                                  });
                                  fbb.Finish();
                                  it.Node(Register_BMAXPOOL_2D(), ins, outs, fbb.GetBuffer());
                                  bool want = extra == 0 && rank == 4 && ti == kTfLiteInt32 && to == kTfLiteInt32 && !miss && known && fh && fw && sh && sw;
                                  bool got = it.Allocate() == kTfLiteOk;
                                  ex.eval(1);
                                  (got ? ex.sh->accepted : ex.sh->rejected)++;
                                  if (got != want) { ex.fail(got ? "unsupported configuration accepted" : "supported configuration rejected: %s", it.error.c_str()); return; }
                                  if (!got) return;
                                  PoolGeo g;
                                  g.B = g.H = g.W = 2; g.C = 64; g.fh = fh; g.fw = fw; g.sh = sh; g.sw = sw; g.pad = pad;
                                  std::vector<uint32_t> in(16);
                                  for (int i = 0; i < 16; ++i) in[i] = (uint32_t)Mix(i + 5);
                                  it.Set(a, in.data(), 64);
                                  if (it.Invoke() != kTfLiteOk) { ex.fail("accepted configuration fails to run"); return; }
                                  auto e = PoolModel(g, in);
                                  if (e.size() * 4 != it.bytes(o) || memcmp(e.data(), it.data<char>(o), it.bytes(o))) ex.fail("accepted but miscomputed");
                                });
                    }
}
}  // namespace

int main(int argc, char** argv) {
  mc::Options o = mc::parse(argc, argv);
  return mc::run(o, [&](mc::Explorer& ex) {
    EX = &ex;
    Conv(ex.thorough);
    Unary();
  });
}
