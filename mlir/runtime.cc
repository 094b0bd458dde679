#include "runtime.h"

#include "ops_common.h"
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"

namespace rt {
static TfLiteType Ty(Type t) { return t == F32 ? kTfLiteFloat32 : t == I32 ? kTfLiteInt32 : t == I8 ? kTfLiteInt8 : kTfLiteBool; }
Status Run(const std::string& code, int kernel, const std::vector<uint8_t>& options, const std::vector<T>& in, T& out, std::string& err) {
  const TfLiteRegistration* reg = nullptr;
  if (code == "LceBconv2d" && kernel < 3) reg = Reg(kernel);
  else {
    static tflite::MutableOpResolver res;
    static bool done = false;
    if (!done) compute_engine::tflite::RegisterLCECustomOps(&res);
    done = true;
    reg = res.FindOp(code.c_str(), 1);
  }
  if (!reg) { err = "no operator " + code; return FAILED; }
  Interp it;
  std::vector<int> idx;
  for (auto& t : in) {
    if (t.none) { idx.push_back(-1); continue; }
    const int i = it.Tensor(Ty(t.type), t.dims, t.constant ? kTfLiteMmapRo : kTfLiteArenaRw, t.scale, t.zp);
    if (t.constant) it.Set(i, t.data.data(), t.data.size());
    idx.push_back(i);
  }
  const int o = it.Tensor(Ty(out.type), out.dims, kTfLiteArenaRw, out.scale, out.zp);
  it.Node(reg, idx, {o}, options);
  if (it.Allocate() != kTfLiteOk) { err = it.error; return REJECTED; }
  for (size_t k = 0; k < in.size(); ++k)
    if (!in[k].none && !in[k].constant) it.Set(idx[k], in[k].data.data(), in[k].data.size());
  if (it.Invoke() != kTfLiteOk) { err = "invocation failed: " + it.error; return FAILED; }
  out.dims = it.dims(o);
  out.data.assign(it.tensors[o].data.raw, it.tensors[o].data.raw + it.bytes(o));
  return OK;
}
}  // namespace rt
