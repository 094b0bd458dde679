// LCE's operators, executed on the AArch64 interpreter.
#include "shim.h"

#include <cstring>
#include <string>

#include "emu.h"

namespace a64 {
namespace {
void Once() {
  static bool done = false;
  if (done) return;
  done = true;
  const std::string d = A64_DIR;
  Load(d + "/guest.elf", d + "/guest.lst", d + "/guest.imp");
}
template <int K> struct Op {
  static TfLiteRegistration*& guest() { static TfLiteRegistration* r = nullptr; return r; }
  static void* Init(TfLiteContext* c, const char* b, size_t n) { return (void*)Call((uint64_t)guest()->init, (uint64_t)c, (uint64_t)b, n); }
  static void Free(TfLiteContext* c, void* p) { Call((uint64_t)guest()->free, (uint64_t)c, (uint64_t)p); }
  static TfLiteStatus Prepare(TfLiteContext* c, TfLiteNode* n) { return (TfLiteStatus)(int)Call((uint64_t)guest()->prepare, (uint64_t)c, (uint64_t)n); }
  static TfLiteStatus Invoke(TfLiteContext* c, TfLiteNode* n) { return (TfLiteStatus)(int)Call((uint64_t)guest()->invoke, (uint64_t)c, (uint64_t)n); }
  static TfLiteRegistration* Get(const char* symbol) {
    static TfLiteRegistration r;
    if (!guest()) {
      Once();
      guest() = (TfLiteRegistration*)Call(Symbol("_ZN14compute_engine6tflite" + std::to_string(strlen(symbol)) + symbol + "Ev"));
      r = *guest();
      if (r.init) r.init = &Init;
      if (r.free) r.free = &Free;
      if (r.prepare) r.prepare = &Prepare;
      if (r.invoke) r.invoke = &Invoke;
    }
    return &r;
  }
};
}  // namespace
void Cells(int l, int r) { Once(), Call(Symbol("guest_cells"), l, r); }
uint64_t KernelCalls() { return Call(Symbol("guest_kernel_calls")); }
}  // namespace a64
namespace compute_engine { namespace tflite {
#define OP(k, name) TfLiteRegistration* Register_##name() { return a64::Op<k>::Get("Register_" #name); }
OP(0, QUANTIZE)
OP(1, DEQUANTIZE)
OP(2, BCONV_2D)
OP(3, BCONV_2D_REF)
OP(4, BCONV_2D_OPT_BGEMM)
OP(5, BCONV_2D_OPT_INDIRECT_BGEMM)
OP(6, BMAXPOOL_2D)
} }
