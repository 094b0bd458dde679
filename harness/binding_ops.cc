// The registrations the binding resolves to, by name, and the event log.
#include "tensorflow/lite/interpreter.h"
namespace tflite { std::string g_log; }
extern "C" __attribute__((visibility("default"))) const char* stub_log() { return tflite::g_log.c_str(); }
extern "C" __attribute__((visibility("default"))) void stub_clear() { tflite::g_log.clear(); }
namespace compute_engine {
namespace tflite {
#define REG(f)                              \
  TfLiteRegistration* f() {                 \
    static TfLiteRegistration r = [] {      \
      TfLiteRegistration x{};               \
      x.init = (decltype(x.init))(void*)#f;                  \
      return x;                             \
    }();                                    \
    return &r;                              \
  }
REG(Register_QUANTIZE)
REG(Register_DEQUANTIZE)
REG(Register_BCONV_2D)
REG(Register_BCONV_2D_REF)
REG(Register_BCONV_2D_OPT_INDIRECT_BGEMM)
REG(Register_BMAXPOOL_2D)
}  // namespace tflite
}  // namespace compute_engine
