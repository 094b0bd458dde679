// What the harness and the ARM program tell each other (32-bit fields only).
#ifndef VERIF_A32_CALL_H_
#define VERIF_A32_CALL_H_
#include <cstdint>
namespace a32 {
struct Tensor {
  int32_t type, rank, dims[8], allocation, zero_point, quantized, resized;
  uint32_t bytes, data;
  float scale;
};
enum What { kInit, kFree, kPrepare, kInvoke };
struct Request {
  uint32_t what, op, context;              // context: identity of the interpreter
  uint32_t tensors, n_tensors;             // Tensor[]
  uint32_t inputs, n_inputs, outputs, n_outputs, temporaries, n_temporaries;  // int32_t[]
  uint32_t user_data, options, n_options;
  // answers (tensors and temporaries are those of the program)
  int32_t status;
  uint32_t result, tensors_after, n_tensors_after, temporaries_after, n_temporaries_after, failed;
};
}  // namespace a32
#endif
