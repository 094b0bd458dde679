#ifndef VERIF_A64_SHIM_H_
#define VERIF_A64_SHIM_H_
#include "lce_stub/tflite_all.h"
namespace a64 {
// The schedule of the matrix multiplication: 0 one cell; otherwise cells of
// l x r kernel blocks.
void Cells(int l, int r);
uint64_t KernelCalls();
}  // namespace a64
#endif
