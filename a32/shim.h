#ifndef VERIF_A32_SHIM_H_
#define VERIF_A32_SHIM_H_
#include "lce_stub/tflite_all.h"
namespace a32 {
// The schedule of the matrix multiplication: 0 one cell; otherwise cells of
// l x r kernel blocks.
void Cells(int l, int r);
uint64_t KernelCalls();
// Memory the program can address (for the data of tensors).
void* Alloc(size_t n);
void Free(void* p);
// An interpreter goes away.
void Drop(TfLiteContext* c);
}  // namespace a32
#endif
