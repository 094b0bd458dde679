// The runtime operators of the repository, behind an interface that does not
// need TFLite's headers.
#ifndef VERIF_RUNTIME_H_
#define VERIF_RUNTIME_H_
#include <stdint.h>

#include <string>
#include <vector>
namespace rt {
enum Type { F32, I32, I8, BOOL };
struct T {
  bool none = false, constant = false;
  Type type = F32;
  std::vector<int> dims;
  std::vector<uint8_t> data;
  float scale = 0;
  int zp = 0;
};
enum Status { OK, REJECTED, FAILED };
const char* const kKernels[] = {"reference", "bgemm", "indirect", "default"};
// Creates, prepares and invokes the operator registered under a custom code;
// `kernel` selects the implementation of the convolution. `out` holds the type
// (and, for Dequantize, the dimensions) of the result.
Status Run(const std::string& code, int kernel, const std::vector<uint8_t>& options, const std::vector<T>& in, T& out, std::string& err);
}  // namespace rt
#endif
