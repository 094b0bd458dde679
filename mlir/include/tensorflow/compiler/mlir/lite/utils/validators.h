// Stand-in with the meaning of TensorFlow's header of this name.
#ifndef STANDIN_VALIDATORS_H_
#define STANDIN_VALIDATORS_H_
#include "mlir/IR/BuiltinAttributes.h"
#include "mlir/IR/Operation.h"
namespace mlir {
namespace TFL {
// An array of four integers of which the first and the last are one.
inline bool TFIntListIs1XY1(const Attribute attr) {
  auto e = attr.dyn_cast_or_null<ArrayAttr>();
  if (!e || e.size() != 4) return false;
  for (Attribute a : e.getValue())
    if (!a.isa<IntegerAttr>()) return false;
  auto at = [&](int i) { return e.getValue()[i].cast<IntegerAttr>().getInt(); };
  return at(0) == 1 && at(3) == 1;
}
}  // namespace TFL
}  // namespace mlir
#endif
