// Helpers of the stand-in TensorFlow dialects (see ../td).
#ifndef STANDIN_COMMON_H_
#define STANDIN_COMMON_H_
#include <string>

#include "llvm/ADT/STLExtras.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringSwitch.h"
#include "mlir/Bytecode/BytecodeOpInterface.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantOps.h"
#include "mlir/Dialect/Quant/QuantTypes.h"
#include "mlir/IR/Attributes.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinAttributes.h"
#include "mlir/IR/BuiltinTypes.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/DialectImplementation.h"
#include "mlir/IR/Matchers.h"
#include "mlir/IR/OpDefinition.h"
#include "mlir/IR/PatternMatch.h"
#include "mlir/IR/TypeUtilities.h"
#include "mlir/Interfaces/InferTypeOpInterface.h"
#include "mlir/Interfaces/SideEffectInterfaces.h"

namespace standin {
extern bool ArithConstants;  // constants of the tf dialect are arith.constant
// Null when the shapes do not broadcast.
mlir::Type BroadcastType(mlir::Type a, mlir::Type b);
mlir::Type WithElement(mlir::Type t, mlir::Type element);
mlir::Type TransposeType(mlir::Value x, mlir::Value perm);
}  // namespace standin

inline void standin_push(llvm::SmallVectorImpl<mlir::Value>& v, mlir::Value x) { v.push_back(x); }
template <class R>
std::enable_if_t<!std::is_convertible_v<R, mlir::Value>> standin_push(llvm::SmallVectorImpl<mlir::Value>& v, R&& r) {
  for (mlir::Value x : r) v.push_back(x);
}
#endif
