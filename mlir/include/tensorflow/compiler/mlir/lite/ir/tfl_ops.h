// Stand-in for TensorFlow's header of this name: the operators Compute Engine
// refers to, generated from ../../../../../td.
#ifndef STANDIN_TFL_OPS_H_
#define STANDIN_TFL_OPS_H_
#include "standin/common.h"
#include "tensorflow/lite/schema/schema_generated.h"

#include "standin/tfl_dialect.h.inc"

namespace mlir {
namespace TFL {
namespace detail {
struct ConstBytesStorage;
}
class ConstBytesAttr : public Attribute::AttrBase<ConstBytesAttr, Attribute, detail::ConstBytesStorage> {
 public:
  using Base::Base;
  static constexpr StringLiteral name = "tfl.const_bytes";
  static ConstBytesAttr get(MLIRContext* context, StringRef value);
  StringRef getValue() const;
};
}  // namespace TFL
}  // namespace mlir
MLIR_DECLARE_EXPLICIT_TYPE_ID(::mlir::TFL::ConstBytesAttr)

#define GET_OP_CLASSES
#include "standin/tfl.h.inc"
#endif
