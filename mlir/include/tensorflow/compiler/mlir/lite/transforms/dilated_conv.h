// Stand-in: the dilated-convolution rewrite is TensorFlow's own, and never
// applies to the graphs explored here (they have no SpaceToBatchND).
#ifndef STANDIN_DILATED_CONV_H_
#define STANDIN_DILATED_CONV_H_
#include "mlir/IR/PatternMatch.h"
namespace mlir {
namespace TFL {
template <typename Conv2dOpTy>
class ConvertTFDilatedConvOp : public OpRewritePattern<Conv2dOpTy> {
 public:
  using OpRewritePattern<Conv2dOpTy>::OpRewritePattern;
  LogicalResult matchAndRewrite(Conv2dOpTy, PatternRewriter&) const override { return failure(); }
};
}  // namespace TFL
}  // namespace mlir
#endif
