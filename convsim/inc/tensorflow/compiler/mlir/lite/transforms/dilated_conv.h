#ifndef CONVSIM_DILATED_CONV_H_
#define CONVSIM_DILATED_CONV_H_
#include "tensorflow/compiler/mlir/lite/utils/validators.h"
namespace mlir {
namespace TFL {
// TensorFlow's own pattern for SpaceToBatch/BatchToSpace pairs; no such pair is simulated.
template <typename Conv2dOpTy>
class ConvertTFDilatedConvOp : public OpRewritePattern<Conv2dOpTy> {
 public:
  using OpRewritePattern<Conv2dOpTy>::OpRewritePattern;
  LogicalResult matchAndRewrite(Conv2dOpTy, PatternRewriter&) const override { return failure(); }
};
}  // namespace TFL
}  // namespace mlir
#endif
