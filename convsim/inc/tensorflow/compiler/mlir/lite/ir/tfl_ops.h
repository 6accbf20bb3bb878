#ifndef CONVSIM_TFL_OPS_H_
#define CONVSIM_TFL_OPS_H_
#include "convsim_support.h"
#include "tensorflow/lite/schema/schema_generated.h"
namespace mlir {
namespace TFL {
namespace detail {
struct ConstBytesAttrStorage;
}
class ConstBytesAttr : public Attribute::AttrBase<ConstBytesAttr, Attribute, detail::ConstBytesAttrStorage> {
 public:
  using Base::Base;
  static constexpr StringLiteral name = "tfl.const_bytes";
  static ConstBytesAttr get(MLIRContext* context, StringRef value);
  StringRef getValue() const;
};
}  // namespace TFL
}  // namespace mlir
#include "tfl_dialect.h.inc"
#define GET_OP_CLASSES
#include "tfl_ops.h.inc"
#endif
