// What the generated operator classes and patterns call.
#ifndef CONVSIM_SUPPORT_H_
#define CONVSIM_SUPPORT_H_
#include "mlir/Bytecode/BytecodeOpInterface.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantTypes.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinAttributes.h"
#include "mlir/IR/BuiltinTypes.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/DialectImplementation.h"
#include "mlir/IR/Matchers.h"
#include "mlir/IR/OpImplementation.h"
#include "mlir/IR/PatternMatch.h"
#include "mlir/IR/TypeUtilities.h"
#include "mlir/Interfaces/SideEffectInterfaces.h"
#include "llvm/ADT/StringSwitch.h"
namespace convsim {
mlir::Type BroadcastType(mlir::Type a, mlir::Type b);
mlir::Type WithElement(mlir::Type t, mlir::Type element);
mlir::Type TransposeType(mlir::Type t, mlir::Value perm);
inline llvm::SmallVector<mlir::Location, 4> Locs(llvm::ArrayRef<mlir::Operation*> ops) {
  llvm::SmallVector<mlir::Location, 4> l;
  for (auto* o : ops) l.push_back(o->getLoc());
  return l;
}
inline void Append(llvm::SmallVectorImpl<mlir::Value>& to, mlir::Value v) { to.push_back(v); }
template <typename R>
inline auto Append(llvm::SmallVectorImpl<mlir::Value>& to, R&& range) -> decltype(range.begin(), void()) {
  for (mlir::Value v : range) to.push_back(v);
}
inline mlir::Type TypeOf(mlir::Type t) { return t; }
inline mlir::Type TypeOf(mlir::Value v) { return v.getType(); }
inline mlir::Type TypeOf(mlir::TypeAttr a) { return a.getValue(); }
}  // namespace convsim
#endif
