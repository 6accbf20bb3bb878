#ifndef LCESIM_OP_RESOLVER_H_
#define LCESIM_OP_RESOLVER_H_
#include <map>
#include <string>
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/schema/schema_generated.h"
namespace tflite {
class OpResolver {
 public:
  virtual ~OpResolver() {}
  virtual const TfLiteRegistration* FindOp(BuiltinOperator op, int version) const = 0;
  virtual const TfLiteRegistration* FindOp(const char* op, int version) const = 0;
};
class MutableOpResolver : public OpResolver {
 public:
  const TfLiteRegistration* FindOp(BuiltinOperator op, int) const override {
    auto it = builtins_.find(op);
    return it == builtins_.end() ? nullptr : it->second;
  }
  const TfLiteRegistration* FindOp(const char* op, int) const override {
    auto it = custom_.find(op);
    return it == custom_.end() ? nullptr : it->second;
  }
  void AddBuiltin(BuiltinOperator op, const TfLiteRegistration* r, int = 1) { builtins_[op] = r; }
  void AddCustom(const char* name, const TfLiteRegistration* r, int = 1) { custom_[name] = r; }
 private:
  std::map<int, const TfLiteRegistration*> builtins_;
  std::map<std::string, const TfLiteRegistration*> custom_;
};
}
#endif
