#ifndef LCESIM_REGISTER_H_
#define LCESIM_REGISTER_H_
#include "tensorflow/lite/op_resolver.h"
namespace tflite {
namespace ops {
namespace builtin {
class BuiltinOpResolver : public MutableOpResolver { public: BuiltinOpResolver(); };
class BuiltinOpResolverWithoutDefaultDelegates : public BuiltinOpResolver {
 public:
  BuiltinOpResolverWithoutDefaultDelegates() : BuiltinOpResolver() {}
};
}
}
}
#endif
