#ifndef RUY_RUY_TUNE_H_
#define RUY_RUY_TUNE_H_
namespace ruy {
enum class Tuning { kAuto, kGeneric, kA55ish, kX1, kOutOfOrder, kInOrder };
class TuningResolver {
 public:
  TuningResolver() {}
  Tuning Resolve() { return Tuning::kAuto; }
};
}  // namespace ruy
#endif
