#ifndef RUY_RUY_CONTEXT_H_
#define RUY_RUY_CONTEXT_H_
#include <cstddef>
#include "ruy/path.h"
#include "ruy/tune.h"
namespace ruy {
class Ctx;
class CtxImpl;
enum class PerformanceAdvisory { kNone = 0, kSuboptimal = 1 };
class Context final {
 public:
  Context();
  ~Context();
  int max_num_threads() const;
  void set_max_num_threads(int value);
  Tuning explicit_tuning() const { return Tuning::kAuto; }
  void set_explicit_tuning(Tuning) {}
  void ClearPrepackedCache();
  Ctx* ctx() { return impl_; }
  const Ctx* ctx() const { return impl_; }
 private:
  Ctx* impl_;
  Context(const Context&) = delete;
  Context& operator=(const Context&) = delete;
};
}  // namespace ruy
#endif
