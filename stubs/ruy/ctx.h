#ifndef RUY_RUY_CTX_H_
#define RUY_RUY_CTX_H_
#include <cstdint>
#include <memory>
#include "ruy/allocator.h"
#include "ruy/path.h"
#include "ruy/prepacked_cache.h"
#include "ruy/tune.h"
namespace ruy {
class Ctx {
 public:
  Ctx();
  ~Ctx();
  Allocator* GetMainAllocator() { return &main_allocator_; }
  PrepackedCache* GetPrepackedCache() { return &cache_; }
  void ClearPrepackedCache() { cache_.Clear(); }
  Tuning GetMainThreadTuning() { return Tuning::kAuto; }
  int max_num_threads() const { return max_num_threads_; }
  void set_max_num_threads(int v) { max_num_threads_ = v; }
  Path GetRuntimeEnabledPaths() { return Path::kStandardCpp; }
  Path SelectPath(Path) { return Path::kStandardCpp; }
  void set_performance_advisory(int) {}
  void clear_performance_advisories() {}
 private:
  int max_num_threads_ = 1;
  Allocator main_allocator_;
  PrepackedCache cache_;
};
}  // namespace ruy
#endif
