#ifndef RUY_RUY_PROFILER_INSTRUMENTATION_H_
#define RUY_RUY_PROFILER_INSTRUMENTATION_H_
namespace ruy {
namespace profiler {
class ScopeLabel {
 public:
  template <typename... Args>
  explicit ScopeLabel(Args...) {}
  ~ScopeLabel() {}
};
}  // namespace profiler
}  // namespace ruy
#endif
