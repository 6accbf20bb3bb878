#ifndef RUY_RUY_ALLOCATOR_H_
#define RUY_RUY_ALLOCATOR_H_
#include <cstddef>
#include <memory>
#include <vector>
namespace ruy {
// Every block starts dirty and ends at a guard, as the simulator's allocator
// seam decides.
class Allocator final {
 public:
  Allocator() {}
  ~Allocator();
  void* AllocateBytes(std::ptrdiff_t num_bytes);
  void* AllocateBytesAvoidingAliasingWith(std::ptrdiff_t n, const void*) { return AllocateBytes(n); }
  template <typename Pointer>
  void Allocate(std::ptrdiff_t count, Pointer* dst) {
    using T = typename std::pointer_traits<Pointer>::element_type;
    *dst = static_cast<T*>(AllocateBytes(count * sizeof(T)));
  }
  void FreeAll();
  std::size_t live() const { return blocks_.size(); }
 private:
  std::vector<void*> blocks_;
};
}  // namespace ruy
#endif
