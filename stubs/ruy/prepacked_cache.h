#ifndef RUY_RUY_PREPACKED_CACHE_H_
#define RUY_RUY_PREPACKED_CACHE_H_
#include <cstddef>
#include <cstdint>
#include <list>
#include "ruy/mat.h"
namespace ruy {
class PrepackedCache final {
 public:
  enum class Action { kGotExistingEntry, kInsertedNewEntry };
  explicit PrepackedCache(std::size_t max_bytes) : max_bytes_(max_bytes) {}
  ~PrepackedCache();
  Action Get(const void* src_data, PEMat* packed_matrix);
  void Clear();
  void EjectSome(std::uint64_t pick);  // simulator: an eviction at any moment
  std::size_t size() const { return entries_.size(); }
  std::size_t max_bytes_;
 private:
  struct Entry { const void* src; PEMat packed; std::uint64_t stamp; std::size_t bytes; };
  void Eject(std::list<Entry>::iterator it);
  std::list<Entry> entries_;
  std::size_t bytes_ = 0;
  std::uint64_t stamp_ = 0;
};
}  // namespace ruy
#endif
