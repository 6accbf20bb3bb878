// Reader for the FlexBuffers wire format (maps, vectors, scalars, strings) and a
// writer of maps of scalars.
#ifndef LCESIM_FLEXBUFFERS_H_
#define LCESIM_FLEXBUFFERS_H_
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <utility>
#include <vector>
#include "flatbuffers/base.h"
namespace flexbuffers {
typedef std::uint8_t byte;
enum Type {
  FBT_NULL = 0, FBT_INT = 1, FBT_UINT = 2, FBT_FLOAT = 3, FBT_KEY = 4, FBT_STRING = 5, FBT_INDIRECT_INT = 6,
  FBT_INDIRECT_UINT = 7, FBT_INDIRECT_FLOAT = 8, FBT_MAP = 9, FBT_VECTOR = 10, FBT_BOOL = 26
};
inline std::uint64_t ReadUInt(const byte* p, int w) {
  std::uint64_t v = 0;
  std::memcpy(&v, p, w);
  return v;
}
inline std::int64_t ReadInt(const byte* p, int w) {
  switch (w) {
    case 1: { std::int8_t v; std::memcpy(&v, p, 1); return v; }
    case 2: { std::int16_t v; std::memcpy(&v, p, 2); return v; }
    case 4: { std::int32_t v; std::memcpy(&v, p, 4); return v; }
    default: { std::int64_t v; std::memcpy(&v, p, 8); return v; }
  }
}
inline double ReadFloat(const byte* p, int w) {
  if (w == 4) { float f; std::memcpy(&f, p, 4); return f; }
  if (w == 8) { double d; std::memcpy(&d, p, 8); return d; }
  return 0;
}
class Map;
class Vector;
class Reference {
 public:
  Reference() : data_(nullptr), pw_(0), bw_(0), type_(FBT_NULL) {}
  Reference(const byte* data, int parent_width, int packed_type)
      : data_(data), pw_(parent_width), bw_(1 << (packed_type & 3)), type_(packed_type >> 2) {}
  int GetType() const { return type_; }
  bool IsNull() const { return type_ == FBT_NULL; }
  bool IsBool() const { return type_ == FBT_BOOL; }
  bool IsInt() const { return type_ == FBT_INT || type_ == FBT_INDIRECT_INT; }
  bool IsUInt() const { return type_ == FBT_UINT || type_ == FBT_INDIRECT_UINT; }
  bool IsIntOrUint() const { return IsInt() || IsUInt(); }
  bool IsFloat() const { return type_ == FBT_FLOAT || type_ == FBT_INDIRECT_FLOAT; }
  bool IsNumeric() const { return IsIntOrUint() || IsFloat(); }
  bool IsString() const { return type_ == FBT_STRING; }
  bool IsMap() const { return type_ == FBT_MAP; }
  std::int64_t AsInt64() const {
    switch (type_) {
      case FBT_INT: return ReadInt(data_, pw_);
      case FBT_BOOL:
      case FBT_UINT: return (std::int64_t)ReadUInt(data_, pw_);
      case FBT_FLOAT: return (std::int64_t)ReadFloat(data_, pw_);
      case FBT_INDIRECT_INT: return ReadInt(Indirect(), bw_);
      case FBT_INDIRECT_UINT: return (std::int64_t)ReadUInt(Indirect(), bw_);
      case FBT_INDIRECT_FLOAT: return (std::int64_t)ReadFloat(Indirect(), bw_);
      case FBT_STRING: return std::strtoll(reinterpret_cast<const char*>(Indirect()), nullptr, 10);
      default: return 0;
    }
  }
  std::int32_t AsInt32() const { return (std::int32_t)AsInt64(); }
  std::int16_t AsInt16() const { return (std::int16_t)AsInt64(); }
  std::int8_t AsInt8() const { return (std::int8_t)AsInt64(); }
  std::uint64_t AsUInt64() const { return (std::uint64_t)AsInt64(); }
  std::uint32_t AsUInt32() const { return (std::uint32_t)AsInt64(); }
  bool AsBool() const { return AsInt64() != 0; }
  double AsDouble() const {
    if (type_ == FBT_FLOAT) return ReadFloat(data_, pw_);
    if (type_ == FBT_INDIRECT_FLOAT) return ReadFloat(Indirect(), bw_);
    return (double)AsInt64();
  }
  float AsFloat() const { return (float)AsDouble(); }
  std::string ToString() const { return type_ == FBT_STRING || type_ == FBT_KEY ? reinterpret_cast<const char*>(Indirect()) : std::string(); }
  Map AsMap() const;
  bool IsAnyVector() const { return type_ == FBT_VECTOR || type_ == FBT_MAP; }
  bool IsVector() const { return IsAnyVector(); }
  std::string AsString() const { return ToString(); }
  std::uint16_t AsUInt16() const { return (std::uint16_t)AsInt64(); }
  std::uint8_t AsUInt8() const { return (std::uint8_t)AsInt64(); }
 private:
  friend class Map;
  const byte* Indirect() const { return data_ - ReadUInt(data_, pw_); }
  const byte* data_;
  int pw_, bw_, type_;
};
class Map {
 public:
  Map() : data_(nullptr), bw_(1) {}
  Map(const byte* data, int bw) : data_(data), bw_(bw) {}
  std::size_t size() const { return data_ ? ReadUInt(data_ - bw_, bw_) : 0; }
  Reference operator[](const char* key) const {
    if (!data_) return Reference();
    const byte* keys_slot = data_ - bw_ * 3;
    const byte* keys = keys_slot - ReadUInt(keys_slot, bw_);
    const int kw = (int)ReadUInt(keys_slot + bw_, bw_);
    std::size_t lo = 0, hi = size();
    while (lo < hi) {
      std::size_t mid = (lo + hi) / 2;
      const byte* slot = keys + mid * kw;
      const char* k = reinterpret_cast<const char*>(slot - ReadUInt(slot, kw));
      int c = std::strcmp(key, k);
      if (c == 0) return Reference(data_ + mid * bw_, bw_, data_[size() * bw_ + mid]);
      if (c < 0) hi = mid; else lo = mid + 1;
    }
    return Reference();
  }
  Reference operator[](const std::string& key) const { return (*this)[key.c_str()]; }
  const char* KeyAt(std::size_t i) const {
    const byte* keys_slot = data_ - bw_ * 3;
    const int kw = (int)ReadUInt(keys_slot + bw_, bw_);
    const byte* slot = keys_slot - ReadUInt(keys_slot, bw_) + i * kw;
    return reinterpret_cast<const char*>(slot - ReadUInt(slot, kw));
  }
  bool IsTheEmptyMap() const { return data_ == nullptr; }
 private:
  const byte* data_;
  int bw_;
};
inline Map Reference::AsMap() const { return type_ == FBT_MAP ? Map(Indirect(), bw_) : Map(); }
inline Reference GetRoot(const std::uint8_t* buffer, std::size_t size) {
  if (buffer == nullptr || size < 3) return Reference();
  const byte* end = buffer + size;
  int bw = *--end;
  int packed = *--end;
  end -= bw;
  return Reference(end, bw, packed);
}
inline Reference GetRoot(const std::vector<std::uint8_t>& b) { return GetRoot(b.data(), b.size()); }
// Writes one map of scalars, every slot four or eight bytes wide.
class Builder {
 public:
  explicit Builder(std::size_t = 256) {}
  std::size_t StartMap() { return entries_.size(); }
  std::size_t EndMap(std::size_t) { return 0; }
  template <typename F>
  std::size_t Map(F f) {
    std::size_t s = StartMap();
    f();
    return EndMap(s);
  }
  void Int(const char* key, std::int64_t v) { Put(key, v, FBT_INT); }
  void UInt(const char* key, std::uint64_t v) { Put(key, (std::int64_t)v, FBT_UINT); }
  void Bool(const char* key, bool v) { Put(key, v, FBT_BOOL); }
  void Add(const char* key, std::int64_t v) { Int(key, v); }
  void Clear() { entries_.clear(); buf_.clear(); }
  void Finish() {
    std::vector<Entry> e = entries_;
    // sorted by key, the first of equal keys first
    for (std::size_t i = 1; i < e.size(); i++)
      for (std::size_t j = i; j > 0 && std::strcmp(e[j].key.c_str(), e[j - 1].key.c_str()) < 0; j--) std::swap(e[j], e[j - 1]);
    int w = 4, lg = 2;
    for (auto& x : e)
      if (x.value != (std::int32_t)x.value) w = 8, lg = 3;
    buf_.clear();
    std::vector<std::size_t> at;
    for (auto& x : e) {
      at.push_back(buf_.size());
      buf_.insert(buf_.end(), x.key.c_str(), x.key.c_str() + x.key.size() + 1);
    }
    while (buf_.size() % w) buf_.push_back(0);
    Write(e.size(), w);
    std::size_t keys = buf_.size();
    for (auto a : at) Write(buf_.size() - a, w);
    Write(buf_.size() - keys, w);
    Write(w, w);
    Write(e.size(), w);
    std::size_t map = buf_.size();
    for (auto& x : e) Write((std::uint64_t)x.value, w);
    for (auto& x : e) buf_.push_back((byte)(x.type << 2 | lg));
    while (buf_.size() % w) buf_.push_back(0);
    Write(buf_.size() - map, w);
    buf_.push_back((byte)(FBT_MAP << 2 | lg));
    buf_.push_back((byte)w);
  }
  const std::vector<std::uint8_t>& GetBuffer() const { return buf_; }
  std::size_t GetSize() const { return buf_.size(); }

 private:
  struct Entry {
    std::string key;
    std::int64_t value;
    int type;
  };
  void Put(const char* key, std::int64_t v, int type) { entries_.push_back(Entry{key, v, type}); }
  void Write(std::uint64_t v, int w) {
    for (int i = 0; i < w; i++) buf_.push_back((byte)(v >> (8 * i)));
  }
  std::vector<Entry> entries_;
  std::vector<std::uint8_t> buf_;
};
}
#endif
