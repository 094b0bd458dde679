// Stand-in for flatbuffers/flexbuffers.h: same wire format, subset of the API.
#ifndef LCE_STUB_FLEX_H_
#define LCE_STUB_FLEX_H_
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <map>
#include <string>
#include <vector>
#ifndef FLATBUFFERS_LITTLEENDIAN
#define FLATBUFFERS_LITTLEENDIAN 1
#endif
namespace flatbuffers {}
namespace flexbuffers {
enum Type { FBT_NULL = 0, FBT_INT = 1, FBT_UINT = 2, FBT_FLOAT = 3,
            FBT_KEY = 4, FBT_STRING = 5, FBT_MAP = 9, FBT_BOOL = 26 };
// Maps of scalars and strings in the real wire format (a map is a vector of
// sorted values behind a vector of key offsets; all elements of a vector have
// the width of the widest one).
class Builder {
 public:
  explicit Builder(size_t = 256, int = 0) {}
  size_t StartMap(const char* = nullptr) { is_map_ = true; return 0; }
  size_t EndMap(size_t) { return 0; }
  template <typename F> size_t Map(F f) { is_map_ = true; f(); return 0; }
  template <typename F> size_t Map(const char*, F f) { is_map_ = true; f(); return 0; }
  template <typename F, typename T> size_t Map(F f, T& t) { is_map_ = true; f(t); return 0; }
  size_t Key(const char* k) { pending_ = k; return 0; }
  size_t Key(const std::string& k) { pending_ = k; return 0; }
  void Null() { Null(pending_.c_str()); }
  void Null(const char* k) { add(k, FBT_NULL, 0, 0); }
  void Int(int64_t v) { Int(pending_.c_str(), v); }
  void Int(const char* k, int64_t v) {
    const uint64_t u = (uint64_t)v << 1;
    add(k, FBT_INT, (uint64_t)v, width(v >= 0 ? u : ~u));
  }
  void UInt(uint64_t v) { UInt(pending_.c_str(), v); }
  void UInt(const char* k, uint64_t v) { add(k, FBT_UINT, v, width(v)); }
  void Bool(bool v) { Bool(pending_.c_str(), v); }
  void Bool(const char* k, bool v) { add(k, FBT_BOOL, v, 0); }
  void Double(double v) { Double(pending_.c_str(), v); }
  void Double(const char* k, double v) {
    float f = (float)v;
    uint64_t b = 0;
    memcpy(&b, &v, 8);
    add(k, FBT_FLOAT, b, (double)f == v ? 2 : 3);
  }
  void Float(float v) { Double(v); }
  void Float(const char* k, float v) { Double(k, v); }
  size_t String(const char* v) { String(pending_.c_str(), std::string(v)); return 0; }
  size_t String(const std::string& v) { String(pending_.c_str(), v); return 0; }
  void String(const char* k, const std::string& v) {
    const uint64_t key = put_key(k);
    const int w = width(v.size());
    align(w);
    put(v.size(), 1 << w);
    const uint64_t at = buf_.size();
    buf_.insert(buf_.end(), v.begin(), v.end());
    buf_.push_back(0);
    els_.push_back({k, key, FBT_STRING, at, w});
  }
  void String(const char* k, const char* v) { String(k, std::string(v)); }
  void Add(int v) { Int(v); }
  void Add(bool v) { Bool(v); }
  void Add(double v) { Double(v); }
  void Add(const char* v) { String(v); }
  void Finish() {
    El root{"", 0, FBT_NULL, 0, 0};
    if (is_map_) {
      std::stable_sort(els_.begin(), els_.end(), [](const El& a, const El& b) { return a.name < b.name; });
      const uint64_t n = els_.size();
      // keys
      int kw = width(n);
      for (uint64_t i = 0; i < n; ++i) kw = std::max(kw, offset_width(els_[i].key, i + 1));
      align(kw);
      put(n, 1 << kw);
      const uint64_t kloc = buf_.size();
      for (auto& e : els_) put(buf_.size() - e.key, 1 << kw);
      // values
      int w = std::max(width(n), offset_width(kloc, 0));
      for (uint64_t i = 0; i < n; ++i) w = std::max(w, inlined(els_[i]) ? els_[i].w : offset_width(els_[i].v, i + 3));
      align(w);
      put(buf_.size() - kloc, 1 << w);
      put(1u << kw, 1 << w);
      put(n, 1 << w);
      const uint64_t vloc = buf_.size();
      for (auto& e : els_) any(e, 1 << w);
      for (auto& e : els_) buf_.push_back((uint8_t)(e.type << 2 | (inlined(e) ? std::max(w, e.w) : e.w)));
      root = El{"", 0, FBT_MAP, vloc, w};
    } else if (!els_.empty()) {
      root = els_.back();
    }
    const int w = inlined(root) ? root.w : offset_width(root.v, 0);
    align(w);
    any(root, 1 << w);
    buf_.push_back((uint8_t)(root.type << 2 | root.w));
    buf_.push_back((uint8_t)(1 << w));
  }
  const std::vector<uint8_t>& GetBuffer() const { return buf_; }
  size_t GetSize() const { return buf_.size(); }
  void Clear() { els_.clear(); keys_.clear(); buf_.clear(); is_map_ = false; }

 private:
  struct El { std::string name; uint64_t key; int type; uint64_t v; int w; };
  static bool inlined(const El& e) { return e.type <= FBT_FLOAT || e.type == FBT_BOOL; }
  static int width(uint64_t u) { return !(u & ~0xffull) ? 0 : !(u & ~0xffffull) ? 1 : !(u & ~0xffffffffull) ? 2 : 3; }
  int offset_width(uint64_t to, uint64_t index) const {
    for (int w = 0; w < 4; ++w) {
      const uint64_t b = 1ull << w;
      const uint64_t loc = buf_.size() + ((~buf_.size() + 1) & (b - 1)) + index * b;
      if (width(loc - to) == w) return w;
    }
    return 3;
  }
  void align(int w) {
    const uint64_t b = 1ull << w;
    buf_.insert(buf_.end(), (~buf_.size() + 1) & (b - 1), 0);
  }
  void put(uint64_t v, int n) { for (int i = 0; i < n; ++i) buf_.push_back((uint8_t)(v >> (8 * i))); }
  void any(const El& e, int n) {
    if (e.type == FBT_FLOAT && n == 4) {
      double d;
      memcpy(&d, &e.v, 8);
      float f = (float)d;
      uint32_t u;
      memcpy(&u, &f, 4);
      put(u, 4);
    } else {
      put(inlined(e) ? e.v : buf_.size() - e.v, n);
    }
  }
  uint64_t put_key(const std::string& k) {
    auto it = keys_.find(k);
    if (it != keys_.end()) return it->second;
    const uint64_t at = buf_.size();
    buf_.insert(buf_.end(), k.begin(), k.end());
    buf_.push_back(0);
    return keys_[k] = at;
  }
  void add(const char* k, int type, uint64_t v, int w) {
    const uint64_t key = put_key(k);
    els_.push_back({k, key, type, v, w});
  }
  std::vector<El> els_;
  std::map<std::string, uint64_t> keys_;
  std::string pending_;
  std::vector<uint8_t> buf_;
  bool is_map_ = false;
};
class String {
 public:
  explicit String(const std::string& s) : s_(s) {}
  std::string str() const { return s_; }
  const char* c_str() const { return s_.c_str(); }
  size_t length() const { return s_.size(); }
  size_t size() const { return s_.size(); }
 private:
  std::string s_;
};
class Map;
class Vector {
 public:
  explicit Vector(size_t n) : n_(n) {}
  size_t size() const { return n_; }
 private:
  size_t n_;
};
class Reference {
 public:
  Reference() {}
  bool IsNull() const { return t_ == FBT_NULL; }
  bool IsInt() const { return t_ == FBT_INT; }
  bool IsUInt() const { return t_ == FBT_UINT; }
  bool IsIntOrUint() const { return IsInt() || IsUInt(); }
  bool IsFloat() const { return t_ == FBT_FLOAT; }
  bool IsNumeric() const { return IsIntOrUint() || IsFloat(); }
  bool IsBool() const { return t_ == FBT_BOOL; }
  bool IsString() const { return t_ == FBT_STRING; }
  bool IsMap() const { return t_ == FBT_MAP; }
  int64_t AsInt64() const {
    if (t_ == FBT_INT || t_ == FBT_BOOL || t_ == FBT_UINT) return i_;
    if (t_ == FBT_FLOAT) return (int64_t)d_;
    if (t_ == FBT_STRING) return atoll(s_.c_str());
    return 0;
  }
  int32_t AsInt32() const { return (int32_t)AsInt64(); }
  int16_t AsInt16() const { return (int16_t)AsInt64(); }
  int8_t AsInt8() const { return (int8_t)AsInt64(); }
  uint64_t AsUInt64() const { return (uint64_t)AsInt64(); }
  uint32_t AsUInt32() const { return (uint32_t)AsInt64(); }
  uint8_t AsUInt8() const { return (uint8_t)AsInt64(); }
  bool AsBool() const { return AsInt64() != 0; }
  double AsDouble() const { return t_ == FBT_FLOAT ? d_ : t_ == FBT_STRING ? atof(s_.c_str()) : (double)AsInt64(); }
  float AsFloat() const { return (float)AsDouble(); }
  String AsString() const { return String(s_); }
  const char* AsKey() const { return s_.c_str(); }
  std::string ToString() const { return IsString() ? s_ : std::to_string(AsInt64()); }
  Map AsMap() const;

 private:
  int t_ = FBT_NULL;
  int64_t i_ = 0;
  double d_ = 0;
  std::string s_;
  std::vector<uint8_t> raw_;
  size_t at_ = 0;
  int w_ = 1;
  // The buffers of these explorations are the ones written above; anything
  // read outside of one is a fault of the code under test.
  static uint64_t get(const std::vector<uint8_t>& b, size_t at, int n) {
    if (n < 1 || n > 8 || at + n > b.size()) abort();
    uint64_t v = 0;
    for (int i = 0; i < n; ++i) v |= (uint64_t)b[at + i] << (8 * i);
    return v;
  }
  static Reference at(const std::vector<uint8_t>& b, size_t loc, int parent, int packed) {
    Reference r;
    r.t_ = packed >> 2;
    const int w = 1 << (packed & 3);
    const uint64_t v = get(b, loc, parent);
    if (r.t_ == FBT_INT) r.i_ = (int64_t)(v << (64 - 8 * parent)) >> (64 - 8 * parent);
    else if (r.t_ == FBT_UINT || r.t_ == FBT_BOOL) r.i_ = (int64_t)v;
    else if (r.t_ == FBT_FLOAT) {
      if (parent == 4) { float f; uint32_t u = (uint32_t)v; memcpy(&f, &u, 4); r.d_ = f; }
      else memcpy(&r.d_, &v, 8);
    } else if (r.t_ == FBT_STRING) {
      const size_t o = loc - v;
      const uint64_t n = get(b, o - w, w);
      if (o + n > b.size()) abort();
      r.s_.assign((const char*)b.data() + o, n);
    } else if (r.t_ == FBT_MAP) {
      r.raw_ = b;
      r.at_ = loc - v;
      r.w_ = w;
    }
    return r;
  }
  friend Reference GetRoot(const uint8_t*, size_t);
};
class Map {
 public:
  Reference operator[](const char* k) const {
    auto it = kv_.find(k);
    return it == kv_.end() ? Reference() : it->second;
  }
  Reference operator[](const std::string& k) const { return (*this)[k.c_str()]; }
  size_t size() const { return kv_.size(); }
  bool IsTheEmptyMap() const { return kv_.empty(); }
  Vector Keys() const { return Vector(kv_.size()); }
  Vector Values() const { return Vector(kv_.size()); }
  std::map<std::string, Reference> kv_;
};
inline Map Reference::AsMap() const {
  Map m;
  if (t_ != FBT_MAP) return m;
  const uint64_t n = get(raw_, at_ - w_, w_), kw = get(raw_, at_ - 2 * w_, w_);
  const size_t keys = at_ - 3 * w_ - get(raw_, at_ - 3 * w_, w_);
  for (uint64_t i = 0; i < n; ++i) {
    const size_t kl = keys + i * kw;
    size_t k = kl - get(raw_, kl, (int)kw);
    std::string name;
    while (get(raw_, k, 1)) name.push_back((char)raw_[k++]);
    m.kv_[name] = at(raw_, at_ + i * w_, w_, (int)get(raw_, at_ + n * w_ + i, 1));
  }
  return m;
}
inline Reference GetRoot(const uint8_t* b, size_t n) {
  if (n < 3) return Reference();
  const std::vector<uint8_t> v(b, b + n);
  return Reference::at(v, n - 2 - v[n - 1], v[n - 1], v[n - 2]);
}
inline Reference GetRoot(const std::vector<uint8_t>& v) {
  return GetRoot(v.data(), v.size());
}
}  // namespace flexbuffers
#endif
