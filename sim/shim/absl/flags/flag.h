// Stand-in for the part of absl/flags the command-line tools use. The
// installed absl has these headers but not the library behind them.
#ifndef WODSIM_ABSL_FLAG_H_
#define WODSIM_ABSL_FLAG_H_
#include <stdint.h>
#include <stdlib.h>

#include <map>
#include <string>
#include <vector>

namespace absl {
namespace wodsim {
struct FlagBase {
  virtual ~FlagBase() = default;
  virtual bool Parse(const std::string& s) = 0;
  virtual bool is_bool() const { return false; }
};
inline std::map<std::string, FlagBase*>& Registry() {
  static auto* r = new std::map<std::string, FlagBase*>;
  return *r;
}
inline bool ParseValue(const std::string& s, std::string* v) { *v = s; return true; }
inline bool ParseValue(const std::string& s, std::vector<std::string>* v) {
  v->clear();
  if (s.empty()) return true;
  size_t p = 0;
  for (;;) {
    size_t e = s.find(',', p);
    v->push_back(s.substr(p, e == std::string::npos ? e : e - p));
    if (e == std::string::npos) return true;
    p = e + 1;
  }
}
inline bool ParseValue(const std::string& s, bool* v) {
  if (s == "true" || s == "1" || s == "yes") { *v = true; return true; }
  if (s == "false" || s == "0" || s == "no") { *v = false; return true; }
  return false;
}
inline bool ParseNum(const std::string& s, long long* v) {
  char* e;
  *v = strtoll(s.c_str(), &e, 0);
  return !s.empty() && *e == 0;
}
template <typename T>
bool ParseInt(const std::string& s, T* v) {
  long long x;
  if (!ParseNum(s, &x) || static_cast<long long>(static_cast<T>(x)) != x) return false;
  *v = static_cast<T>(x);
  return true;
}
inline bool ParseValue(const std::string& s, int32_t* v) { return ParseInt(s, v); }
inline bool ParseValue(const std::string& s, uint32_t* v) { return ParseInt(s, v); }
inline bool ParseValue(const std::string& s, int64_t* v) { return ParseInt(s, v); }
inline bool ParseValue(const std::string& s, uint64_t* v) {
  char* e;
  *v = strtoull(s.c_str(), &e, 0);
  return !s.empty() && *e == 0;
}
inline bool ParseValue(const std::string& s, double* v) {
  char* e;
  *v = strtod(s.c_str(), &e);
  return !s.empty() && *e == 0;
}
inline bool ParseValue(const std::string& s, float* v) {
  double d;
  if (!ParseValue(s, &d)) return false;
  *v = static_cast<float>(d);
  return true;
}
}  // namespace wodsim

template <typename T>
class Flag : public wodsim::FlagBase {
 public:
  Flag(const char* name, T def) : value_(def) { wodsim::Registry()[name] = this; }
  bool Parse(const std::string& s) override { return wodsim::ParseValue(s, &value_); }
  T Get() const { return value_; }
  void Set(const T& v) { value_ = v; }

 private:
  T value_;
};
template <>
inline bool Flag<bool>::Parse(const std::string& s) {
  return wodsim::ParseValue(s.empty() ? "true" : s, &value_);
}
template <typename T>
T GetFlag(const Flag<T>& f) { return f.Get(); }
template <typename T, typename V>
void SetFlag(Flag<T>* f, const V& v) { f->Set(T(v)); }
}  // namespace absl
#define ABSL_FLAG(Type, name, def, help) \
  absl::Flag<Type> FLAGS_##name(#name, []() -> Type { return def; }())
#define ABSL_DECLARE_FLAG(Type, name) extern absl::Flag<Type> FLAGS_##name
#endif
