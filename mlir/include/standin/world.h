// The part of TensorFlow the conversion entry points use, as a scripted world:
// every service records what it was asked for and can be told to fail.  The
// passes have the effect the pipeline relies on (see ../../world.cc).
#ifndef STANDIN_WORLD_H_
#define STANDIN_WORLD_H_
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include "llvm/ADT/StringRef.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/OwningOpRef.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Pass/PassInstrumentation.h"
#include "mlir/Pass/PassManager.h"

// ------------------------------------------------------------------ abseil
namespace absl {
enum class StatusCode { kOk, kCancelled, kUnknown, kInvalidArgument, kNotFound, kAlreadyExists, kFailedPrecondition, kUnimplemented, kInternal, kOutOfRange, kDataLoss, kAborted, kDeadlineExceeded, kPermissionDenied, kResourceExhausted, kUnauthenticated, kUnavailable };
using string_view = std::string_view;
// Text of anything that can be written to a stream.
struct AlphaNum {
  template <class T>
  AlphaNum(const T& x) {
    if constexpr (std::is_same_v<T, bool>) text = x ? "1" : "0";
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) text = std::string(std::string_view(x));
    else if constexpr (std::is_constructible_v<std::string, const T&>) text = std::string(x);
    else { std::ostringstream s; s << x; text = s.str(); }
  }
  std::string text;
};
template <class... A>
std::string StrCat(const A&... a) { return (std::string() + ... + AlphaNum(a).text); }
template <class... A>
void StrAppend(std::string* s, const A&... a) { *s += StrCat(a...); }
template <class C>
std::string StrJoin(const C& c, std::string_view sep) {
  std::string s;
  bool first = true;
  for (const auto& x : c) {
    if (!first) s += std::string(sep);
    first = false, s += AlphaNum(x).text;
  }
  return s;
}
template <class C, class F>
std::string StrJoin(const C& c, std::string_view sep, F&& f) {
  std::string s;
  bool first = true;
  for (const auto& x : c) {
    if (!first) s += std::string(sep);
    first = false, f(&s, x);
  }
  return s;
}
struct AllowEmpty { bool operator()(std::string_view) const { return true; } };
struct SkipEmpty { bool operator()(std::string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(std::string_view s) const { return s.find_first_not_of(" \t\r\n\f\v") != s.npos; } };
struct ByString { explicit ByString(std::string_view s) : s(s) {} std::string s; };
struct ByChar { explicit ByChar(char c) : s(1, c) {} std::string s; };
struct ByAnyChar { explicit ByAnyChar(std::string_view s) : s(s) {} std::string s; };
// The pieces, as any container of strings or views.
struct Pieces {
  std::vector<std::string_view> v;
  auto begin() const { return v.begin(); }
  auto end() const { return v.end(); }
  template <class C, class = typename C::value_type, class = decltype(std::declval<C&>().insert(std::declval<C&>().end(), typename C::value_type(std::string_view())))>
  operator C() const { C c; for (auto x : v) c.insert(c.end(), typename C::value_type(x)); return c; }
  template <class A>
  operator std::pair<A, A>() const { return {A(v.size() > 0 ? v[0] : ""), A(v.size() > 1 ? v[1] : "")}; }
};
template <class P = AllowEmpty>
Pieces StrSplit(std::string_view s, const ByString& d, P keep = {}) {
  Pieces r;
  const auto add = [&](std::string_view x) { if (keep(x)) r.v.push_back(x); };
  for (size_t p; (p = s.find(d.s)) != s.npos; s = s.substr(p + d.s.size())) add(s.substr(0, p));
  add(s);
  return r;
}
template <class P = AllowEmpty> Pieces StrSplit(std::string_view s, std::string_view sep, P keep = {}) { return StrSplit(s, ByString(sep), keep); }
template <class P = AllowEmpty> Pieces StrSplit(std::string_view s, const char* sep, P keep = {}) { return StrSplit(s, ByString(sep), keep); }
template <class P = AllowEmpty> Pieces StrSplit(std::string_view s, char c, P keep = {}) { return StrSplit(s, ByString(std::string_view(&c, 1)), keep); }
template <class P = AllowEmpty> Pieces StrSplit(std::string_view s, const ByChar& d, P keep = {}) { return StrSplit(s, ByString(d.s), keep); }
template <class P = AllowEmpty>
Pieces StrSplit(std::string_view s, const ByAnyChar& d, P keep = {}) {
  Pieces r;
  for (size_t p;; s = s.substr(p + 1)) {
    p = s.find_first_of(d.s);
    if (keep(s.substr(0, p))) r.v.push_back(s.substr(0, p));
    if (p == s.npos) return r;
  }
}
inline bool StartsWith(std::string_view s, std::string_view p) { return s.substr(0, p.size()) == p; }
inline bool EndsWith(std::string_view s, std::string_view p) { return s.size() >= p.size() && s.substr(s.size() - p.size()) == p; }
inline bool StrContains(std::string_view s, std::string_view p) { return s.find(p) != s.npos; }
inline bool StrContains(std::string_view s, char p) { return s.find(p) != s.npos; }
inline bool ConsumePrefix(std::string_view* s, std::string_view p) { return StartsWith(*s, p) && (s->remove_prefix(p.size()), true); }
inline bool ConsumeSuffix(std::string_view* s, std::string_view p) { return EndsWith(*s, p) && (s->remove_suffix(p.size()), true); }
inline std::string_view StripPrefix(std::string_view s, std::string_view p) { return ConsumePrefix(&s, p), s; }
inline std::string_view StripSuffix(std::string_view s, std::string_view p) { return ConsumeSuffix(&s, p), s; }
inline std::string_view StripAsciiWhitespace(std::string_view s) {
  const char* w = " \t\r\n\f\v";
  const size_t a = s.find_first_not_of(w);
  return a == s.npos ? std::string_view() : s.substr(a, s.find_last_not_of(w) - a + 1);
}
inline std::string AsciiStrToLower(std::string_view s) { std::string r(s); for (char& c : r) if (c >= 'A' && c <= 'Z') c += 32; return r; }
inline std::string AsciiStrToUpper(std::string_view s) { std::string r(s); for (char& c : r) if (c >= 'a' && c <= 'z') c -= 32; return r; }
inline bool EqualsIgnoreCase(std::string_view a, std::string_view b) { return AsciiStrToLower(a) == AsciiStrToLower(b); }
inline const char* StandinArg(const std::string& s) { return s.c_str(); }
inline const char* StandinArg(std::string_view s) { return strdup(std::string(s).c_str()); }
inline const char* StandinArg(const char* s) { return s; }
template <class T, class = std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>> T StandinArg(T t) { return t; }
template <class... A>
std::string StrFormat(const char* f, const A&... a) {
  char b[4096];
  snprintf(b, sizeof b, f, StandinArg(a)...);
  return b;
}
template <class C, class P> bool c_any_of(const C& c, P&& p) { return std::any_of(std::begin(c), std::end(c), p); }
template <class C, class P> bool c_all_of(const C& c, P&& p) { return std::all_of(std::begin(c), std::end(c), p); }
template <class C, class P> bool c_none_of(const C& c, P&& p) { return std::none_of(std::begin(c), std::end(c), p); }
template <class C, class P> auto c_count_if(const C& c, P&& p) { return std::count_if(std::begin(c), std::end(c), p); }
template <class C, class V> auto c_count(const C& c, V&& v) { return std::count(std::begin(c), std::end(c), v); }
template <class C, class P> auto c_find_if(C&& c, P&& p) { return std::find_if(std::begin(c), std::end(c), p); }
template <class C, class V> auto c_find(C&& c, V&& v) { return std::find(std::begin(c), std::end(c), v); }
template <class C, class V> bool c_linear_search(const C& c, V&& v) { return std::find(std::begin(c), std::end(c), v) != std::end(c); }
template <class C, class O, class F> auto c_transform(const C& c, O o, F&& f) { return std::transform(std::begin(c), std::end(c), o, f); }
template <class C, class O> auto c_copy(const C& c, O o) { return std::copy(std::begin(c), std::end(c), o); }
template <class C, class F> auto c_for_each(C&& c, F&& f) { return std::for_each(std::begin(c), std::end(c), f); }
template <class F>
class Cleanup {
 public:
  explicit Cleanup(F f) : f_(std::move(f)) {}
  Cleanup(Cleanup&& o) : f_(std::move(o.f_)), on_(o.on_) { o.on_ = false; }
  ~Cleanup() { if (on_) f_(); }
  void Cancel() && { on_ = false; }
  void Invoke() && { on_ = false, f_(); }
 private:
  F f_;
  bool on_ = true;
};
template <class F> Cleanup<F> MakeCleanup(F f) { return Cleanup<F>(std::move(f)); }
template <class K, class V, class... A> using flat_hash_map = std::unordered_map<K, V>;
template <class K, class V, class... A> using node_hash_map = std::unordered_map<K, V>;
template <class K, class V, class... A> using btree_map = std::map<K, V>;
template <class K, class... A> using flat_hash_set = std::unordered_set<K>;
template <class K, class... A> using node_hash_set = std::unordered_set<K>;
template <class K, class... A> using btree_set = std::set<K>;
template <class T, size_t N> using InlinedVector = std::vector<T>;
template <class T, class... A>
std::unique_ptr<T> make_unique(A&&... a) { return std::make_unique<T>(std::forward<A>(a)...); }
template <class T> using optional = std::optional<T>;
inline constexpr std::nullopt_t nullopt = std::nullopt;
using std::make_optional;
class Status {
 public:
  Status() = default;
  Status(StatusCode c, std::string_view m) : c_(c), m_(c == StatusCode::kOk ? "" : std::string(m)) {}
  bool ok() const { return c_ == StatusCode::kOk; }
  StatusCode code() const { return c_; }
  const std::string& message() const { return m_; }
  std::string ToString() const { return ok() ? "OK" : m_; }
  void Update(const Status& s) { if (ok()) *this = s; }
  void IgnoreError() const {}
  bool operator==(const Status& o) const { return c_ == o.c_ && m_ == o.m_; }
  bool operator!=(const Status& o) const { return !(*this == o); }
 private:
  StatusCode c_ = StatusCode::kOk;
  std::string m_;
};
inline Status OkStatus() { return Status(); }
#define STANDIN_ERROR(n)                                                          \
  inline Status n##Error(std::string_view m) { return Status(StatusCode::k##n, m); } \
  inline bool Is##n(const Status& s) { return s.code() == StatusCode::k##n; }
STANDIN_ERROR(Internal) STANDIN_ERROR(InvalidArgument) STANDIN_ERROR(FailedPrecondition) STANDIN_ERROR(Unimplemented) STANDIN_ERROR(Unknown) STANDIN_ERROR(NotFound) STANDIN_ERROR(Cancelled) STANDIN_ERROR(AlreadyExists) STANDIN_ERROR(OutOfRange) STANDIN_ERROR(DataLoss) STANDIN_ERROR(Aborted) STANDIN_ERROR(ResourceExhausted) STANDIN_ERROR(Unavailable)
template <class T>
class StatusOr {
 public:
  StatusOr(Status s) : s_(std::move(s)) {}
  StatusOr(T v) : v_(std::move(v)) {}
  bool ok() const { return s_.ok(); }
  const Status& status() const { return s_; }
  T& value() & { return *v_; }
  const T& value() const& { return *v_; }
  T&& value() && { return std::move(*v_); }
  T& operator*() & { return *v_; }
  T&& operator*() && { return std::move(*v_); }
  const T& operator*() const& { return *v_; }
  T* operator->() { return &*v_; }
  const T* operator->() const { return &*v_; }
  T value_or(T o) const { return ok() ? *v_ : std::move(o); }
 private:
  Status s_;
  std::optional<T> v_;
};
template <class T>
class Span {
 public:
  Span() = default;
  template <class C>
  Span(C& c) : p_(c.data()), n_(c.size()) {}
  template <class C>
  Span(const C& c) : p_(c.data()), n_(c.size()) {}
  Span(T* p, size_t n) : p_(p), n_(n) {}
  template <class U, class = std::enable_if_t<std::is_same_v<const U, T>>>
  Span(std::initializer_list<U> l) : p_(l.begin()), n_(l.size()) {}
  T* data() const { return p_; }
  bool empty() const { return !n_; }
  T* begin() const { return p_; }
  T* end() const { return p_ + n_; }
  size_t size() const { return n_; }
  T& operator[](size_t i) const { return p_[i]; }
  T& front() const { return p_[0]; }
  T& back() const { return p_[n_ - 1]; }
 private:
  T* p_ = nullptr;
  size_t n_ = 0;
};
template <class T> Span<T> MakeSpan(T* p, size_t n) { return Span<T>(p, n); }
template <class C> auto MakeSpan(C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <class T> Span<const T> MakeConstSpan(T* p, size_t n) { return Span<const T>(p, n); }
template <class C> auto MakeConstSpan(const C& c) -> Span<const std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
}  // namespace absl
// Messages go nowhere; a failed check ends the process.
struct StandinLog {
  template <class T> StandinLog& operator<<(const T&) { return *this; }
};
struct StandinFatal : StandinLog {
  [[noreturn]] ~StandinFatal() { fprintf(stderr, "CHECK failed\n"), abort(); }
};
struct StandinVoidify { void operator&(const StandinLog&) {} };
using StandinLogINFO = StandinLog;
using StandinLogWARNING = StandinLog;
using StandinLogERROR = StandinLog;
using StandinLogFATAL = StandinFatal;
#ifndef LOG
#define LOG(severity) StandinLog##severity()
#define VLOG(level) StandinLog()
#define VLOG_IS_ON(level) false
#define CHECK(x) (x) ? (void)0 : StandinVoidify() & StandinFatal()
#define DCHECK(x) CHECK(x)
#define QCHECK(x) CHECK(x)
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define TF_CHECK_OK(x) CHECK((x).ok())
#define CHECK_OK(x) CHECK((x).ok())
#endif
#define TF_RETURN_IF_ERROR(...)                      \
  do {                                               \
    ::absl::Status standin_status = (__VA_ARGS__);   \
    if (!standin_status.ok()) return standin_status; \
  } while (0)
#define STANDIN_CONCAT2(a, b) a##b
#define STANDIN_CONCAT(a, b) STANDIN_CONCAT2(a, b)
#define TF_ASSIGN_OR_RETURN(lhs, ...)                                                \
  auto STANDIN_CONCAT(standin_or_, __LINE__) = (__VA_ARGS__);                        \
  if (!STANDIN_CONCAT(standin_or_, __LINE__).ok()) return STANDIN_CONCAT(standin_or_, __LINE__).status(); \
  lhs = std::move(STANDIN_CONCAT(standin_or_, __LINE__)).value()

// ---------------------------------------------------------------- the script
namespace world {
struct Request {  // what the services were asked for
  std::string graphdef, tag, dir, import_kind;
  std::vector<std::string> in_names, in_types, outputs, exported;
  std::vector<std::optional<std::vector<int>>> in_shapes;
  std::set<std::string> tags, export_tags;
  int version = 0;
  bool prune = false, legacy_fed = false, graph_as_function = false, upgrade = false, lift = false;
  bool froze = false, froze_session = false;
  std::vector<std::pair<std::optional<double>, std::optional<double>>> input_ranges;
  bool quantized = false, ptq = false, is_signed = false, qint8 = false;
  std::vector<std::pair<double, double>> defaults;
  std::string asset_dir;
  bool assets = false, select_ops = false, custom_ops = false, stablehlo = false;
  std::vector<std::string> names;  // of every operator, from the name mapper
  std::string module;              // exported
};
struct World {
  std::string text;          // the module the importers return
  bool bundle = true;        // the saved model has a session
  int fail_at = -1;          // the step that fails, and whether it says so
  bool silent = false;
  bool invalid = false;      // the exporter leaves the module invalid
  bool unsupported = false;  // RuntimeVerify has found such an operator
  int step = 0;
  std::vector<std::string> log;
  std::string errors;        // diagnostics
  Request r;
  // True: this step fails.
  bool Step(const std::string& name) {
    log.push_back(name);
    return step++ == fail_at;
  }
};
extern World W;
extern std::function<void(mlir::MLIRContext&)> Prepare;  // dialects of a new context
extern bool Trace;                                       // steps are logged
void Setup(mlir::MLIRContext& c);                        // constant folding of the tf dialect
struct Exception : std::runtime_error { using runtime_error::runtime_error; };
}  // namespace world

// -------------------------------------------------------------------- pybind11
namespace pybind11 {
class bytes {
 public:
  bytes() = default;
  bytes(const std::string& s) : s_(s) {}
  bytes(const char* p, size_t n) : s_(p, n) {}
  operator std::string() const { return s_; }
  const std::string& str() const { return s_; }
 private:
  std::string s_;
};
class object {
 public:
  object() = default;
  explicit object(std::pair<double, double> p) : p_(p) {}
  bool is_none() const { return !p_; }
  template <class T>
  T cast() const {
    if (!p_) throw world::Exception("cast of None");
    return T(*p_);
  }
 private:
  std::optional<std::pair<double, double>> p_;
};
class module_ {
 public:
  template <class F>
  module_& def(const char* name, F f) {
    fn[name] = (void*)f;
    return *this;
  }
  static inline std::map<std::string, void*> fn;
};
}  // namespace pybind11
#define PYBIND11_MODULE(name, m)                                  \
  static void pybind11_init(pybind11::module_& m);                \
  void standin_init_module() { pybind11::module_ m; pybind11_init(m); } \
  static void pybind11_init(pybind11::module_& m)

// ------------------------------------------------------------------ TensorFlow
namespace toco {
class TocoFlags {
 public:
  void set_force_select_tf_ops(bool b) { select = b; }
  void set_allow_custom_ops(bool b) { custom = b; }
  bool select = false, custom = false;
};
}  // namespace toco
namespace tsl {
using string = std::string;
using absl::Status;
using absl::StatusOr;
using absl::OkStatus;
}  // namespace tsl
namespace tensorflow {
using std::string;
using absl::Status;
using absl::StatusOr;
using absl::OkStatus;
namespace errors {
#define STANDIN_ERRORS(n) template <class... A> Status n(const A&... a) { return absl::n##Error(absl::StrCat(a...)); }
STANDIN_ERRORS(InvalidArgument) STANDIN_ERRORS(Internal) STANDIN_ERRORS(NotFound) STANDIN_ERRORS(FailedPrecondition) STANDIN_ERRORS(Unimplemented) STANDIN_ERRORS(Unknown) STANDIN_ERRORS(OutOfRange) STANDIN_ERRORS(AlreadyExists)
}  // namespace errors
enum DataType { DT_INVALID = 0, DT_FLOAT = 1, DT_INT8 = 6, DT_QINT8 = 11, DT_QUINT8 = 12, DT_QINT32 = 13, DT_QINT16 = 15, DT_QUINT16 = 16, DT_HALF = 19 };
class Session {};
struct SavedModelBundle {
  Session* GetSession() { static Session s; return has ? &s : nullptr; }
  bool has = true;
};
struct GraphDef { std::string text; };
struct GraphDebugInfo {};
struct GraphImportConfig {
  struct Inputs {
    std::vector<std::string> names, types;
    std::vector<std::optional<std::vector<int>>> shapes;
  } inputs;
  std::vector<std::string> outputs;
  bool prune_unused_nodes = false, convert_legacy_fed_inputs = false, graph_as_function = false, upgrade_legacy = false, enable_shape_inference = true;
};
Status LoadProtoFromBuffer(const std::string& s, GraphDef* g);
Status ParseInputArrayInfo(const std::vector<std::string>& names, const std::vector<std::string>& types, const std::vector<std::optional<std::vector<int>>>& shapes, GraphImportConfig::Inputs* in);
Status ParseOutputArrayInfo(const std::vector<std::string>& names, std::vector<std::string>* out);
StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ConvertGraphdefToMlir(const GraphDef& g, const GraphDebugInfo& d, const GraphImportConfig& specs, mlir::MLIRContext* c);
StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ImportSavedModel(const std::string& dir, const int version, const std::unordered_set<std::string>& tags, absl::Span<const std::string> custom_opdefs, absl::Span<std::string> exported,
                                                             const GraphImportConfig& specs, bool enable_variable_lifting, mlir::MLIRContext* c, std::unique_ptr<SavedModelBundle>* bundle);
namespace internal {
Status RegisterAllCustomOps(const toco::TocoFlags& f);
}
namespace converter {
struct DebugOptions {};
}
inline void InitPassManager(mlir::PassManager&, const converter::DebugOptions&, llvm::StringRef = "") {}
}  // namespace tensorflow

namespace mlir {
// Collects the errors of a scope.
class StatusScopedDiagnosticHandler {
 public:
  explicit StatusScopedDiagnosticHandler(MLIRContext* c, bool propagate = false, bool filter = false)
      : h_(c, [this, propagate](Diagnostic& d) {
          if (d.getSeverity() == DiagnosticSeverity::Error) s_ += d.str() + "\n", world::W.errors += d.str() + "\n";
          return failure(propagate);
        }) {}
  bool ok() const { return s_.empty(); }
  absl::Status ConsumeStatus() {
    if (s_.empty()) return absl::OkStatus();
    absl::Status r = absl::UnknownError(s_);
    s_.clear();
    return r;
  }
  absl::Status Combine(absl::Status s) {
    if (s.ok()) return ConsumeStatus();
    if (s_.empty()) return s;
    absl::Status r(s.code(), s.message() + s_);
    s_.clear();
    return r;
  }
 private:
  std::string s_;
  ScopedDiagnosticHandler h_;
};
// A value or an operator, for names.
class OpOrVal {
 public:
  OpOrVal(Operation* o) : o_(o) {}
  OpOrVal(Value v) : v_(v) {}
  Operation* o_ = nullptr;
  Value v_;
};
}  // namespace mlir
namespace tensorflow {
using mlir::OpOrVal;
}
using mlir::OpOrVal;
class OpOrArgNameMapper {
 public:
  virtual ~OpOrArgNameMapper() = default;
  llvm::StringRef GetUniqueName(OpOrVal v);
  std::string NameOf(OpOrVal v) { return GetName(v); }
 protected:
  virtual std::string GetName(OpOrVal v) = 0;
 private:
  std::map<std::string, int> used_;
  std::vector<std::unique_ptr<std::string>> keep_;
};
class OpOrArgLocNameMapper : public OpOrArgNameMapper {
 protected:
  std::string GetName(OpOrVal v) override;  // the name in the location
};
namespace tensorflow {
using ::OpOrArgLocNameMapper;
}
namespace tflite {
namespace metrics {
struct ConverterErrorData {
  enum ErrorCode { UNKNOWN, ERROR_UNSUPPORTED_CONTROL_FLOW_V1 };
};
}  // namespace metrics
struct FlatbufferExportOptions {
  toco::TocoFlags toco_flags;
  std::unordered_set<std::string> saved_model_tags;
  std::map<std::string, std::string> metadata;
  OpOrArgNameMapper* op_or_arg_name_mapper = nullptr;
};
bool MlirToFlatBufferTranslateFunction(mlir::ModuleOp m, const FlatbufferExportOptions& o, std::string* result, bool serialize_stablehlo_ops = false);
}  // namespace tflite

// ------------------------------------------------------------------------ MLIR
namespace mlir {
namespace tf_executor {
#define STANDIN_OP(C, n)                                                                         \
  struct C {                                                                                     \
    static bool classof(Operation* o) { return o->getName().getStringRef() == "tf_executor." n; } \
  };
STANDIN_OP(SwitchOp, "Switch") STANDIN_OP(MergeOp, "Merge") STANDIN_OP(EnterOp, "Enter") STANDIN_OP(ExitOp, "Exit") STANDIN_OP(NextIterationSinkOp, "NextIteration.Sink") STANDIN_OP(NextIterationSourceOp, "NextIteration.Source")
#undef STANDIN_OP
}  // namespace tf_executor
namespace quant {
enum class QDQConversionMode { kQDQNone, kQDQStatic, kQDQDynamic, kQDQStrict };
struct QuantizationSpecs {
  tensorflow::DataType inference_type = tensorflow::DT_FLOAT, inference_input_type = tensorflow::DT_FLOAT;
  bool weight_quantization = false, weight_only_quantization = false, post_training_quantization = false, disable_per_channel = false, verify_numeric = false, whole_model_verify = false, legacy_float_scale = false,
       disable_infer_tensor_range = false, enable_mlir_variable_quantization = false;
  std::string target_func = "main";
  std::pair<std::optional<double>, std::optional<double>> default_ranges;
  std::vector<std::pair<std::optional<double>, std::optional<double>>> input_ranges;
  QDQConversionMode qdq_conversion_mode = QDQConversionMode::kQDQNone;
  bool RunPropagationAndRewriteQuantizationPasses() const { return inference_type != tensorflow::DT_FLOAT && !weight_quantization; }
  bool RunAndRewriteDynamicRangeQuantizationPasses() const { return (inference_type == tensorflow::DT_QINT8 || inference_type == tensorflow::DT_INT8) && weight_quantization; }
  bool IsSignedInferenceType() const { return inference_type != tensorflow::DT_QUINT8 && inference_type != tensorflow::DT_QUINT16; }
};
}  // namespace quant
using FuncPass = std::unique_ptr<OperationPass<func::FuncOp>>;
using ModulePass_ = std::unique_ptr<OperationPass<ModuleOp>>;
namespace TFL {
std::vector<std::string> AllTfFakeQuantOps();
FuncPass CreateRaiseCustomOpsPass(const std::vector<std::string>& target_ops = {});
ModulePass_ CreatePrepareCompositeFunctionsPass();
ModulePass_ CreateLowerStaticTensorListPass(bool allow_tensorlist_pass_through = false, bool default_to_single_batch = false, bool enable_dynamic_update_slice = false);
ModulePass_ CreateLegalizeTFWhilePass();
FuncPass CreateReduceWhileOperandsPass();
FuncPass CreatePrepareTFPass(bool unfold_batch_matmul, bool allow_bf16_and_f16_type_legalization, bool use_fake_quant_num_bits = false);
FuncPass CreateLegalizeTFPass(bool run_tfl_runtime_verification, bool preserve_assert_op = false);
ModulePass_ CreateAnalyzeVariablesPass();
ModulePass_ CreateLegalizeVariablesPass();
ModulePass_ CreateLegalizeHashTablesPass();
FuncPass CreateOptimizePass(bool enable_canonicalization, bool disable_fuse_mul_and_fc = false);
ModulePass_ CreateOptimizeFunctionalOpsPass();
FuncPass CreatePrepareQuantizePass(const quant::QuantizationSpecs& specs);
FuncPass CreateDefaultQuantParamsPass(double min, double max, bool is_signed);
FuncPass CreateQuantizePass();
FuncPass CreatePostQuantizePass();
FuncPass CreatePostQuantizePass(bool emit_quant_adaptor_ops);
FuncPass CreatePostQuantizeRemoveQDQPass();
FuncPass CreateOptimizeOpOrderPass();
FuncPass CreateSplitMergedOperandsPass();
ModulePass_ CreateInsertCallOnceOpFromSessionInitializerPass();
ModulePass_ CreateUnfoldLargeSplatConstantPass();
ModulePass_ CreateWhileOutlinePass();
FuncPass CreateRuntimeVerifyPass();
struct ErrorCollectorInstrumentation : PassInstrumentation {
  explicit ErrorCollectorInstrumentation(MLIRContext*) {}
};
inline InFlightDiagnostic AttachErrorCode(InFlightDiagnostic d, int) { return d; }
}  // namespace TFL
namespace TF {
struct StandardPipelineOptions { bool enable_inliner = false, form_clusters = false; };
struct LayoutOptimizationPipelineOptions { std::string force_data_format; bool skip_fold_transpose_in_ops = false; };
void CreateTFStandardPipeline(OpPassManager& pm, const StandardPipelineOptions& o);
void CreateLayoutOptimizationPipeline(OpPassManager& pm, const LayoutOptimizationPipelineOptions& o);
FuncPass CreateDeviceIndexSelectorPass();
ModulePass_ CreateTFShapeInferencePass(ArrayRef<ArrayRef<int64_t>> input_shapes = {});
ModulePass_ CreateTFFunctionalControlFlowToRegions(bool allow_passthrough_args = false);
ModulePass_ CreateTFRegionControlFlowToFunctional();
FuncPass CreateInitTextFileToImportPass(std::string saved_model_dir = "");
}  // namespace TF
namespace TFDevice {
FuncPass CreateDecomposeResourceOpsPass();
}
namespace tf_saved_model {
ModulePass_ CreateOptimizeGlobalTensorsPass();
ModulePass_ CreateFreezeGlobalTensorsPass(bool allow_mutable_tensors = false);
ModulePass_ CreateFreezeAssetsPass(std::string saved_model_dir = "");
LogicalResult FreezeVariables(ModuleOp m, tensorflow::Session* s);
}  // namespace tf_saved_model
namespace odml {
std::unique_ptr<OperationPass<ModuleOp>> createPrintOpStatsPass(const std::vector<std::string>& accepted = {});
inline std::vector<std::string> GetAcceptedTFLiteDialects() { return {"tfl", "func", "arith"}; }
}  // namespace odml
}  // namespace mlir
#endif
