// Stand-in for the parts of Ruy and of TFLite's CPU backend that LCE's binary
// GEMM uses.  Layout, packing and block semantics follow Ruy.  TrMul() here is
// a *controlled scheduler*: by default it packs everything and runs one kernel
// call; with a `ruy::mc::Plan` installed it cuts the destination into the
// plan's blocks and runs packing and kernel calls in the plan's order.
#ifndef LCE_STUB_RUY_ALL_H_
#define LCE_STUB_RUY_ALL_H_

#include "lce_stub/tflite_all.h"

#ifndef RUY_PLATFORM_NEON
#define RUY_PLATFORM_NEON 0
#endif
#ifndef RUY_PLATFORM_NEON_32
#define RUY_PLATFORM_NEON_32 0
#endif
#ifndef RUY_PLATFORM_NEON_64
#define RUY_PLATFORM_NEON_64 0
#endif
#ifndef RUY_PLATFORM_ARM
#define RUY_PLATFORM_ARM 0
#endif
#ifndef RUY_PLATFORM_ARM_32
#define RUY_PLATFORM_ARM_32 0
#endif
#ifndef RUY_PLATFORM_ARM_64
#define RUY_PLATFORM_ARM_64 0
#endif
#define RUY_PLATFORM_X86 0
#define RUY_PLATFORM_AVX2_FMA 0
#define RUY_PLATFORM_AVX512 0

#define RUY_OPT_SET (~0)
#define RUY_OPT_BIT_INTRINSICS 0x1
#define RUY_OPT_BIT_ASM 0x2
#define RUY_OPT_BIT_TUNING 0x4
#define RUY_OPT_BIT_FAT_KERNEL 0x8
#define RUY_OPT_BIT_NATIVE_ROUNDING 0x10
#define RUY_OPT_BIT_AVOID_ALIASING 0x20
#ifndef LCE_STUB_RUY_OPTS
#define LCE_STUB_RUY_OPTS (~0)
#endif
#define RUY_STR_UNEXPANDED(s) #s
#define RUY_STR(s) RUY_STR_UNEXPANDED(s)
#define RUY_OPT(ALGO) ((LCE_STUB_RUY_OPTS & RUY_OPT_BIT_##ALGO) != 0)
#define RUY_DCHECK(c) LCE_STUB_CHECK(c)
#define RUY_DCHECK_EQ(a, b) LCE_STUB_CHECK((a) == (b))
#define RUY_DCHECK_NE(a, b) LCE_STUB_CHECK((a) != (b))
#define RUY_DCHECK_GE(a, b) LCE_STUB_CHECK((a) >= (b))
#define RUY_DCHECK_GT(a, b) LCE_STUB_CHECK((a) > (b))
#define RUY_DCHECK_LE(a, b) LCE_STUB_CHECK((a) <= (b))
#define RUY_DCHECK_LT(a, b) LCE_STUB_CHECK((a) < (b))
#define RUY_CHECK(c) LCE_STUB_CHECK(c)
#define RUY_CHECK_EQ(a, b) LCE_STUB_CHECK((a) == (b))
#define RUY_CHECK_LE(a, b) LCE_STUB_CHECK((a) <= (b))
#define RUY_CHECK_LT(a, b) LCE_STUB_CHECK((a) < (b))

namespace ruy {

enum class Order : std::uint8_t { kColMajor, kRowMajor };
enum class CachePolicy : std::uint8_t {
  kNeverCache, kCacheIfLargeSpeedup, kCacheIfSignificantSpeedup, kAlwaysCache };
enum class Path : std::uint16_t {
  kNone = 0, kStandardCpp = 0x1, kInternalStandardCppVariant1 = 0x2,
  kNeon = 0x10, kNeonDotprod = 0x20, kAvx2Fma = 0x40, kAvx512 = 0x80,
  kReference = 0x400 };
enum class Tuning { kAuto, kGeneric, kA55ish, kX1 };
enum class Side { kLhs = 0, kRhs = 1 };

template <typename T>
class SidePair final {
 public:
  SidePair() {}
  SidePair(const T& a, const T& b) : e_{a, b} {}
  T& operator[](Side s) { return e_[(int)s]; }
  const T& operator[](Side s) const { return e_[(int)s]; }

 private:
  T e_[2];
};

namespace profiler {
struct ScopeLabel {
  template <typename... A>
  explicit ScopeLabel(A&&...) {}
  ~ScopeLabel() {}
};
}  // namespace profiler

// ---------------------------------------------------------------- matrix.h
class Layout final {
 public:
  int rows() const { return rows_; }
  int cols() const { return cols_; }
  int stride() const { return stride_; }
  Order order() const { return order_; }
  void set_rows(int v) { rows_ = v; }
  void set_cols(int v) { cols_ = v; }
  void set_stride(int v) { stride_ = v; }
  void set_order(Order v) { order_ = v; }

 private:
  int rows_ = 0, cols_ = 0, stride_ = 0;
  Order order_ = Order::kColMajor;
};
inline void MakeSimpleLayout(int rows, int cols, Order order, Layout* l) {
  l->set_rows(rows);
  l->set_cols(cols);
  l->set_order(order);
  l->set_stride(order == Order::kColMajor ? rows : cols);
}
template <typename Scalar>
class Matrix final {
 public:
  const Layout& layout() const { return layout_; }
  Layout* mutable_layout() { return &layout_; }
  Scalar* data() { return data_; }
  const Scalar* data() const { return data_; }
  void set_data(Scalar* p) { data_ = p; }
  void set_data(const Scalar* p) { data_ = const_cast<Scalar*>(p); }
  Scalar zero_point() const { return zp_; }
  void set_zero_point(Scalar z) { zp_ = z; }
  CachePolicy cache_policy() const { return cp_; }
  void set_cache_policy(CachePolicy c) { cp_ = c; }

 private:
  Layout layout_;
  Scalar* data_ = nullptr;
  Scalar zp_ = 0;
  CachePolicy cp_ = CachePolicy::kNeverCache;
};

// ------------------------------------------------------------------- mat.h
struct MatLayout final {
  std::int32_t rows = 0, cols = 0, stride = 0;
  Order order = Order::kColMajor;
};
struct KernelLayout final {
  Order order = Order::kColMajor;
  std::uint8_t rows = 1, cols = 1;
};
struct PMatLayout final {
  std::int32_t rows = 0, cols = 0, stride = 0;
  Order order = Order::kColMajor;
  KernelLayout kernel;
};
template <Order tOrder, int tRows, int tCols>
struct FixedKernelLayout {
  static constexpr Order kOrder = tOrder;
  static constexpr int kRows = tRows;
  static constexpr int kCols = tCols;
};
template <Order o, int r, int c> constexpr Order FixedKernelLayout<o, r, c>::kOrder;
template <Order o, int r, int c> constexpr int FixedKernelLayout<o, r, c>::kRows;
template <Order o, int r, int c> constexpr int FixedKernelLayout<o, r, c>::kCols;
template <typename F>
KernelLayout ToKernelLayout() {
  KernelLayout r;
  r.order = F::kOrder;
  r.rows = F::kRows;
  r.cols = F::kCols;
  return r;
}
namespace detail {
template <typename T>
class ConstCheckingPtr final {
 public:
  ConstCheckingPtr() {}
  ConstCheckingPtr(T* p) : p_(p) {}
  ConstCheckingPtr& operator=(T* p) { set(p); return *this; }
  ConstCheckingPtr& operator=(const T* p) { set(p); return *this; }
  T* get() { return p_; }
  const T* get() const { return p_; }
  void set(T* p) { p_ = p; }
  void set(const T* p) { p_ = const_cast<T*>(p); }

 private:
  T* p_ = nullptr;
};
}  // namespace detail
template <typename Scalar>
struct Mat final {
  detail::ConstCheckingPtr<Scalar> data;
  MatLayout layout;
  Scalar zero_point = 0;
  CachePolicy cache_policy = CachePolicy::kNeverCache;
};
inline MatLayout ToInternal(const Layout& l) {
  MatLayout r;
  r.rows = l.rows();
  r.cols = l.cols();
  r.stride = l.stride();
  r.order = l.order();
  return r;
}
template <typename Scalar>
inline Mat<Scalar> ToInternal(const Matrix<Scalar>& m) {
  Mat<Scalar> r;
  r.data.set(m.data());
  r.layout = ToInternal(m.layout());
  r.zero_point = m.zero_point();
  r.cache_policy = m.cache_policy();
  return r;
}
template <typename Scalar>
inline Mat<Scalar> ToInternal(Matrix<Scalar>& m) {
  Mat<Scalar> r;
  r.data.set(m.data());
  r.layout = ToInternal(m.layout());
  r.zero_point = m.zero_point();
  r.cache_policy = m.cache_policy();
  return r;
}
struct Type final {
  template <typename T>
  static Type Create() {
    Type t;
    t.is_signed = std::is_signed<T>::value;
    t.is_floating_point = std::is_floating_point<T>::value;
    t.size = sizeof(T);
    return t;
  }
  template <typename T>
  void AssertIs() const {
    RUY_DCHECK_EQ((int)size, (int)sizeof(T));
    RUY_DCHECK_EQ(is_signed, std::is_signed<T>::value);
    RUY_DCHECK_EQ(is_floating_point, std::is_floating_point<T>::value);
  }
  bool is_signed = false, is_floating_point = false;
  std::uint8_t size = 0;
};
struct EMat final {
  Type data_type;
  void* data = nullptr;
  MatLayout layout;
  std::int32_t zero_point = 0;
  CachePolicy cache_policy = CachePolicy::kNeverCache;
};
struct PEMat final {
  Type data_type;
  void* data = nullptr;
  Type sums_type;
  void* sums = nullptr;
  PMatLayout layout;
  std::int32_t zero_point = 0;
};
template <typename Scalar>
struct PMat final {
  Scalar* data = nullptr;
  void* sums = nullptr;
  PMatLayout layout;
  std::int32_t zero_point = 0;
};
template <typename Scalar>
EMat EraseType(const Mat<Scalar>& m) {
  EMat r;
  r.data_type = Type::Create<Scalar>();
  r.data = const_cast<void*>(static_cast<const void*>(m.data.get()));
  r.layout = m.layout;
  r.zero_point = (std::int32_t)m.zero_point;
  r.cache_policy = m.cache_policy;
  return r;
}
template <typename Scalar>
Mat<Scalar> UneraseType(const EMat& m) {
  m.data_type.AssertIs<Scalar>();
  Mat<Scalar> r;
  r.data.set(static_cast<Scalar*>(m.data));
  r.layout = m.layout;
  r.zero_point = (Scalar)m.zero_point;
  r.cache_policy = m.cache_policy;
  return r;
}
template <typename Scalar>
PMat<Scalar> UneraseType(const PEMat& m) {
  m.data_type.AssertIs<Scalar>();
  PMat<Scalar> r;
  r.data = static_cast<Scalar*>(m.data);
  r.sums = m.sums;
  r.layout = m.layout;
  r.zero_point = m.zero_point;
  return r;
}
inline Order Transpose(Order o) {
  return o == Order::kColMajor ? Order::kRowMajor : Order::kColMajor;
}
inline MatLayout Transpose(const MatLayout& l) {
  MatLayout r(l);
  r.order = Transpose(l.order);
  std::swap(r.rows, r.cols);
  return r;
}
template <typename Scalar>
inline Mat<Scalar> Transpose(const Mat<Scalar>& m) {
  Mat<Scalar> r(m);
  r.layout = Transpose(m.layout);
  return r;
}
inline bool IsColMajor(const MatLayout& l) { return l.order == Order::kColMajor; }
inline bool IsRowMajor(const MatLayout& l) { return l.order == Order::kRowMajor; }
inline bool IsColMajor(const PMatLayout& l) { return l.order == Order::kColMajor; }
inline bool IsRowMajor(const PMatLayout& l) { return l.order == Order::kRowMajor; }
inline bool IsPacked(const MatLayout& l) {
  return l.order == Order::kColMajor ? l.stride == l.rows : l.stride == l.cols;
}

template <typename L>
inline int MatOffset(const L& l, int row, int col) {
  int rs = l.order == Order::kColMajor ? 1 : l.stride;
  int cs = l.order == Order::kRowMajor ? 1 : l.stride;
  return row * rs + col * cs;
}
inline int Offset(const MatLayout& l, int row, int col) {
  return MatOffset(l, row, col);
}
// (Ruy's formula: kernel-sized cells in the outer layout, elements of a cell
// in the kernel's own order.)
inline int Offset(const PMatLayout& l, int row, int col) {
  RUY_DCHECK_EQ((l.kernel.rows - 1) & l.kernel.rows, 0);
  RUY_DCHECK_EQ((l.kernel.cols - 1) & l.kernel.cols, 0);
  int row_outer = row & ~(l.kernel.rows - 1);
  int col_outer = col & ~(l.kernel.cols - 1);
  int row_stride_outer = l.order == Order::kColMajor ? l.kernel.cols : l.stride;
  int col_stride_outer = l.order == Order::kRowMajor ? l.kernel.rows : l.stride;
  int offset_outer = row_outer * row_stride_outer + col_outer * col_stride_outer;
  int row_inner = row - row_outer;
  int col_inner = col - col_outer;
  int row_stride_inner = l.kernel.order == Order::kColMajor ? 1 : l.kernel.cols;
  int col_stride_inner = l.kernel.order == Order::kRowMajor ? 1 : l.kernel.rows;
  return offset_outer + row_inner * row_stride_inner +
         col_inner * col_stride_inner;
}
template <typename S>
const S* ElementPtr(const Mat<S>& m, int r, int c) {
  return m.data.get() + Offset(m.layout, r, c);
}
template <typename S>
S* ElementPtr(Mat<S>* m, int r, int c) {
  return m->data.get() + Offset(m->layout, r, c);
}
template <typename S>
S Element(const Mat<S>& m, int r, int c) { return *ElementPtr(m, r, c); }
template <typename S>
const S* ElementPtr(const PMat<S>& m, int r, int c) {
  return m.data + Offset(m.layout, r, c);
}
template <typename S>
S* ElementPtr(PMat<S>* m, int r, int c) {
  return m->data + Offset(m->layout, r, c);
}
template <typename S>
S Element(const PMat<S>& m, int r, int c) { return *ElementPtr(m, r, c); }

template <typename T>
inline T round_up_pot(T v, T m) { return (v + m - 1) / m * m; }
template <typename T>
inline T round_down_pot(T v, T m) { return v / m * m; }

// ------------------------------------------------------------- pack_common.h
template <Path ThePath, typename FKL, typename Scalar, typename PackedScalar,
          typename SumsType, Order SrcOrder>
struct PackImpl {
  static void Run(Tuning, const Mat<Scalar>& src, PMat<PackedScalar>* packed,
                  int start_col, int end_col) {
    for (int col = start_col; col < end_col; ++col)
      for (int row = 0; row < packed->layout.rows; ++row)
        *ElementPtr(packed, row, col) =
            (col < src.layout.cols && row < src.layout.rows)
                ? (PackedScalar)Element(src, row, col)
                : (PackedScalar)packed->zero_point;
  }
};

// ------------------------------------------------------------ trmul_params.h
constexpr std::size_t kMaxMulParamsAlignment = 8;
constexpr std::size_t kMaxMulParamsSize = 64;
using RunKernelFn = void(Tuning, const SidePair<PEMat>&, const void*,
                         const SidePair<int>&, const SidePair<int>&, EMat*);
using RunPackFn = void(Tuning, const EMat&, PEMat*, int, int);
struct TrMulParams {
  TrMulParams() : run_pack{nullptr, nullptr}, is_prepacked{false, false} {}
  Path path = Path::kNone;
  int local_data_cache_size = 0;
  int shared_data_cache_size = 0;
  SidePair<RunPackFn*> run_pack;
  RunKernelFn* run_kernel = nullptr;
  SidePair<EMat> src;
  EMat dst;
  SidePair<PEMat> packed_matrix;
  SidePair<bool> is_prepacked;
  alignas(kMaxMulParamsAlignment) char mul_params_bytes[kMaxMulParamsSize];
};
template <typename AccumScalar, typename DstScalar>
struct MulParams {};

namespace detail {
template <typename Scalar, typename PackedScalar>
void CreatePackedMatrix(Side side, const KernelLayout& k, TrMulParams* p) {
  const EMat& src = p->src[side];
  PEMat* packed = &p->packed_matrix[side];
  packed->data_type = Type::Create<PackedScalar>();
  packed->sums_type = Type::Create<std::int32_t>();
  packed->layout.order = Order::kColMajor;
  packed->layout.rows = round_up_pot<int>(src.layout.rows, k.rows);
  packed->layout.cols = round_up_pot<int>(src.layout.cols, k.cols);
  packed->layout.kernel = k;
  packed->zero_point = src.zero_point;
  int stride = packed->layout.rows;
  // Ruy pads the stride when it would alias in the cache.
  if (RUY_OPT(AVOID_ALIASING) && stride > 0 &&
      (stride * (int)sizeof(PackedScalar)) % 1024 == 0)
    stride += 64 / sizeof(PackedScalar);
  packed->layout.stride = stride;
}
}  // namespace detail

// -------------------------------------------------------- contexts/allocators
class Allocator {
 public:
  ~Allocator() { FreeAll(); }
  void* AllocateBytes(std::ptrdiff_t n) {
    // Exact allocation so that AddressSanitizer sees overruns; not zeroed.
    void* p = malloc(n > 0 ? n : 1);
    memset(p, 0xA5, n > 0 ? n : 1);
    v_.push_back(p);
    return p;
  }
  void FreeAll() {
    for (void* p : v_) free(p);
    v_.clear();
  }

 private:
  std::vector<void*> v_;
};
class ThreadPool {};
class Ctx {
 public:
  Allocator* GetMainAllocator() { return &a_; }
  int max_num_threads() const { return max_num_threads_; }
  void set_max_num_threads(int n) { max_num_threads_ = n; }
  struct Entry { PEMat m; };
  std::map<std::vector<long long>, Entry> cache;
  ~Ctx() { for (auto& e : cache) free(e.second.m.data); }

 private:
  Allocator a_;
  int max_num_threads_ = 1;
};
class Context {
 public:
  Ctx* ctx() { return &c_; }
  int max_num_threads() const { return c_.max_num_threads(); }
  void set_max_num_threads(int n) { c_.set_max_num_threads(n); }

 private:
  Ctx c_;
};
inline Ctx* get_ctx(Context* c) { return c->ctx(); }

// -------------------------------------------------------------- mc scheduler
namespace mc {
struct Block { int lhs0, lhs1, rhs0, rhs1; };
struct Plan {
  // Called with the params after packing storage exists; must do all packing
  // and kernel runs itself.
  std::function<void(TrMulParams*)> run;
};
inline Plan*& plan() {
  static Plan* p = nullptr;
  return p;
}
inline long long& kernel_calls() { static long long n = 0; return n; }
inline void Pack(TrMulParams* p, Side side, int c0, int c1) {
  p->run_pack[side](Tuning::kAuto, p->src[side], &p->packed_matrix[side], c0,
                    c1);
}
inline void Kernel(TrMulParams* p, const Block& b, EMat* dst = nullptr) {
  ++kernel_calls();
  p->run_kernel(Tuning::kAuto, p->packed_matrix, p->mul_params_bytes,
                SidePair<int>(b.lhs0, b.rhs0), SidePair<int>(b.lhs1, b.rhs1),
                dst ? dst : &p->dst);
}
}  // namespace mc

inline void PreparePackedMatrices(Ctx* ctx, TrMulParams* p) {
  for (Side side : {Side::kLhs, Side::kRhs}) {
    PEMat& packed = p->packed_matrix[side];
    const EMat& src = p->src[side];
    const std::ptrdiff_t bytes = (std::ptrdiff_t)packed.layout.stride *
                                 packed.layout.cols * packed.data_type.size;
    if (src.cache_policy == CachePolicy::kAlwaysCache) {
      std::vector<long long> key{(long long)(intptr_t)src.data, src.layout.rows,
                                 src.layout.cols, src.layout.stride,
                                 (int)src.layout.order, packed.layout.rows,
                                 packed.layout.cols, packed.layout.stride,
                                 (int)packed.layout.order,
                                 (int)packed.layout.kernel.order,
                                 packed.layout.kernel.rows,
                                 packed.layout.kernel.cols, src.zero_point,
                                 (int)packed.data_type.size};
      auto it = ctx->cache.find(key);
      if (it == ctx->cache.end()) {
        packed.data = malloc(bytes > 0 ? bytes : 1);
        memset(packed.data, 0xA5, bytes > 0 ? bytes : 1);
        ctx->cache[key].m = packed;
        p->run_pack[side](Tuning::kAuto, src, &packed, 0, packed.layout.cols);
      } else {
        packed.data = it->second.m.data;
      }
      p->is_prepacked[side] = true;
    } else {
      packed.data = ctx->GetMainAllocator()->AllocateBytes(bytes);
    }
  }
}

inline void TrMul(Ctx*, TrMulParams* p) {
  if (p->dst.layout.rows == 0 || p->dst.layout.cols == 0) return;
  if (mc::plan()) {
    mc::plan()->run(p);
    return;
  }
  const int rows = p->packed_matrix[Side::kLhs].layout.cols;
  const int cols = p->packed_matrix[Side::kRhs].layout.cols;
  for (Side side : {Side::kLhs, Side::kRhs})
    if (!p->is_prepacked[side])
      mc::Pack(p, side, 0, side == Side::kLhs ? rows : cols);
  mc::Kernel(p, {0, rows, 0, cols});
}
inline void TrMul(TrMulParams* p, Ctx* c) { TrMul(c, p); }

}  // namespace ruy

namespace tflite {
class CpuBackendContext final {
 public:
  // TFLite keeps one per interpreter, reachable through impl_ here.
  static CpuBackendContext* GetFromContext(TfLiteContext* c);
  ruy::Context* ruy_context() const { return ctx_.get(); }
  void SetMaxNumThreads(int n) { ctx_->set_max_num_threads(n); }
  int max_num_threads() const { return ctx_->max_num_threads(); }
  bool use_caching() const { return true; }

 private:
  std::unique_ptr<ruy::Context> ctx_{new ruy::Context};
};

namespace cpu_backend_gemm {
enum class Order { kColMajor, kRowMajor };
enum class CachePolicy : std::uint8_t {
  kNeverCache, kCacheIfLargeSpeedup, kAlwaysCache };
inline CachePolicy DefaultCachePolicy(bool is_const) {
  return is_const ? CachePolicy::kCacheIfLargeSpeedup : CachePolicy::kNeverCache;
}
template <typename Scalar>
struct MatrixParams {
  Order order = Order::kColMajor;
  int rows = 0;
  int cols = 0;
  Scalar zero_point = 0;
  CachePolicy cache_policy = CachePolicy::kNeverCache;
};
namespace detail {
inline ruy::CachePolicy ToRuyCachePolicy(CachePolicy c) {
  switch (c) {
    case CachePolicy::kNeverCache: return ruy::CachePolicy::kNeverCache;
    case CachePolicy::kCacheIfLargeSpeedup:
      return ruy::CachePolicy::kCacheIfLargeSpeedup;
    default: return ruy::CachePolicy::kAlwaysCache;
  }
}
template <typename Scalar, typename DataPointer>
void MakeRuyMatrix(const MatrixParams<Scalar>& p, DataPointer data,
                   ruy::Matrix<Scalar>* dst, bool use_caching = false) {
  ruy::MakeSimpleLayout(
      p.rows, p.cols,
      p.order == Order::kColMajor ? ruy::Order::kColMajor
                                  : ruy::Order::kRowMajor,
      dst->mutable_layout());
  dst->set_data(data);
  dst->set_zero_point(p.zero_point);
  if (use_caching) dst->set_cache_policy(ToRuyCachePolicy(p.cache_policy));
}
}  // namespace detail
}  // namespace cpu_backend_gemm
}  // namespace tflite

#endif  // LCE_STUB_RUY_ALL_H_
