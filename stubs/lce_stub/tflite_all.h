// Stand-in for the parts of the TensorFlow Lite C/C++ API that LCE's kernels
// use.  Semantics follow TensorFlow Lite; everything lives in this one header
// so that a kernel may include any of the TFLite headers it likes.
#ifndef LCE_STUB_TFLITE_ALL_H_
#define LCE_STUB_TFLITE_ALL_H_

#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

// ---------------------------------------------------------------- c/common.h
typedef enum TfLiteStatus {
  kTfLiteOk = 0,
  kTfLiteError = 1,
  kTfLiteDelegateError = 2,
  kTfLiteApplicationError = 3,
  kTfLiteDelegateDataNotFound = 4,
  kTfLiteDelegateDataWriteError = 5,
  kTfLiteDelegateDataReadError = 6,
  kTfLiteUnresolvedOps = 7,
  kTfLiteCancelled = 8,
} TfLiteStatus;

typedef enum {
  kTfLiteNoType = 0,
  kTfLiteFloat32 = 1,
  kTfLiteInt32 = 2,
  kTfLiteUInt8 = 3,
  kTfLiteInt64 = 4,
  kTfLiteString = 5,
  kTfLiteBool = 6,
  kTfLiteInt16 = 7,
  kTfLiteComplex64 = 8,
  kTfLiteInt8 = 9,
  kTfLiteFloat16 = 10,
  kTfLiteFloat64 = 11,
  kTfLiteComplex128 = 12,
  kTfLiteUInt64 = 13,
  kTfLiteResource = 14,
  kTfLiteVariant = 15,
  kTfLiteUInt32 = 16,
  kTfLiteUInt16 = 17,
  kTfLiteInt4 = 18,
} TfLiteType;

inline const char* TfLiteTypeGetName(TfLiteType t) {
  switch (t) {
    case kTfLiteNoType: return "NOTYPE";
    case kTfLiteFloat32: return "FLOAT32";
    case kTfLiteInt32: return "INT32";
    case kTfLiteUInt8: return "UINT8";
    case kTfLiteInt64: return "INT64";
    case kTfLiteString: return "STRING";
    case kTfLiteBool: return "BOOL";
    case kTfLiteInt16: return "INT16";
    case kTfLiteInt8: return "INT8";
    default: return "OTHER";
  }
}

typedef struct TfLiteIntArray {
  int size;
  int data[];
} TfLiteIntArray;
typedef struct TfLiteFloatArray {
  int size;
  float data[];
} TfLiteFloatArray;

inline TfLiteIntArray* TfLiteIntArrayCreate(int size) {
  auto* p = (TfLiteIntArray*)malloc(sizeof(TfLiteIntArray) +
                                    sizeof(int) * (size > 0 ? size : 0));
  p->size = size;
  return p;
}
inline void TfLiteIntArrayFree(TfLiteIntArray* a) { free(a); }
inline TfLiteIntArray* TfLiteIntArrayCopy(const TfLiteIntArray* src) {
  if (!src) return nullptr;
  TfLiteIntArray* r = TfLiteIntArrayCreate(src->size);
  memcpy(r->data, src->data, sizeof(int) * src->size);
  return r;
}
inline int TfLiteIntArrayEqual(const TfLiteIntArray* a,
                               const TfLiteIntArray* b) {
  if (a == b) return 1;
  if (!a || !b || a->size != b->size) return 0;
  return memcmp(a->data, b->data, sizeof(int) * a->size) == 0;
}
inline int TfLiteIntArrayEqualsArray(const TfLiteIntArray* a, int b_size,
                                     const int b_data[]) {
  if (!a) return b_size == 0;
  if (a->size != b_size) return 0;
  for (int i = 0; i < b_size; ++i)
    if (a->data[i] != b_data[i]) return 0;
  return 1;
}
inline TfLiteFloatArray* TfLiteFloatArrayCreate(int size) {
  auto* p =
      (TfLiteFloatArray*)malloc(sizeof(TfLiteFloatArray) + sizeof(float) * size);
  p->size = size;
  return p;
}
inline void TfLiteFloatArrayFree(TfLiteFloatArray* a) { free(a); }

typedef struct TfLiteQuantizationParams {
  float scale;
  int32_t zero_point;
} TfLiteQuantizationParams;
typedef enum TfLiteQuantizationType {
  kTfLiteNoQuantization = 0,
  kTfLiteAffineQuantization = 1,
} TfLiteQuantizationType;
typedef struct TfLiteQuantization {
  TfLiteQuantizationType type;
  void* params;
} TfLiteQuantization;
typedef struct TfLiteAffineQuantization {
  TfLiteFloatArray* scale;
  TfLiteIntArray* zero_point;
  int32_t quantized_dimension;
} TfLiteAffineQuantization;

typedef struct TfLiteFloat16 { uint16_t data; } TfLiteFloat16;

typedef union TfLitePtrUnion {
  int32_t* i32;
  uint32_t* u32;
  int64_t* i64;
  uint64_t* u64;
  float* f;
  TfLiteFloat16* f16;
  double* f64;
  char* raw;
  const char* raw_const;
  uint8_t* uint8;
  bool* b;
  int16_t* i16;
  int8_t* int8;
  void* data;
} TfLitePtrUnion;

typedef enum TfLiteAllocationType {
  kTfLiteMemNone = 0,
  kTfLiteMmapRo,
  kTfLiteArenaRw,
  kTfLiteArenaRwPersistent,
  kTfLiteDynamic,
  kTfLitePersistentRo,
  kTfLiteCustom,
} TfLiteAllocationType;

#define kTfLiteOptionalTensor (-1)
enum { kTfLiteNullBufferHandle = -1 };
typedef int TfLiteBufferHandle;
struct TfLiteDelegate;

typedef struct TfLiteTensor {
  TfLiteType type;
  TfLitePtrUnion data;
  TfLiteIntArray* dims;
  TfLiteQuantizationParams params;
  TfLiteAllocationType allocation_type;
  size_t bytes;
  const void* allocation;
  const char* name;
  TfLiteDelegate* delegate;
  TfLiteBufferHandle buffer_handle;
  bool data_is_stale;
  bool is_variable;
  TfLiteQuantization quantization;
  const TfLiteIntArray* dims_signature;
} TfLiteTensor;

typedef struct TfLiteNode {
  TfLiteIntArray* inputs;
  TfLiteIntArray* outputs;
  TfLiteIntArray* intermediates;
  TfLiteIntArray* temporaries;
  void* user_data;
  void* builtin_data;
  const void* custom_initial_data;
  int custom_initial_data_size;
  TfLiteDelegate* delegate;
  bool might_have_side_effect;
} TfLiteNode;

typedef enum TfLiteExternalContextType {
  kTfLiteEigenContext = 0,
  kTfLiteGemmLowpContext = 1,
  kTfLiteEdgeTpuContext = 2,
  kTfLiteCpuBackendContext = 3,
  kTfLiteMaxExternalContexts = 4
} TfLiteExternalContextType;
typedef struct TfLiteExternalContext {
  TfLiteExternalContextType type;
  TfLiteStatus (*Refresh)(struct TfLiteContext* context);
} TfLiteExternalContext;

typedef struct TfLiteContext {
  size_t tensors_size;
  TfLiteStatus (*GetExecutionPlan)(struct TfLiteContext*, TfLiteIntArray**);
  TfLiteTensor* tensors;
  void* impl_;
  TfLiteStatus (*ResizeTensor)(struct TfLiteContext*, TfLiteTensor*,
                               TfLiteIntArray*);
  void (*ReportError)(struct TfLiteContext*, const char*, ...);
  TfLiteStatus (*AddTensors)(struct TfLiteContext*, int, int*);
  int recommended_num_threads;
  TfLiteExternalContext* (*GetExternalContext)(struct TfLiteContext*,
                                               TfLiteExternalContextType);
  void (*SetExternalContext)(struct TfLiteContext*, TfLiteExternalContextType,
                             TfLiteExternalContext*);
  bool allow_fp32_relax_to_fp16;
  void* profiler;
  void* (*AllocatePersistentBuffer)(struct TfLiteContext*, size_t);
  TfLiteTensor* (*GetTensor)(const struct TfLiteContext*, int);
} TfLiteContext;

typedef struct TfLiteRegistration {
  void* (*init)(TfLiteContext* context, const char* buffer, size_t length);
  void (*free)(TfLiteContext* context, void* buffer);
  TfLiteStatus (*prepare)(TfLiteContext* context, TfLiteNode* node);
  TfLiteStatus (*invoke)(TfLiteContext* context, TfLiteNode* node);
  const char* (*profiling_string)(const TfLiteContext* context,
                                  const TfLiteNode* node);
  int32_t builtin_code;
  const char* custom_name;
  int version;
  void* registration_external;
  void* async_kernel;
} TfLiteRegistration;

#define TF_LITE_KERNEL_LOG(context, ...)            \
  do {                                              \
    (context)->ReportError((context), __VA_ARGS__); \
  } while (false)
#define TF_LITE_MAYBE_KERNEL_LOG(context, ...)        \
  do {                                                \
    if ((context) != nullptr) {                       \
      (context)->ReportError((context), __VA_ARGS__); \
    }                                                 \
  } while (false)
#define TF_LITE_ENSURE_MSG(context, value, ...)        \
  do {                                                 \
    if (!(value)) {                                    \
      TF_LITE_KERNEL_LOG((context), __FILE__ " " __VA_ARGS__); \
      return kTfLiteError;                             \
    }                                                  \
  } while (0)
#define TF_LITE_ENSURE(context, a)                                      \
  do {                                                                  \
    if (!(a)) {                                                         \
      TF_LITE_KERNEL_LOG((context), "%s:%d %s was not true.", __FILE__, \
                         __LINE__, #a);                                 \
      return kTfLiteError;                                              \
    }                                                                   \
  } while (0)
#define TF_LITE_ENSURE_STATUS(a) \
  do {                           \
    const TfLiteStatus s = (a);  \
    if (s != kTfLiteOk) {        \
      return s;                  \
    }                            \
  } while (0)
#define TF_LITE_ENSURE_OK(context, status) TF_LITE_ENSURE_STATUS(status)
#define TF_LITE_ENSURE_EQ(context, a, b)                                   \
  do {                                                                     \
    if ((a) != (b)) {                                                      \
      TF_LITE_KERNEL_LOG((context), "%s:%d %s != %s", __FILE__, __LINE__, \
                         #a, #b);                                          \
      return kTfLiteError;                                                 \
    }                                                                      \
  } while (0)
#define TF_LITE_ENSURE_TYPES_EQ(context, a, b) TF_LITE_ENSURE_EQ(context, a, b)
#define TF_LITE_ENSURE_NEAR(context, a, b, epsilon)                          \
  do {                                                                       \
    if (std::abs((a) - (b)) > (epsilon)) {                                   \
      TF_LITE_KERNEL_LOG((context), "%s:%d %s not near %s", __FILE__,        \
                         __LINE__, #a, #b);                                  \
      return kTfLiteError;                                                   \
    }                                                                        \
  } while (0)

// ------------------------------------------------------- c/builtin_op_data.h
typedef enum {
  kTfLitePaddingUnknown = 0,
  kTfLitePaddingSame,
  kTfLitePaddingValid,
} TfLitePadding;
typedef struct {
  int width;
  int height;
  int width_offset;
  int height_offset;
} TfLitePaddingValues;
typedef enum {
  kTfLiteActNone = 0,
  kTfLiteActRelu,
  kTfLiteActReluN1To1,
  kTfLiteActRelu6,
  kTfLiteActTanh,
  kTfLiteActSignBit,
  kTfLiteActSigmoid,
} TfLiteFusedActivation;

// ------------------------------------------------------ DCHECK and friends
[[noreturn]] inline void lce_stub_check_failed(const char* what,
                                               const char* file, int line) {
  fprintf(stderr, "CHECK failed: %s at %s:%d\n", what, file, line);
  fflush(stderr);
  abort();
}
#define LCE_STUB_CHECK(c) \
  ((c) ? (void)0 : lce_stub_check_failed(#c, __FILE__, __LINE__))
#define TFLITE_ABORT abort()
#define TFLITE_ASSERT_FALSE lce_stub_check_failed("false", __FILE__, __LINE__)
#define TFLITE_DCHECK(c) LCE_STUB_CHECK(c)
#define TFLITE_DCHECK_EQ(x, y) LCE_STUB_CHECK((x) == (y))
#define TFLITE_DCHECK_NE(x, y) LCE_STUB_CHECK((x) != (y))
#define TFLITE_DCHECK_GE(x, y) LCE_STUB_CHECK((x) >= (y))
#define TFLITE_DCHECK_GT(x, y) LCE_STUB_CHECK((x) > (y))
#define TFLITE_DCHECK_LE(x, y) LCE_STUB_CHECK((x) <= (y))
#define TFLITE_DCHECK_LT(x, y) LCE_STUB_CHECK((x) < (y))
#define TFLITE_CHECK(c) LCE_STUB_CHECK(c)
#define TFLITE_CHECK_EQ(x, y) LCE_STUB_CHECK((x) == (y))
#define TFLITE_CHECK_NE(x, y) LCE_STUB_CHECK((x) != (y))
#define TFLITE_CHECK_GE(x, y) LCE_STUB_CHECK((x) >= (y))
#define TFLITE_CHECK_GT(x, y) LCE_STUB_CHECK((x) > (y))
#define TFLITE_CHECK_LE(x, y) LCE_STUB_CHECK((x) <= (y))
#define TFLITE_CHECK_LT(x, y) LCE_STUB_CHECK((x) < (y))
#define TF_LITE_FATAL(msg) lce_stub_check_failed(msg, __FILE__, __LINE__)
#define TF_LITE_ASSERT(x) LCE_STUB_CHECK(x)
#define TF_LITE_ASSERT_EQ(x, y) LCE_STUB_CHECK((x) == (y))
#ifndef TFLITE_NOINLINE
#define TFLITE_NOINLINE __attribute__((noinline))
#endif

// ------------------------------------------------------------ schema enums
namespace tflite {

enum Padding : int8_t { Padding_SAME = 0, Padding_VALID = 1,
  Padding_MIN = Padding_SAME, Padding_MAX = Padding_VALID };
enum ActivationFunctionType : int8_t {
  ActivationFunctionType_NONE = 0,
  ActivationFunctionType_RELU = 1,
  ActivationFunctionType_RELU_N1_TO_1 = 2,
  ActivationFunctionType_RELU6 = 3,
  ActivationFunctionType_TANH = 4,
  ActivationFunctionType_SIGN_BIT = 5,
  ActivationFunctionType_MIN = ActivationFunctionType_NONE,
  ActivationFunctionType_MAX = ActivationFunctionType_SIGN_BIT
};
enum TensorType : int8_t {
  TensorType_FLOAT32 = 0, TensorType_FLOAT16 = 1, TensorType_INT32 = 2,
  TensorType_UINT8 = 3, TensorType_INT64 = 4, TensorType_STRING = 5,
  TensorType_BOOL = 6, TensorType_INT16 = 7, TensorType_COMPLEX64 = 8,
  TensorType_INT8 = 9, TensorType_FLOAT64 = 10,
};
enum BuiltinOperator : int32_t {
  BuiltinOperator_ADD = 0, BuiltinOperator_CONV_2D = 3,
  BuiltinOperator_CUSTOM = 32,
};

// -------------------------------------------------------------- cppmath.h
template <class T>
inline T TfLiteRound(const T x) { return std::round(x); }
template <class T>
inline T TfLiteExpm1(const T x) { return std::expm1(x); }

// --------------------------------------------------------- internal/types.h
enum class FusedActivationFunctionType : uint8_t {
  kNone, kRelu6, kRelu1, kRelu };
enum class PaddingType : uint8_t { kNone, kSame, kValid };
struct PaddingValues {
  int16_t width;
  int16_t height;
  int16_t width_offset;
  int16_t height_offset;
};
struct ConvParams {
  PaddingType padding_type;
  PaddingValues padding_values;
  int16_t stride_width;
  int16_t stride_height;
  int16_t dilation_width_factor;
  int16_t dilation_height_factor;
  int32_t input_offset;
  int32_t weights_offset;
  int32_t output_offset;
  int32_t output_multiplier;
  int output_shift;
  int32_t quantized_activation_min;
  int32_t quantized_activation_max;
  float float_activation_min;
  float float_activation_max;
};
struct PoolParams {
  FusedActivationFunctionType activation;
  PaddingType padding_type;
  PaddingValues padding_values;
  int stride_height;
  int stride_width;
  int filter_height;
  int filter_width;
  int32_t quantized_activation_min;
  int32_t quantized_activation_max;
  float float_activation_min;
  float float_activation_max;
};

class RuntimeShape {
 public:
  RuntimeShape() {}
  explicit RuntimeShape(int n) : d_(n) {}
  RuntimeShape(int n, int32_t v) : d_(n, v) {}
  RuntimeShape(int n, const int32_t* v) : d_(v, v + n) {}
  RuntimeShape(const std::initializer_list<int> l) : d_(l.begin(), l.end()) {}
  RuntimeShape(int new_size, const RuntimeShape& s, int pad)
      : d_(new_size, pad) {
    TFLITE_CHECK_GE(new_size, s.DimensionsCount());
    std::copy(s.d_.begin(), s.d_.end(), d_.end() - s.d_.size());
  }
  bool operator==(const RuntimeShape& o) const { return d_ == o.d_; }
  bool operator!=(const RuntimeShape& o) const { return d_ != o.d_; }
  int32_t DimensionsCount() const { return (int32_t)d_.size(); }
  int32_t Dims(int i) const {
    TFLITE_DCHECK_GE(i, 0);
    TFLITE_DCHECK_LT(i, (int)d_.size());
    return d_[i];
  }
  void SetDim(int i, int32_t v) {
    TFLITE_DCHECK_GE(i, 0);
    TFLITE_DCHECK_LT(i, (int)d_.size());
    d_[i] = v;
  }
  int32_t* DimsData() { return d_.data(); }
  const int32_t* DimsData() const { return d_.data(); }
  const int32_t* DimsDataUpTo5D() const { return d_.data(); }
  void Resize(int n) { d_.assign(n, 0); }
  void ReplaceWith(int n, const int32_t* v) { d_.assign(v, v + n); }
  template <typename T>
  void BuildFrom(const T& it) { d_.assign(it.begin(), it.end()); }
  int FlatSize() const {
    int b = 1;
    for (int32_t x : d_) b *= x;
    return b;
  }
  static RuntimeShape ExtendedShape(int n, const RuntimeShape& s) {
    return RuntimeShape(n, s, 1);
  }

 private:
  std::vector<int32_t> d_;
};

inline int MatchingDim(const RuntimeShape& a, int ia, const RuntimeShape& b,
                       int ib) {
  TFLITE_DCHECK_EQ(a.Dims(ia), b.Dims(ib));
  return std::min(a.Dims(ia), b.Dims(ib));
}
template <typename... Args>
int MatchingDim(const RuntimeShape& a, int ia, const RuntimeShape& b, int ib,
                Args... args) {
  TFLITE_DCHECK_EQ(a.Dims(ia), b.Dims(ib));
  return MatchingDim(a, ia, args...);
}
__attribute__((always_inline)) inline int Offset(const RuntimeShape& s, int i0, int i1, int i2, int i3) {
  TFLITE_DCHECK_EQ(s.DimensionsCount(), 4);
  const int* d = s.DimsData();
  // (TFLite checks the individual indices only in debug builds.)
  TFLITE_DCHECK(i0 >= 0 && i0 < d[0]);
  TFLITE_DCHECK(i1 >= 0 && i1 < d[1]);
  TFLITE_DCHECK(i2 >= 0 && i2 < d[2]);
  TFLITE_DCHECK(i3 >= 0 && i3 < d[3]);
  return ((i0 * d[1] + i1) * d[2] + i2) * d[3] + i3;
}
inline int Offset(const RuntimeShape& s, int* i) {
  return Offset(s, i[0], i[1], i[2], i[3]);
}
inline int FlatSizeSkipDim(const RuntimeShape& s, int skip) {
  const int n = s.DimensionsCount();
  TFLITE_DCHECK(skip >= 0 && skip < n);
  int f = 1;
  for (int i = 0; i < n; ++i) f *= (i == skip) ? 1 : s.Dims(i);
  return f;
}
inline int MatchingFlatSize(const RuntimeShape& s, const RuntimeShape& t) {
  TFLITE_DCHECK_EQ(s.DimensionsCount(), t.DimensionsCount());
  for (int i = 0; i < s.DimensionsCount(); ++i) MatchingDim(s, i, t, i);
  return s.FlatSize();
}

// ------------------------------------------------- tensor_ctypes.h, tensor.h
template <typename T>
inline T* GetTensorData(TfLiteTensor* t) {
  return t != nullptr ? reinterpret_cast<T*>(t->data.raw) : nullptr;
}
template <typename T>
inline const T* GetTensorData(const TfLiteTensor* t) {
  return t != nullptr ? reinterpret_cast<const T*>(t->data.raw) : nullptr;
}
inline RuntimeShape GetTensorShape(const TfLiteTensor* t) {
  if (t == nullptr) return RuntimeShape();
  return RuntimeShape(t->dims->size, t->dims->data);
}
inline RuntimeShape GetTensorShape(const std::vector<int32_t>& data) {
  return RuntimeShape((int)data.size(), data.data());
}

// ------------------------------------------------------------ kernel_util.h
inline int NumInputs(const TfLiteNode* n) {
  return n->inputs == nullptr ? 0 : n->inputs->size;
}
inline int NumOutputs(const TfLiteNode* n) {
  return n->outputs == nullptr ? 0 : n->outputs->size;
}
inline int NumIntermediates(const TfLiteNode* n) {
  return n->intermediates == nullptr ? 0 : n->intermediates->size;
}
inline int NumDimensions(const TfLiteTensor* t) { return t->dims->size; }
inline int SizeOfDimension(const TfLiteTensor* t, int d) {
  TFLITE_DCHECK(d >= 0 && d < t->dims->size);
  return t->dims->data[d];
}
inline int64_t NumElements(const TfLiteIntArray* dims) {
  int64_t c = 1;
  for (int i = 0; i < dims->size; ++i) c *= dims->data[i];
  return c;
}
inline int64_t NumElements(const TfLiteTensor* t) {
  return NumElements(t->dims);
}
inline TfLiteTensor* lce_stub_tensor_at(const TfLiteContext* c,
                                        const TfLiteIntArray* a, int i) {
  TFLITE_DCHECK_GE(i, 0);
  TFLITE_DCHECK(a != nullptr && i < a->size);
  const int t = a->data[i];
  if (t == kTfLiteOptionalTensor) return nullptr;
  TFLITE_DCHECK(t >= 0 && t < (int)c->tensors_size);
  return &c->tensors[t];
}
inline const TfLiteTensor* GetInput(const TfLiteContext* c,
                                    const TfLiteNode* n, int i) {
  if (i < 0 || n->inputs == nullptr || i >= n->inputs->size) return nullptr;
  return lce_stub_tensor_at(c, n->inputs, i);
}
inline TfLiteStatus GetInputSafe(const TfLiteContext* c, const TfLiteNode* n,
                                 int i, const TfLiteTensor** t) {
  *t = GetInput(c, n, i);
  return *t ? kTfLiteOk : kTfLiteError;
}
inline TfLiteTensor* GetVariableInput(TfLiteContext* c, const TfLiteNode* n,
                                      int i) {
  TfLiteTensor* t = lce_stub_tensor_at(c, n->inputs, i);
  return t && t->is_variable ? t : nullptr;
}
inline TfLiteTensor* GetOutput(TfLiteContext* c, const TfLiteNode* n, int i) {
  if (i < 0 || n->outputs == nullptr || i >= n->outputs->size) return nullptr;
  return lce_stub_tensor_at(c, n->outputs, i);
}
inline TfLiteStatus GetOutputSafe(const TfLiteContext* c, const TfLiteNode* n,
                                  int i, TfLiteTensor** t) {
  *t = GetOutput(const_cast<TfLiteContext*>(c), n, i);
  return *t ? kTfLiteOk : kTfLiteError;
}
inline const TfLiteTensor* GetOptionalInputTensor(const TfLiteContext* c,
                                                  const TfLiteNode* n, int i) {
  return GetInput(c, n, i);
}
inline TfLiteTensor* GetTemporary(TfLiteContext* c, const TfLiteNode* n,
                                  int i) {
  return lce_stub_tensor_at(c, n->temporaries, i);
}
inline TfLiteStatus GetTemporarySafe(const TfLiteContext* c,
                                     const TfLiteNode* n, int i,
                                     TfLiteTensor** t) {
  *t = GetTemporary(const_cast<TfLiteContext*>(c), n, i);
  return *t ? kTfLiteOk : kTfLiteError;
}
inline bool IsConstantTensor(const TfLiteTensor* t) {
  return t->allocation_type == kTfLiteMmapRo;
}
inline bool IsConstantOrPersistentTensor(const TfLiteTensor* t) {
  return IsConstantTensor(t) || t->allocation_type == kTfLitePersistentRo;
}
inline bool IsDynamicTensor(const TfLiteTensor* t) {
  return t->allocation_type == kTfLiteDynamic;
}
inline void SetTensorToDynamic(TfLiteTensor* t) {
  if (t->allocation_type != kTfLiteDynamic) {
    t->allocation_type = kTfLiteDynamic;
    t->data.raw = nullptr;
  }
}
inline bool HaveSameShapes(const TfLiteTensor* a, const TfLiteTensor* b) {
  return TfLiteIntArrayEqual(a->dims, b->dims);
}
template <typename T>
void CalculateActivationRange(TfLiteFusedActivation activation, T* activation_min,
                              T* activation_max) {
  if (activation == kTfLiteActRelu) {
    *activation_min = 0;
    *activation_max = std::numeric_limits<T>::max();
  } else if (activation == kTfLiteActRelu6) {
    *activation_min = 0;
    *activation_max = 6;
  } else if (activation == kTfLiteActReluN1To1) {
    *activation_min = -1;
    *activation_max = 1;
  } else {
    *activation_min = std::numeric_limits<T>::lowest();
    *activation_max = std::numeric_limits<T>::max();
  }
}

// ---------------------------------------------------------------- padding.h
inline int ComputePadding(int stride, int dilation_rate, int in_size,
                          int filter_size, int out_size) {
  int eff = (filter_size - 1) * dilation_rate + 1;
  int padding = ((out_size - 1) * stride + eff - in_size) / 2;
  return padding > 0 ? padding : 0;
}
inline int ComputePaddingWithOffset(int stride, int dilation_rate, int in_size,
                                    int filter_size, int out_size,
                                    int* offset) {
  int eff = (filter_size - 1) * dilation_rate + 1;
  int total = ((out_size - 1) * stride + eff - in_size);
  total = total > 0 ? total : 0;
  *offset = total % 2;
  return total / 2;
}
inline int ComputeOutSize(TfLitePadding padding, int image_size,
                          int filter_size, int stride, int dilation_rate = 1) {
  int eff = (filter_size - 1) * dilation_rate + 1;
  if (stride == 0) return 0;
  switch (padding) {
    case kTfLitePaddingSame:
      return (image_size + stride - 1) / stride;
    case kTfLitePaddingValid:
      return (image_size + stride - eff) / stride;
    default:
      return 0;
  }
}
inline TfLitePaddingValues ComputePaddingHeightWidth(
    int stride_height, int stride_width, int dilation_rate_height,
    int dilation_rate_width, int in_height, int in_width, int filter_height,
    int filter_width, TfLitePadding padding, int* out_height, int* out_width) {
  *out_width = ComputeOutSize(padding, in_width, filter_width, stride_width,
                              dilation_rate_width);
  *out_height = ComputeOutSize(padding, in_height, filter_height,
                               stride_height, dilation_rate_height);
  TfLitePaddingValues v;
  int offset = 0;
  v.height = ComputePaddingWithOffset(stride_height, dilation_rate_height,
                                      in_height, filter_height, *out_height,
                                      &offset);
  v.height_offset = offset;
  v.width = ComputePaddingWithOffset(stride_width, dilation_rate_width,
                                     in_width, filter_width, *out_width,
                                     &offset);
  v.width_offset = offset;
  return v;
}

// --------------------------------------------------- optimized/im2col_utils.h
namespace optimized_ops {
template <typename T>
inline void ExtractPatchIntoBufferColumn(
    const RuntimeShape& input_shape, int w, int h, int b, int kheight,
    int kwidth, int stride_width, int stride_height, int pad_width,
    int pad_height, int in_width, int in_height, int in_depth,
    int single_buffer_length, int buffer_id, const T* in_data,
    T* conv_buffer_data, uint8_t zero_byte) {
  TFLITE_DCHECK_EQ(input_shape.DimensionsCount(), 4);
  const int kwidth_times_indepth = kwidth * in_depth;
  const int inwidth_times_indepth = in_width * in_depth;
  const int ih_ungated_start = h * stride_height - pad_height;
  const int ih_ungated_end = (ih_ungated_start + kheight);
  const int ih_end = std::min(ih_ungated_end, in_height);
  const int iw_ungated_start = w * stride_width - pad_width;
  const int iw_ungated_end = (iw_ungated_start + kwidth);
  const int iw_end = std::min(iw_ungated_end, in_width);
  const int h_offset = std::max(0, -ih_ungated_start);
  const int w_offset = std::max(0, -iw_ungated_start);
  const int ih_start = std::max(0, ih_ungated_start);
  const int iw_start = std::max(0, iw_ungated_start);
  const int single_row_num =
      std::min(kwidth - w_offset, in_width - iw_start) * in_depth;
  const int output_row_offset = (buffer_id * single_buffer_length);
  int out_offset =
      output_row_offset + (h_offset * kwidth + w_offset) * in_depth;
  const int top_padding = h_offset;
  const int bottom_padding = (ih_ungated_end - ih_end);
  const int left_padding = w_offset;
  const int right_padding = (iw_ungated_end - iw_end);
  if (top_padding > 0) {
    const int n = (top_padding * kwidth * in_depth);
    memset(conv_buffer_data + output_row_offset, zero_byte, n * sizeof(T));
  }
  if ((left_padding == 0) && (right_padding == 0)) {
    for (int ih = ih_start; ih < ih_end; ++ih) {
      const T* in = in_data +
                    ((b * in_height + ih) * in_width + iw_start) * in_depth;
      memcpy(conv_buffer_data + out_offset, in, single_row_num * sizeof(T));
      out_offset += kwidth_times_indepth;
    }
  } else {
    for (int ih = ih_start; ih < ih_end; ++ih) {
      if (left_padding > 0) {
        const int left_start = (out_offset - (left_padding * in_depth));
        memset(conv_buffer_data + left_start, zero_byte,
               left_padding * in_depth * sizeof(T));
      }
      if (single_row_num > 0) {
        const T* in = in_data +
                      ((b * in_height + ih) * in_width + iw_start) * in_depth;
        memcpy(conv_buffer_data + out_offset, in, single_row_num * sizeof(T));
      }
      if (right_padding > 0) {
        const int right_start = (out_offset + single_row_num);
        memset(conv_buffer_data + right_start, zero_byte,
               right_padding * in_depth * sizeof(T));
      }
      out_offset += kwidth_times_indepth;
    }
  }
  if (bottom_padding > 0) {
    const int bottom_row_elements = (bottom_padding * kwidth * in_depth);
    const int bottom_start =
        output_row_offset +
        ((top_padding + (ih_end - ih_start)) * kwidth * in_depth);
    memset(conv_buffer_data + bottom_start, zero_byte,
           bottom_row_elements * sizeof(T));
  }
  (void)inwidth_times_indepth;
}

template <typename T>
void Im2col(const ConvParams& params, int kheight, int kwidth,
            uint8_t zero_byte, const RuntimeShape& input_shape,
            const T* input_data, const RuntimeShape& output_shape,
            T* output_data) {
  const int batches = MatchingDim(input_shape, 0, output_shape, 0);
  const int input_depth = input_shape.Dims(3);
  const int input_width = input_shape.Dims(2);
  const int input_height = input_shape.Dims(1);
  const int output_depth = output_shape.Dims(3);
  const int output_width = output_shape.Dims(2);
  const int output_height = output_shape.Dims(1);
  int buffer_id = 0;
  for (int b = 0; b < batches; ++b)
    for (int h = 0; h < output_height; ++h)
      for (int w = 0; w < output_width; ++w) {
        ExtractPatchIntoBufferColumn(
            input_shape, w, h, b, kheight, kwidth, params.stride_width,
            params.stride_height, params.padding_values.width,
            params.padding_values.height, input_width, input_height,
            input_depth, output_depth, buffer_id, input_data, output_data,
            zero_byte);
        ++buffer_id;
      }
}
template <typename T>
void Im2col(const ConvParams& params, int kheight, int kwidth,
            const int32_t* input_offsets, const int input_offsets_size,
            const RuntimeShape& input_shape, const T* input_data,
            const RuntimeShape& output_shape, T* output_data) {
  Im2col(params, kheight, kwidth, (uint8_t)input_offsets[0], input_shape,
         input_data, output_shape, output_data);
}

template <typename T>
void DilatedIm2col(const ConvParams& params, const RuntimeShape& input_shape,
                   const T* input_data, const RuntimeShape& filter_shape,
                   const RuntimeShape& output_shape, T* im2col_data,
                   const int32_t* zero_bytes, const int zero_bytes_len) {
  const int batches = MatchingDim(input_shape, 0, output_shape, 0);
  const int input_height = input_shape.Dims(1);
  const int input_width = input_shape.Dims(2);
  const int input_depth = MatchingDim(input_shape, 3, filter_shape, 3);
  const int filter_height = filter_shape.Dims(1);
  const int filter_width = filter_shape.Dims(2);
  const int output_height = output_shape.Dims(1);
  const int output_width = output_shape.Dims(2);
  MatchingDim(output_shape, 3, filter_shape, 0);
  const RuntimeShape row_shape({1, batches, output_height, output_width});
  const RuntimeShape col_shape({1, filter_height, filter_width, input_depth});
  const RuntimeShape im2col_shape(
      {1, 1, row_shape.FlatSize(), col_shape.FlatSize()});
  for (int batch = 0; batch < batches; ++batch) {
    const T zero_byte = zero_bytes_len > 1 ? (T)zero_bytes[batch]
                                           : (T)zero_bytes[0];
    for (int out_y = 0; out_y < output_height; ++out_y) {
      for (int out_x = 0; out_x < output_width; ++out_x) {
        int row_offset = Offset(row_shape, 0, batch, out_y, out_x);
        const int in_x_origin =
            (out_x * params.stride_width) - params.padding_values.width;
        const int in_y_origin =
            (out_y * params.stride_height) - params.padding_values.height;
        for (int filter_y = 0; filter_y < filter_height; ++filter_y) {
          const int in_y =
              in_y_origin + params.dilation_height_factor * filter_y;
          if ((in_y >= 0) && (in_y < input_height)) {
            for (int filter_x = 0; filter_x < filter_width; ++filter_x) {
              const int in_x =
                  in_x_origin + params.dilation_width_factor * filter_x;
              int col_offset = Offset(col_shape, 0, filter_y, filter_x, 0);
              T* dst =
                  im2col_data +
                  Offset(im2col_shape, 0, 0, row_offset, col_offset);
              if ((in_x >= 0) && (in_x < input_width)) {
                T const* src = input_data +
                               Offset(input_shape, batch, in_y, in_x, 0);
                memcpy(dst, src, input_depth * sizeof(T));
              } else {
                memset(dst, zero_byte, input_depth * sizeof(T));
              }
            }
          } else {
            int col_offset = Offset(col_shape, 0, filter_y, 0, 0);
            T* dst = im2col_data +
                     Offset(im2col_shape, 0, 0, row_offset, col_offset);
            memset(dst, zero_byte, filter_width * input_depth * sizeof(T));
          }
        }
      }
    }
  }
}
template <typename T>
void DilatedIm2col(const ConvParams& params, uint8_t zero_byte,
                   const RuntimeShape& input_shape, const T* input_data,
                   const RuntimeShape& filter_shape,
                   const RuntimeShape& output_shape, T* im2col_data) {
  const int32_t z = zero_byte;
  DilatedIm2col<T>(params, input_shape, input_data, filter_shape, output_shape,
                   im2col_data, &z, 1);
}
}  // namespace optimized_ops

// -------------------------------------------------- portable_type_to_tflitetype
template <TfLiteType T> struct TfLiteTypeToType {};
template <> struct TfLiteTypeToType<kTfLiteFloat32> { using Type = float; };
template <> struct TfLiteTypeToType<kTfLiteInt32> { using Type = int32_t; };
template <> struct TfLiteTypeToType<kTfLiteUInt8> { using Type = uint8_t; };
template <> struct TfLiteTypeToType<kTfLiteInt8> { using Type = int8_t; };
template <> struct TfLiteTypeToType<kTfLiteInt16> { using Type = int16_t; };
template <> struct TfLiteTypeToType<kTfLiteInt64> { using Type = int64_t; };
template <> struct TfLiteTypeToType<kTfLiteBool> { using Type = bool; };
template <> struct TfLiteTypeToType<kTfLiteFloat64> { using Type = double; };
template <typename T> constexpr TfLiteType typeToTfLiteType() {
  return std::is_same<T, float>::value     ? kTfLiteFloat32
         : std::is_same<T, int32_t>::value ? kTfLiteInt32
         : std::is_same<T, uint8_t>::value ? kTfLiteUInt8
         : std::is_same<T, int8_t>::value  ? kTfLiteInt8
         : std::is_same<T, int16_t>::value ? kTfLiteInt16
         : std::is_same<T, int64_t>::value ? kTfLiteInt64
         : std::is_same<T, bool>::value    ? kTfLiteBool
         : std::is_same<T, double>::value  ? kTfLiteFloat64
                                           : kTfLiteNoType;
}

// ------------------------------------------------------------- op_resolver.h
class OpResolver {
 public:
  virtual const TfLiteRegistration* FindOp(BuiltinOperator op,
                                           int version) const = 0;
  virtual const TfLiteRegistration* FindOp(const char* op,
                                           int version) const = 0;
  virtual ~OpResolver() {}
};
class MutableOpResolver : public OpResolver {
 public:
  const TfLiteRegistration* FindOp(BuiltinOperator op,
                                   int version) const override {
    auto it = builtins_.find({(int)op, version});
    return it == builtins_.end() ? nullptr : &it->second;
  }
  const TfLiteRegistration* FindOp(const char* op, int version) const override {
    auto it = custom_ops_.find({op, version});
    return it == custom_ops_.end() ? nullptr : &it->second;
  }
  void AddBuiltin(BuiltinOperator op, const TfLiteRegistration* r,
                  int version = 1) {
    if (r == nullptr) return;
    TfLiteRegistration n = *r;
    n.custom_name = nullptr;
    n.builtin_code = op;
    n.version = version;
    builtins_[{(int)op, version}] = n;
  }
  void AddBuiltin(BuiltinOperator op, const TfLiteRegistration* r, int lo,
                  int hi) {
    for (int v = lo; v <= hi; ++v) AddBuiltin(op, r, v);
  }
  void AddCustom(const char* name, const TfLiteRegistration* r,
                 int version = 1) {
    TfLiteRegistration n = *r;
    n.builtin_code = BuiltinOperator_CUSTOM;
    auto it = custom_ops_.insert({{name, version}, n}).first;
    it->second = n;
    it->second.custom_name = it->first.first.c_str();
    it->second.version = version;
  }
  void AddCustom(const char* name, const TfLiteRegistration* r, int lo,
                 int hi) {
    for (int v = lo; v <= hi; ++v) AddCustom(name, r, v);
  }
  std::map<std::pair<int, int>, TfLiteRegistration> builtins_;
  std::map<std::pair<std::string, int>, TfLiteRegistration> custom_ops_;
};
namespace ops { namespace builtin {
class BuiltinOpResolver : public MutableOpResolver {};
} }

}  // namespace tflite

// ------------------------------------------------------------ tools/logging.h
namespace lce_stub {
struct NullLog {
  std::ostringstream s;
  template <class T> NullLog& operator<<(const T& t) { s << t; return *this; }
};
}
#define TFLITE_LOG(severity) (::lce_stub::NullLog())
#define TFLITE_LOG_ONCE(severity, ...) ((void)0)
#define TFLITE_MAY_LOG(severity, c) (::lce_stub::NullLog())

#endif  // LCE_STUB_TFLITE_ALL_H_
