// Stand-in for the TFLite interpreter classes the Python binding uses: a
// "model" is a text describing tensors, quantization, inputs, outputs and
// which calls fail; Invoke() writes a function of the input bytes to the
// outputs.  Every tensor is a heap block of its exact size.
#pragma once
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "lce_stub/tflite_all.h"

namespace tflite {
namespace ops {
namespace builtin {
class BuiltinOpResolverWithoutDefaultDelegates : public BuiltinOpResolver {};
}  // namespace builtin
}  // namespace ops

extern std::string g_log;  // events, for the explorer

class FlatBufferModel {
 public:
  static std::unique_ptr<FlatBufferModel> BuildFromBuffer(const char* p, size_t n) {
    if (n < 4 || memcmp(p, "LCE1", 4) != 0) return nullptr;
    std::unique_ptr<FlatBufferModel> m(new FlatBufferModel);
    m->p_ = p;
    m->n_ = n;
    return m;
  }
  static std::unique_ptr<FlatBufferModel> VerifyAndBuildFromBuffer(const char* p, size_t n) { return BuildFromBuffer(p, n); }
  // (the buffer is not copied: it has to outlive the model)
  std::string text() const { return std::string(p_ + 4, n_ - 4); }

 private:
  const char* p_;
  size_t n_;
};

inline size_t StubTypeSize(int t) {
  switch (t) {
    case kTfLiteFloat32: case kTfLiteInt32: case kTfLiteUInt32: return 4;
    case kTfLiteInt64: case kTfLiteFloat64: case kTfLiteUInt64: case kTfLiteComplex64: return 8;
    case kTfLiteInt16: case kTfLiteFloat16: case kTfLiteUInt16: return 2;
    default: return 1;
  }
}

class Interpreter {
 public:
  ~Interpreter() {
    for (auto& t : t_) {
      free(t.data.raw);
      free(t.dims);
      if (auto* q = (TfLiteAffineQuantization*)t.quantization.params) {
        free(q->scale);
        free(q->zero_point);
        free(q);
      }
    }
  }
  const std::vector<int>& inputs() const { return in_; }
  const std::vector<int>& outputs() const { return out_; }
  size_t tensors_size() const { return t_.size(); }
  TfLiteTensor* tensor(int i) { return i >= 0 && i < (int)t_.size() ? &t_[i] : nullptr; }
  const TfLiteTensor* tensor(int i) const { return const_cast<Interpreter*>(this)->tensor(i); }
  TfLiteTensor* input_tensor(size_t i) { return tensor(in_[i]); }
  TfLiteTensor* output_tensor(size_t i) { return tensor(out_[i]); }
  TfLiteStatus SetNumThreads(int n) { threads_ = n; return kTfLiteOk; }
  TfLiteStatus AllocateTensors() {
    g_log += "allocate;";
    if (fail_alloc_) return kTfLiteError;
    for (auto& t : t_) Alloc(t);
    allocated_ = true;
    return kTfLiteOk;
  }
  TfLiteStatus Invoke() {
    std::ostringstream s;
    s << "invoke threads=" << threads_ << " ";
    uint32_t h = 7;
    if (!allocated_) { g_log += "invoke before allocation;"; return kTfLiteError; }
    for (int i : in_) {
      for (size_t k = 0; k < t_[i].bytes; ++k) {
        char b[4];
        snprintf(b, sizeof b, "%02x", (unsigned char)t_[i].data.raw[k]);
        s << b;
        h = h * 31 + (unsigned char)t_[i].data.raw[k];
      }
      s << ",";
    }
    g_log += s.str() + ";";
    if (invocations_++ == fail_invoke_) return kTfLiteError;
    for (size_t j = 0; j < out_.size(); ++j) {
      TfLiteTensor& t = t_[out_[j]];
      if (resize_out_ && t.dims->size) {
        t.dims->data[0] = 1 + invocations_ % 3;
        Alloc(t);
      }
      bool is_in = false;
      for (int i : in_) is_in |= i == out_[j];
      if (is_in) continue;
      for (size_t k = 0; k < t.bytes; ++k) {
        unsigned v = h + 131 * k + 17 * j;
        t.data.raw[k] = t.type == kTfLiteBool ? (v >> 3) & 1 : v ^ (v >> 7);
      }
    }
    return kTfLiteOk;
  }

 private:
  friend class InterpreterBuilder;
  void Alloc(TfLiteTensor& t) {
    size_t n = StubTypeSize(t.type);
    for (int i = 0; i < t.dims->size; ++i) n *= t.dims->data[i];
    free(t.data.raw);
    t.bytes = n;
    t.data.raw = (char*)malloc(n);
    memset(t.data.raw, 0x5a, n);
  }
  std::vector<TfLiteTensor> t_;
  std::vector<std::string> names_;
  std::vector<int> in_, out_;
  int threads_ = -1, fail_alloc_ = 0, fail_invoke_ = -1, resize_out_ = 0, invocations_ = 0;
  bool allocated_ = false;
};

class InterpreterBuilder {
 public:
  InterpreterBuilder(const FlatBufferModel& m, const OpResolver& r) : m_(m), r_(r) {}
  InterpreterBuilder& SetNumThreads(int n) { n_ = n; return *this; }
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* out, int threads) { n_ = threads; return (*this)(out); }
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* out) {
    std::istringstream s(m_.text());
    std::unique_ptr<Interpreter> it(new Interpreter);
    int n, fail_build = 0;
    s >> n;
    it->t_.resize(n);
    it->names_.resize(n);
    for (int i = 0; i < n; ++i) {
      TfLiteTensor& t = it->t_[i];
      memset((void*)&t, 0, sizeof t);
      int ty, nd, q, k;
      s >> ty >> nd;
      t.type = (TfLiteType)ty;
      t.dims = (TfLiteIntArray*)malloc(sizeof(int) * (nd + 1));
      t.dims->size = nd;
      for (int j = 0; j < nd; ++j) s >> t.dims->data[j];
      s >> q >> t.params.scale >> t.params.zero_point;
      if (q) {
        auto* a = (TfLiteAffineQuantization*)calloc(1, sizeof(TfLiteAffineQuantization));
        s >> k;
        a->scale = (TfLiteFloatArray*)malloc(sizeof(int) + sizeof(float) * (k + 1));
        a->scale->size = k;
        for (int j = 0; j < k; ++j) s >> a->scale->data[j];
        s >> k;
        a->zero_point = (TfLiteIntArray*)malloc(sizeof(int) * (k + 1));
        a->zero_point->size = k;
        for (int j = 0; j < k; ++j) s >> a->zero_point->data[j];
        t.quantization.type = kTfLiteAffineQuantization;
        t.quantization.params = a;
      }
      it->names_[i] = "t" + std::to_string(i);
      t.name = it->names_[i].c_str();
    }
    s >> n;
    for (int i = 0, x; i < n; ++i) { s >> x; it->in_.push_back(x); }
    s >> n;
    for (int i = 0, x; i < n; ++i) { s >> x; it->out_.push_back(x); }
    s >> fail_build >> it->fail_alloc_ >> it->fail_invoke_ >> it->resize_out_;
    it->threads_ = n_;
    std::ostringstream l;
    l << "build threads=" << n_ << " delegates=" << (dynamic_cast<const ops::builtin::BuiltinOpResolverWithoutDefaultDelegates*>(&r_) == nullptr);
    for (const char* name : {"LceBconv2d", "LceQuantize", "LceDequantize", "LceBMaxPool2d"}) {
      const TfLiteRegistration* r = r_.FindOp(name, 1);
      l << " " << name << "=" << (r ? (const char*)(void*)r->init : "none");
    }
    g_log += l.str() + ";";
    if (fail_build) { out->reset(); return kTfLiteError; }
    *out = std::move(it);
    return kTfLiteOk;
  }

 private:
  const FlatBufferModel& m_;
  const OpResolver& r_;
  int n_ = -1;
};
}  // namespace tflite
