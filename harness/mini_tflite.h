// A minimal TFLite interpreter: tensors, nodes, allocation, invocation.  Every
// tensor buffer is its own heap block (so AddressSanitizer sees any overrun);
// buffers that are inputs of an op carry 16 readable bytes of slack behind
// them, which must never be written.
#ifndef VERIF_MINI_TFLITE_H_
#define VERIF_MINI_TFLITE_H_
#include "lce_stub/flex.h"
#include "lce_stub/ruy_all.h"
#include "lce_stub/tflite_all.h"
#ifdef LCE_A32
#include "shim.h"
#endif

#ifdef LCE_A64
constexpr size_t kSlack = 32;  // LCE_EXTRA_BYTES
#else
constexpr size_t kSlack = 16;
#endif

// The data of tensors has to be where the code under test can address it.
#ifdef LCE_A32
inline char* NewData(size_t n) { return (char*)a32::Alloc(n); }
inline void FreeData(void* p) { a32::Free(p); }
#else
inline char* NewData(size_t n) { return (char*)malloc(n); }
inline void FreeData(void* p) { free(p); }
#endif

struct Interp {
  struct NodeRec {
    TfLiteNode n{};
    const TfLiteRegistration* reg;
    std::vector<uint8_t> options;
    bool inited = false;
  };
  TfLiteContext ctx{};
  TfLiteTensor* tensors = nullptr;
  int nt = 0;
  std::vector<std::unique_ptr<NodeRec>> nodes;
  tflite::CpuBackendContext cpu;
  std::string error;
  int errors = 0;
  uint8_t slack_fill = 0x5A, fresh_fill = 0xCD;
  // Arena mode: tensor i lives at a fixed place of one of two banks, so that a
  // buffer keeps its address when its tensor is resized, and two banks of
  // addresses alternate when buffers move.
  static constexpr size_t kRegion = 1 << 16;
  bool arena = false;
  int bank = 0;
  std::vector<char*> regions[2];
  char* Place(int i, size_t n) {
    if (!arena) return NewData(n);
    if (n > kRegion) { fprintf(stderr, "harness: region\n"); abort(); }
    auto& r = regions[bank];
    while ((int)r.size() <= i) r.push_back(NewData(kRegion));
    return r[i];
  }

  static void Report(TfLiteContext* c, const char* f, ...) {
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    ((Interp*)c->impl_)->error = b;
    ((Interp*)c->impl_)->errors++;
  }
  Interp() {
    ctx.impl_ = this;
    ctx.recommended_num_threads = 1;
    ctx.ResizeTensor = [](TfLiteContext* c, TfLiteTensor* t,
                          TfLiteIntArray* d) -> TfLiteStatus {
      // (ResizeTensor takes ownership of d.)
      if (t->dims != d) TfLiteIntArrayFree(t->dims);
      t->dims = d;
      for (int i = 0; i < d->size; ++i)
        if (d->data[i] < 0) {
          c->ReportError(c, "negative dimension");
          return kTfLiteError;
        }
      t->bytes = ElemSize(t->type) * NumElems(d);
      ((Interp*)c->impl_)->Drop(t);
      return kTfLiteOk;
    };
    ctx.ReportError = &Report;
    ctx.AddTensors = [](TfLiteContext* c, int n, int* first) -> TfLiteStatus {
      Interp* s = (Interp*)c->impl_;
      if (first) *first = s->nt;
      for (int i = 0; i < n; ++i) s->NewTensor();
      return kTfLiteOk;
    };
    ctx.GetTensor = [](const TfLiteContext* c, int i) { return &c->tensors[i]; };
    ctx.AllocatePersistentBuffer = [](TfLiteContext*, size_t n) {
      return malloc(n);  // (leaks: fine in a harness)
    };
  }
  Interp(const Interp&) = delete;
  ~Interp() {
    for (auto& n : nodes) {
      if (n->inited && n->reg->free) n->reg->free(&ctx, n->n.user_data);
      TfLiteIntArrayFree(n->n.inputs);
      TfLiteIntArrayFree(n->n.outputs);
      TfLiteIntArrayFree(n->n.temporaries);
    }
    for (int i = 0; i < nt; ++i) {
      Drop(&tensors[i]);
      TfLiteIntArrayFree(tensors[i].dims);
    }
    free(tensors);
    for (auto& r : regions)
      for (char* p : r) FreeData(p);
#ifdef LCE_A32
    a32::Drop(&ctx);
#endif
  }
  static size_t ElemSize(TfLiteType t) {
    switch (t) {
      case kTfLiteFloat32: case kTfLiteInt32: case kTfLiteUInt32: return 4;
      case kTfLiteInt64: case kTfLiteUInt64: case kTfLiteFloat64: return 8;
      case kTfLiteInt16: case kTfLiteUInt16: case kTfLiteFloat16: return 2;
      default: return 1;
    }
  }
  static size_t NumElems(const TfLiteIntArray* d) {
    size_t n = 1;
    for (int i = 0; i < d->size; ++i) n *= (size_t)d->data[i];
    return n;
  }
  void Drop(TfLiteTensor* t) {
    if (!arena || t->allocation_type == kTfLiteMmapRo) FreeData(t->data.raw);
    t->data.raw = nullptr;
  }
  int NewTensor() {
    // The tensor array moves, as TFLite's std::vector may.
    auto* nw = (TfLiteTensor*)malloc(sizeof(TfLiteTensor) * (nt + 1));
    if (nt) memcpy((void*)nw, (void*)tensors, sizeof(TfLiteTensor) * nt);
    free(tensors);
    tensors = nw;
    memset((void*)&tensors[nt], 0, sizeof(TfLiteTensor));
    tensors[nt].dims = TfLiteIntArrayCreate(0);
    tensors[nt].buffer_handle = kTfLiteNullBufferHandle;
    ctx.tensors = tensors;
    ctx.tensors_size = ++nt;
    return nt - 1;
  }
  static TfLiteIntArray* Dims(const std::vector<int>& d) {
    TfLiteIntArray* a = TfLiteIntArrayCreate((int)d.size());
    for (size_t i = 0; i < d.size(); ++i) a->data[i] = d[i];
    return a;
  }
  int Tensor(TfLiteType type, const std::vector<int>& dims,
             TfLiteAllocationType at = kTfLiteArenaRw, float scale = 0,
             int zp = 0) {
    int i = NewTensor();
    TfLiteTensor* t = &tensors[i];
    t->type = type;
    TfLiteIntArrayFree(t->dims);
    t->dims = Dims(dims);
    t->bytes = ElemSize(type) * NumElems(t->dims);
    t->allocation_type = at;
    t->params.scale = scale;
    t->params.zero_point = zp;
    t->quantization.type =
        scale != 0 ? kTfLiteAffineQuantization : kTfLiteNoQuantization;
    if (at == kTfLiteMmapRo) Alloc(t);
    return i;
  }
  void Alloc(TfLiteTensor* t) {
    Drop(t);
    t->data.raw = t->allocation_type == kTfLiteMmapRo
                      ? NewData(t->bytes + kSlack)
                      : Place((int)(t - tensors), t->bytes + kSlack);
    memset(t->data.raw, fresh_fill, t->bytes);
    memset(t->data.raw + t->bytes, slack_fill, kSlack);
  }
  template <class T> T* data(int i) { return (T*)tensors[i].data.raw; }
  size_t bytes(int i) const { return tensors[i].bytes; }
  std::vector<int> dims(int i) const {
    auto* d = tensors[i].dims;
    return std::vector<int>(d->data, d->data + d->size);
  }
  void Set(int i, const void* p, size_t n) {
    if (n != tensors[i].bytes) {
      fprintf(stderr, "harness: Set %zu != %zu\n", n, tensors[i].bytes);
      abort();
    }
    if (n) memcpy(tensors[i].data.raw, p, n);
  }
  int Node(const TfLiteRegistration* r, const std::vector<int>& in,
           const std::vector<int>& out, const std::vector<uint8_t>& opts) {
    nodes.emplace_back(new NodeRec);
    auto& n = *nodes.back();
    n.reg = r;
    n.options = opts;
    n.n.inputs = Dims(in);
    n.n.outputs = Dims(out);
    n.n.temporaries = Dims({});
    n.n.custom_initial_data = n.options.data();
    n.n.custom_initial_data_size = (int)n.options.size();
    if (r->init)
      n.n.user_data =
          r->init(&ctx, (const char*)n.options.data(), n.options.size());
    n.inited = true;
    return (int)nodes.size() - 1;
  }
  TfLiteStatus PrepareNode(int i) {
    auto& n = *nodes[i];
    if (!n.reg->prepare) return kTfLiteOk;
    return n.reg->prepare(&ctx, &n.n);
  }
  // AllocateTensors: prepare every node, then give every arena tensor a
  // (fresh) buffer.
  TfLiteStatus Allocate() {
    for (size_t i = 0; i < nodes.size(); ++i) {
      TfLiteStatus s = PrepareNode((int)i);
      if (s != kTfLiteOk) return s;
    }
    for (int i = 0; i < nt; ++i)
      if (tensors[i].allocation_type != kTfLiteMmapRo) Alloc(&tensors[i]);
    return kTfLiteOk;
  }
  // Move every arena buffer, keeping its contents (what a re-planned arena
  // does without preparing earlier nodes again).
  void MoveBuffers() {
    std::vector<char*> old;
    bank ^= 1;
    for (int i = 0; i < nt; ++i) {
      TfLiteTensor* t = &tensors[i];
      if (t->allocation_type == kTfLiteMmapRo || !t->data.raw) continue;
      char* o = t->data.raw;
      t->data.raw = Place(i, t->bytes + kSlack);
      memcpy(t->data.raw, o, t->bytes);
      memset(t->data.raw + t->bytes, slack_fill, kSlack);
      memset(o, 0xEE, t->bytes);
      old.push_back(o);
    }
    if (!arena)
      for (char* o : old) FreeData(o);
  }
  void Resize(int i, const std::vector<int>& d) {
    TfLiteTensor* t = &tensors[i];
    TfLiteIntArrayFree(t->dims);
    t->dims = Dims(d);
    t->bytes = ElemSize(t->type) * NumElems(t->dims);
    Drop(t);
  }
  TfLiteStatus InvokeNode(int i) {
    auto& n = *nodes[i];
    return n.reg->invoke(&ctx, &n.n);
  }
  TfLiteStatus Invoke() {
    for (size_t i = 0; i < nodes.size(); ++i) {
      TfLiteStatus s = InvokeNode((int)i);
      if (s != kTfLiteOk) return s;
    }
    return kTfLiteOk;
  }
  // Returns the index of a tensor whose slack was written, or -1.
  int SlackDamaged() const {
    for (int i = 0; i < nt; ++i) {
      const TfLiteTensor& t = tensors[i];
      if (!t.data.raw) continue;
      for (size_t k = 0; k < kSlack; ++k)
        if ((uint8_t)t.data.raw[t.bytes + k] != slack_fill) return i;
    }
    return -1;
  }
  void FillSlack(uint8_t v) {
    slack_fill = v;
    for (int i = 0; i < nt; ++i)
      if (tensors[i].data.raw)
        memset(tensors[i].data.raw + tensors[i].bytes, v, kSlack);
  }
};
__attribute__((weak)) tflite::CpuBackendContext* tflite::CpuBackendContext::GetFromContext(
    TfLiteContext* c) {
  return &((Interp*)c->impl_)->cpu;
}
#endif
