// LCE's operators, executed on the interpreter of 32-bit ARM programs.  The
// program has its own mirror of the TFLite structures (pointers have another
// size); the data of the tensors is shared.
#include "shim.h"

#include <cstring>
#include <map>
#include <string>
#include <vector>

#include "call.h"
#include "emu.h"

namespace a32 {
namespace {
void Once() {
  static bool done = false;
  if (done) return;
  done = true;
  const std::string d = A32_DIR;
  Load(d + "/guest.elf", d + "/guest.lst", d + "/guest.imp");
}
uint32_t Low(const void* p) {
  if ((uint64_t)p >> 31) fprintf(stderr, "harness: a pointer the program cannot hold\n"), abort();
  return (uint32_t)(uint64_t)p;
}
struct Block {  // memory for a call
  void* p;
  explicit Block(const void* s, size_t n) : p(Alloc(n)) { if (n) memcpy(p, s, n); }
  ~Block() { Free(p); }
  operator uint32_t() const { return Low(p); }
};
std::map<TfLiteContext*, uint32_t> ids;
uint32_t Id(TfLiteContext* c) {
  static uint32_t next = 1;
  auto& i = ids[c];
  return i ? i : i = next++;
}
uint32_t Send(Request& r) {
  static Request* shared = (Request*)Alloc(sizeof(Request));
  *shared = r;
  static const uint32_t f = Symbol("guest_call");
  Call(f, Low(shared));
  r = *shared;
  return r.result;
}
TfLiteStatus Node(What what, int op, TfLiteContext* c, TfLiteNode* n) {
  std::vector<Tensor> ts(c->tensors_size);
  for (size_t i = 0; i < ts.size(); ++i) {
    const TfLiteTensor& t = c->tensors[i];
    Tensor& o = ts[i];
    o = Tensor();
    o.type = t.type, o.allocation = t.allocation_type, o.bytes = (uint32_t)t.bytes, o.data = Low(t.data.raw);
    o.scale = t.params.scale, o.zero_point = t.params.zero_point, o.quantized = t.quantization.type;
    o.rank = t.dims->size;
    if (o.rank > 8) abort();
    for (int k = 0; k < o.rank; ++k) o.dims[k] = t.dims->data[k];
  }
  Block tensors(ts.data(), ts.size() * sizeof(Tensor)), in(n->inputs->data, 4 * n->inputs->size), out(n->outputs->data, 4 * n->outputs->size), tmp(n->temporaries->data, 4 * n->temporaries->size);
  Block options(n->custom_initial_data, n->custom_initial_data_size);
  Request r{};
  r.what = what, r.op = op, r.context = Id(c);
  r.tensors = tensors, r.n_tensors = ts.size();
  r.inputs = in, r.n_inputs = n->inputs->size, r.outputs = out, r.n_outputs = n->outputs->size, r.temporaries = tmp, r.n_temporaries = n->temporaries->size;
  r.user_data = Low(n->user_data), r.options = options, r.n_options = n->custom_initial_data_size;
  Send(r);
  n->user_data = (void*)(uint64_t)r.user_data;
  if (*Report()) c->ReportError(c, "%s", Report()), ClearReport();
  if (r.n_tensors_after > c->tensors_size) c->AddTensors(c, (int)(r.n_tensors_after - c->tensors_size), nullptr);
  const auto* a = (const Tensor*)(uint64_t)r.tensors_after;
  for (uint32_t i = 0; i < r.n_tensors_after; ++i) {
    TfLiteTensor& t = c->tensors[i];
    t.type = (TfLiteType)a[i].type, t.allocation_type = (TfLiteAllocationType)a[i].allocation;
    t.params.scale = a[i].scale, t.params.zero_point = a[i].zero_point, t.quantization.type = (TfLiteQuantizationType)a[i].quantized;
    bool differs = t.dims->size != a[i].rank;
    for (int k = 0; !differs && k < a[i].rank; ++k) differs = t.dims->data[k] != a[i].dims[k];
    if (a[i].resized || differs) {
      TfLiteIntArray* d = TfLiteIntArrayCreate(a[i].rank);
      for (int k = 0; k < a[i].rank; ++k) d->data[k] = a[i].dims[k];
      if (a[i].resized) c->ResizeTensor(c, &c->tensors[i], d);
      else TfLiteIntArrayFree(t.dims), t.dims = d;
    }
  }
  bool differs = (uint32_t)n->temporaries->size != r.n_temporaries_after;
  const auto* q = (const int32_t*)(uint64_t)r.temporaries_after;
  for (uint32_t k = 0; !differs && k < r.n_temporaries_after; ++k) differs = n->temporaries->data[k] != q[k];
  if (differs) {
    TfLiteIntArrayFree(n->temporaries);
    n->temporaries = TfLiteIntArrayCreate((int)r.n_temporaries_after);
    for (uint32_t k = 0; k < r.n_temporaries_after; ++k) n->temporaries->data[k] = q[k];
  }
  Free((void*)(uint64_t)r.tensors_after), Free((void*)(uint64_t)r.temporaries_after);
  return (TfLiteStatus)r.status;
}
template <int K> struct Op {
  static void* Init(TfLiteContext* c, const char* b, size_t n) {
    Block options(b, n);
    Request r{};
    r.what = kInit, r.op = K, r.context = Id(c), r.options = options, r.n_options = n;
    const uint32_t u = Send(r);
    if (*Report()) c->ReportError(c, "%s", Report()), ClearReport();
    return (void*)(uint64_t)u;
  }
  static void Free(TfLiteContext* c, void* p) {
    Request r{};
    r.what = kFree, r.op = K, r.context = Id(c), r.user_data = Low(p);
    Send(r);
  }
  static TfLiteStatus Prepare(TfLiteContext* c, TfLiteNode* n) { return Node(kPrepare, K, c, n); }
  static TfLiteStatus Invoke(TfLiteContext* c, TfLiteNode* n) { return Node(kInvoke, K, c, n); }
  static TfLiteRegistration* Get() {
    static TfLiteRegistration r;
    static bool done = false;
    if (!done) {
      done = true;
      Once();
      const uint32_t has = Symbol("guest_has");
      if (Call(has, K, kInit)) r.init = &Init;
      if (Call(has, K, kFree)) r.free = &Free;
      if (Call(has, K, kPrepare)) r.prepare = &Prepare;
      if (Call(has, K, kInvoke)) r.invoke = &Invoke;
    }
    return &r;
  }
};
}  // namespace
void Cells(int l, int r) { Once(), Call(Symbol("guest_cells"), l, r); }
uint64_t KernelCalls() { return Once(), Call(Symbol("guest_kernel_calls")); }
void Drop(TfLiteContext* c) {
  auto it = ids.find(c);
  if (it == ids.end()) return;
  Call(Symbol("guest_drop"), it->second);
  ids.erase(it);
}
}  // namespace a32
namespace compute_engine { namespace tflite {
#define OP(k, name) TfLiteRegistration* Register_##name() { return a32::Op<k>::Get(); }
OP(0, QUANTIZE)
OP(1, DEQUANTIZE)
OP(2, BCONV_2D)
OP(3, BCONV_2D_REF)
OP(4, BCONV_2D_OPT_BGEMM)
OP(5, BCONV_2D_OPT_INDIRECT_BGEMM)
OP(6, BMAXPOOL_2D)
} }
