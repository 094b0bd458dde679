// The part of the ARM program that is not LCE's: a TFLite interpreter that
// mirrors the harness's, the schedule of the matrix multiplication, and the
// places of the standard library that have no header-only definition.
#include "lce_stub/flex.h"
#include "lce_stub/ruy_all.h"
#include "lce_stub/tflite_all.h"
#include "call.h"

extern "C" void host_report(const char*);
namespace compute_engine { namespace tflite {
TfLiteRegistration* Register_QUANTIZE();
TfLiteRegistration* Register_DEQUANTIZE();
TfLiteRegistration* Register_BCONV_2D();
TfLiteRegistration* Register_BCONV_2D_REF();
TfLiteRegistration* Register_BCONV_2D_OPT_BGEMM();
TfLiteRegistration* Register_BCONV_2D_OPT_INDIRECT_BGEMM();
TfLiteRegistration* Register_BMAXPOOL_2D();
} }
namespace {
using namespace compute_engine::tflite;
TfLiteRegistration* (*const kOps[])() = {Register_QUANTIZE, Register_DEQUANTIZE, Register_BCONV_2D, Register_BCONV_2D_REF, Register_BCONV_2D_OPT_BGEMM, Register_BCONV_2D_OPT_INDIRECT_BGEMM, Register_BMAXPOOL_2D};

void ReportError(TfLiteContext*, const char* f, ...) { host_report(f); }
struct Interp {
  TfLiteContext c{};
  int n = 0;
  bool* resized = nullptr;
  tflite::CpuBackendContext cpu;
  uint32_t id = 0;
  Interp* next = nullptr;
  Interp() {
    c.impl_ = this;
    c.recommended_num_threads = 1;
    c.ReportError = &ReportError;
    c.ResizeTensor = [](TfLiteContext* c, TfLiteTensor* t, TfLiteIntArray* d) {
      if (t->dims != d) TfLiteIntArrayFree(t->dims);
      t->dims = d;
      ((Interp*)c->impl_)->resized[t - c->tensors] = true;
      for (int i = 0; i < d->size; ++i)
        if (d->data[i] < 0) { host_report("negative dimension"); return kTfLiteError; }
      t->data.raw = nullptr;
      return kTfLiteOk;
    };
    c.AddTensors = [](TfLiteContext* c, int n, int* first) {
      Interp* s = (Interp*)c->impl_;
      if (first) *first = s->n;
      s->Grow(s->n + n);
      return kTfLiteOk;
    };
    c.GetTensor = [](const TfLiteContext* c, int i) { return &c->tensors[i]; };
    c.AllocatePersistentBuffer = [](TfLiteContext*, size_t n) { return malloc(n); };
  }
  // The tensor array moves, as TFLite's std::vector may.
  void Grow(int m) {
    auto* t = (TfLiteTensor*)malloc(sizeof(TfLiteTensor) * (m ? m : 1));
    auto* r = (bool*)malloc(m ? m : 1);
    for (int i = 0; i < m; ++i) {
      if (i < n) { t[i] = c.tensors[i], r[i] = resized[i]; continue; }
      t[i] = TfLiteTensor();
      r[i] = false;
      t[i].dims = TfLiteIntArrayCreate(0);
      t[i].buffer_handle = kTfLiteNullBufferHandle;
    }
    free(c.tensors), free(resized);
    c.tensors = t, resized = r, n = m, c.tensors_size = m;
  }
};
Interp* first = nullptr;
Interp* Find(uint32_t id) {
  for (Interp* i = first; i; i = i->next) if (i->id == id) return i;
  Interp* i = new Interp;
  i->id = id, i->next = first, first = i;
  return i;
}
TfLiteIntArray* Array(const int32_t* p, int n) {
  TfLiteIntArray* a = TfLiteIntArrayCreate(n);
  for (int i = 0; i < n; ++i) a->data[i] = p[i];
  return a;
}
}  // namespace
extern "C" void guest_call(a32::Request* r) {
  const TfLiteRegistration* reg = kOps[r->op]();
  Interp* in = Find(r->context);
  switch (r->what) {
    case a32::kInit: r->result = (uint32_t)(reg->init ? reg->init(&in->c, (const char*)r->options, r->n_options) : nullptr); return;
    case a32::kFree: if (reg->free) reg->free(&in->c, (void*)r->user_data); return;
  }
  in->Grow(r->n_tensors);
  const auto* d = (const a32::Tensor*)r->tensors;
  for (uint32_t i = 0; i < r->n_tensors; ++i) {
    TfLiteTensor& t = in->c.tensors[i];
    in->resized[i] = false;
    TfLiteIntArrayFree(t.dims);
    t.dims = Array(d[i].dims, d[i].rank);
    t.type = (TfLiteType)d[i].type;
    t.allocation_type = (TfLiteAllocationType)d[i].allocation;
    t.bytes = d[i].bytes;
    t.data.raw = (char*)d[i].data;
    t.params.scale = d[i].scale, t.params.zero_point = d[i].zero_point;
    t.quantization.type = (TfLiteQuantizationType)d[i].quantized;
  }
  TfLiteNode n{};
  n.inputs = Array((const int32_t*)r->inputs, r->n_inputs);
  n.outputs = Array((const int32_t*)r->outputs, r->n_outputs);
  n.temporaries = Array((const int32_t*)r->temporaries, r->n_temporaries);
  n.user_data = (void*)r->user_data;
  n.custom_initial_data = (const void*)r->options;
  n.custom_initial_data_size = (int)r->n_options;
  const auto f = r->what == a32::kPrepare ? reg->prepare : reg->invoke;
  r->status = f ? f(&in->c, &n) : kTfLiteOk;
  r->user_data = (uint32_t)n.user_data;
  auto* o = (a32::Tensor*)malloc(sizeof(a32::Tensor) * in->n);
  for (int i = 0; i < in->n; ++i) {
    const TfLiteTensor& t = in->c.tensors[i];
    o[i] = a32::Tensor();
    o[i].type = t.type, o[i].allocation = t.allocation_type, o[i].resized = in->resized[i], o[i].bytes = t.bytes, o[i].data = (uint32_t)t.data.raw;
    o[i].scale = t.params.scale, o[i].zero_point = t.params.zero_point, o[i].quantized = t.quantization.type;
    o[i].rank = t.dims->size;
    for (int k = 0; k < t.dims->size && k < 8; ++k) o[i].dims[k] = t.dims->data[k];
  }
  r->tensors_after = (uint32_t)o, r->n_tensors_after = in->n;
  auto* q = (int32_t*)malloc(4 * (n.temporaries ? n.temporaries->size : 0) + 4);
  r->n_temporaries_after = n.temporaries ? n.temporaries->size : 0;
  for (uint32_t i = 0; i < r->n_temporaries_after; ++i) q[i] = n.temporaries->data[i];
  r->temporaries_after = (uint32_t)q;
  TfLiteIntArrayFree(n.inputs), TfLiteIntArrayFree(n.outputs), TfLiteIntArrayFree(n.temporaries);
}
// the interpreter goes away
extern "C" void guest_drop(uint32_t id) {
  for (Interp** p = &first; *p; p = &(*p)->next)
    if ((*p)->id == id) {
      Interp* i = *p;
      *p = i->next;
      for (int k = 0; k < i->n; ++k) TfLiteIntArrayFree(i->c.tensors[k].dims);
      free(i->c.tensors), free(i->resized);
      delete i;
      return;
    }
}
extern "C" uint32_t guest_has(uint32_t op, uint32_t what) {
  const TfLiteRegistration* r = kOps[op]();
  return what == a32::kInit ? !!r->init : what == a32::kFree ? !!r->free : what == a32::kPrepare ? !!r->prepare : !!r->invoke;
}
tflite::CpuBackendContext* tflite::CpuBackendContext::GetFromContext(TfLiteContext* c) { return &((Interp*)c->impl_)->cpu; }

// ------------------------------------------------------------------- schedule
namespace {
int step_l, step_r;
ruy::mc::Plan plan;
void RunPlan(ruy::TrMulParams* p) {
  using namespace ruy;
  const auto &pl = p->packed_matrix[Side::kLhs].layout, &pr = p->packed_matrix[Side::kRhs].layout;
  const int kl = pl.kernel.cols, kr = pr.kernel.cols;
  for (Side s : {Side::kRhs, Side::kLhs}) {
    const int n = s == Side::kLhs ? pl.cols : pr.cols, k = s == Side::kLhs ? kl : kr;
    if (!p->is_prepacked[s]) for (int c = n - k; c >= 0; c -= k) ruy::mc::Pack(p, s, c, c + k);
  }
  for (int r = 0; r < pr.cols; r += kr * step_r)
    for (int l = (pl.cols - 1) / (kl * step_l) * (kl * step_l); l >= 0; l -= kl * step_l)
      ruy::mc::Kernel(p, {l, std::min(l + kl * step_l, pl.cols), r, std::min(r + kr * step_r, pr.cols)});
}
}  // namespace
// cells of step_l x step_r kernel blocks, the last first; 0: one cell
extern "C" void guest_cells(int l, int r) {
  step_l = l, step_r = r;
  plan.run = &RunPlan;
  ruy::mc::plan() = l ? &plan : nullptr;
}
extern "C" unsigned guest_kernel_calls() { return (unsigned)ruy::mc::kernel_calls(); }

// ------------------------------------------------------------ standard library
template class std::basic_string<char>;
// Ordered trees without balancing.
namespace std {
using N = _Rb_tree_node_base;
static N* Next(N* x) {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  N* y = x->_M_parent;
  while (x == y->_M_right) x = y, y = y->_M_parent;
  return x->_M_right != y ? y : x;
}
N* _Rb_tree_increment(N* x) throw() { return Next(x); }
const N* _Rb_tree_increment(const N* x) throw() { return Next(const_cast<N*>(x)); }
static N* Previous(N* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    N* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  N* y = x->_M_parent;
  while (x == y->_M_left) x = y, y = y->_M_parent;
  return y;
}
N* _Rb_tree_decrement(N* x) throw() { return Previous(x); }
const N* _Rb_tree_decrement(const N* x) throw() { return Previous(const_cast<N*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() {
  x->_M_parent = p, x->_M_left = x->_M_right = 0, x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) h._M_parent = x, h._M_right = x;
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
}  // namespace std
