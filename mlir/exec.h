// Executes legalized binary operators with the runtime operators of the repository.
#ifndef VERIF_EXEC_H_
#define VERIF_EXEC_H_
#include <string.h>

#include "common.h"
#include "runtime.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
namespace mlx {
struct Exec {
  int kernel = 0;
  int rejected = 0;  // operators that the runtime did not accept
  int ran = 0;
  static bool ToType(Type e, rt::T& t) {
    if (e.isF32()) t.type = rt::F32;
    else if (e.isSignlessInteger(32)) t.type = rt::I32;
    else if (e.isInteger(1)) t.type = rt::BOOL;
    else if (auto q = dyn_cast<quant::UniformQuantizedType>(e)) {
      if (q.getStorageTypeIntegralWidth() != 8 || !q.isSigned()) return false;
      t.type = rt::I8, t.scale = (float)q.getScale(), t.zp = (int)q.getZeroPoint();
    } else return false;
    return true;
  }
  static void ToData(const Tensor& a, rt::T& t) {
    t.dims.assign(a.shape.begin(), a.shape.end());
    for (double d : a.v) {
      if (t.type == rt::F32) { float f = (float)d; t.data.insert(t.data.end(), (uint8_t*)&f, (uint8_t*)&f + 4); }
      else if (t.type == rt::I32) { int32_t f = (int32_t)d; t.data.insert(t.data.end(), (uint8_t*)&f, (uint8_t*)&f + 4); }
      else t.data.push_back((uint8_t)(int8_t)d);
    }
  }
  ev::Status operator()(Operation* op, const std::vector<Tensor>& in, std::vector<Tensor>& out, std::string& err) {
    auto code = op->getAttrOfType<StringAttr>("custom_code");
    auto opt = dyn_cast_or_null<TFL::ConstBytesAttr>(op->getAttr("custom_option"));
    if (!code || !opt || op->getNumResults() != 1) { err = "malformed custom operator"; return ev::ERROR; }
    const std::vector<uint8_t> bytes(opt.getValue().begin(), opt.getValue().end());
    std::vector<rt::T> a(in.size());
    for (size_t i = 0; i < in.size(); ++i) {
      if (isa<NoneType>(op->getOperand(i).getType())) { a[i].none = true; continue; }
      if (!ToType(in[i].elem, a[i])) { err = "operand type the runtime does not know"; return ev::ERROR; }
      Operation* d = op->getOperand(i).getDefiningOp();
      a[i].constant = d && d->getNumOperands() == 0;
      ToData(in[i], a[i]);
    }
    rt::T o;
    auto ty = cast<ShapedType>(op->getResult(0).getType());
    if (!ToType(ty.getElementType(), o)) { err = "result type the runtime does not know"; return ev::ERROR; }
    if (ty.hasRank())
      for (int64_t d : ty.getShape()) o.dims.push_back(d < 0 ? 1 : (int)d);  // (what the exporter does)
    if (code.getValue() != "LceDequantize") o.dims.assign(o.dims.size(), 1);  // computed by the runtime
    const rt::Status s = rt::Run(code.getValue().str(), kernel, bytes, a, o, err);
    if (s == rt::REJECTED) { rejected++; err = "rejected: " + err; return ev::ERROR; }
    if (s == rt::FAILED) return ev::ERROR;
    ran++;
    Tensor r;
    r.elem = ty.getElementType();
    r.shape.assign(o.dims.begin(), o.dims.end());
    const size_t n = r.n();
    for (size_t i = 0; i < n; ++i) {
      if (o.type == rt::F32) { float f; memcpy(&f, &o.data[4 * i], 4); r.v.push_back(f); }
      else if (o.type == rt::I32) { int32_t f; memcpy(&f, &o.data[4 * i], 4); r.v.push_back(f); }
      else if (o.type == rt::BOOL) r.v.push_back(o.data[i] != 0);
      else r.v.push_back((int8_t)o.data[i]);
    }
    out = {r};
    return ev::OK;
  }
};
}  // namespace mlx
#endif
