// An interpreter of the operators the conversion passes deal with, written
// from the documentation of TensorFlow, TFLite and Compute Engine (and not
// from the passes): the reference for "computes the same values".
#ifndef VERIF_EVAL_H_
#define VERIF_EVAL_H_
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantOps.h"
#include "mlir/Dialect/Quant/QuantTypes.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"

namespace ev {
using Shape = std::vector<int64_t>;
struct Tensor {
  Shape shape;
  std::vector<double> v;  // floats, integers, or the storage integers of quantized types
  mlir::Type elem;        // null: no value
  int64_t n() const { int64_t r = 1; for (auto d : shape) r *= d; return r; }
};
// The text of a tensor type, and of constants.
std::string Ty(const Shape& s, const std::string& el);  // negative dimensions are dynamic
std::string ShapeText(const Shape& s);
std::string Num(double d);
std::string Dense(const std::vector<double>& v, const Shape& s, const std::string& el);  // dense<[..]> : tensor<..>

enum Status { OK, ERROR, UNSUPPORTED };
// Evaluates a function of one block. ERROR: an operator whose operands,
// attributes or types do not make sense (or that no runtime accepts);
// UNSUPPORTED: an operator the interpreter does not know.
Status Run(mlir::func::FuncOp f, const std::vector<Tensor>& in, std::vector<Tensor>& out, std::string& err);
// Evaluates one operator.
Status RunOp(mlir::Operation* op, const std::vector<Tensor>& in, std::vector<Tensor>& out, std::string& err);
// Evaluates tfl.custom operators, if set.
using CustomFn = std::function<Status(mlir::Operation* op, const std::vector<Tensor>& in, std::vector<Tensor>& out, std::string& err)>;
extern CustomFn Custom;
// Constant of an attribute; false if it has no accessible elements.
bool FromAttr(mlir::Attribute a, Tensor& t);
double Real(const Tensor& t, int64_t i, int axis_index = 0);  // dequantized
int64_t CountOps(mlir::Operation* m, llvm::StringRef name);

extern mlir::MLIRContext* C;
void Init(mlir::MLIRContext* c);
void Register(mlir::DialectRegistry& r);
mlir::OwningOpRef<mlir::ModuleOp> Parse(const std::string& text);  // exits 77 if it does not parse and verify
std::string Print(mlir::Operation* m, bool generic = false);
// Runs passes over every function, with verification after each pass; the
// diagnostics are in `diag`. `custom` builds the pipeline.
bool RunPasses(mlir::ModuleOp m, const std::function<void(mlir::OpPassManager&)>& custom, std::string& diag);
// Compares results; empty if they agree (|a-b| <= tol * max(1, |a|)).
std::string Diff(const std::vector<Tensor>& want, const std::vector<Tensor>& got, double tol = 0);
std::string Show(const Tensor& t);
}  // namespace ev
#endif
