// The scripted TensorFlow around the conversion entry points (see
// include/standin/world.h).  A pass that other stages depend on has the effect
// they depend on; the others only take part in the fault script.
#include "standin/world.h"

#include <math.h>

#include "eval.h"
#include "mlir/Dialect/Func/Extensions/AllExtensions.h"
#include "mlir/Interfaces/FoldInterfaces.h"
#include "mlir/Transforms/InliningUtils.h"
#include "mlir/Transforms/Passes.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"
using namespace mlir;
using ev::Tensor;

namespace world {
World W;
std::function<void(MLIRContext&)> Prepare;
bool Trace = false;

namespace {
Attribute ToAttr(const Tensor& t, Type type) {
  auto ty = dyn_cast<RankedTensorType>(type);
  if (!ty || !ty.hasStaticShape() || ty.getNumElements() != (int64_t)t.v.size()) return {};
  Type e = ty.getElementType();
  if (e.isF32()) return DenseElementsAttr::get(ty, ArrayRef<float>(SmallVector<float>(t.v.begin(), t.v.end())));
  if (e.isInteger(1)) {
    SmallVector<bool> b(t.v.begin(), t.v.end());
    return DenseElementsAttr::get(ty, ArrayRef<bool>(b));
  }
  if (e.isInteger(32)) return DenseElementsAttr::get(ty, ArrayRef<int32_t>(SmallVector<int32_t>(t.v.begin(), t.v.end())));
  return {};
}
// TensorFlow's constant folding: an operator of the tf dialect on constants.
struct FoldConstants : public DialectFoldInterface {
  using DialectFoldInterface::DialectFoldInterface;
  LogicalResult fold(Operation* op, ArrayRef<Attribute> operands, SmallVectorImpl<OpFoldResult>& results) const override {
    if (!op->getName().getStringRef().starts_with("tf.") || op->getNumResults() != 1 || !op->getNumOperands()) return failure();
    std::vector<Tensor> in, out;
    for (Attribute a : operands) {
      Tensor t;
      if (!a || !ev::FromAttr(a, t)) return failure();
      in.push_back(t);
    }
    std::string err;
    if (ev::RunOp(op, in, out, err) != ev::OK) return failure();
    Attribute r = ToAttr(out[0], op->getResult(0).getType());
    if (!r) return failure();
    results.push_back(r);
    return success();
  }
};

// TensorFlow's and TFLite's operators may be inlined.
struct Inline : public DialectInlinerInterface {
  using DialectInlinerInterface::DialectInlinerInterface;
  bool isLegalToInline(Operation*, Operation*, bool) const final { return true; }
  bool isLegalToInline(Region*, Region*, bool, IRMapping&) const final { return true; }
  bool isLegalToInline(Operation*, Region*, bool, IRMapping&) const final { return true; }
};
struct StandinDialect : public Dialect {
  explicit StandinDialect(MLIRContext* c) : Dialect("standin", c, TypeID::get<StandinDialect>()) { allowUnknownOperations(); }
  static StringRef getDialectNamespace() { return "standin"; }
  // A conditional with a constant condition is a call of that branch.
  struct Fold : public RewritePattern {
    explicit Fold(MLIRContext* c) : RewritePattern("standin.if", 1, c) {}
    LogicalResult matchAndRewrite(Operation* o, PatternRewriter& r) const override {
      DenseElementsAttr c;
      if (!matchPattern(o->getOperand(0), m_Constant(&c))) return failure();
      r.replaceOpWithNewOp<func::CallOp>(o, cast<FlatSymbolRefAttr>(o->getAttr(c.getValues<bool>()[0] ? "then_branch" : "else_branch")), o->getResultTypes(), o->getOperands().drop_front());
      return success();
    }
  };
  void getCanonicalizationPatterns(RewritePatternSet& p) const override { p.add<Fold>(getContext()); }
};
// An operator of a kind LCE does not touch: `todo` are the passes it needs, one
// after the other; when all have run it is converted.
void Features(Operation* m, const std::string& pass) {
  SmallVector<Operation*> found;
  m->walk([&](Operation* o) {
    auto todo = o->getName().getStringRef() == "standin.feature" ? o->getAttrOfType<ArrayAttr>("todo") : ArrayAttr();
    if (todo && todo.size() && cast<StringAttr>(todo[0]).getValue() == pass) found.push_back(o);
  });
  for (Operation* o : found) {
    auto todo = o->getAttrOfType<ArrayAttr>("todo");
    if (todo.size() > 1) { o->setAttr("todo", ArrayAttr::get(o->getContext(), todo.getValue().drop_front())); continue; }
    o->getResult(0).replaceAllUsesWith(o->getOperand(0));
    o->erase();
  }
}
template <class OpT>
struct StubPass : public PassWrapper<StubPass<OpT>, OperationPass<OpT>> {
  MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(StubPass)
  std::string name;
  std::function<void(OpT)> run;
  StubPass(std::string n, std::function<void(OpT)> f) : name(std::move(n)), run(std::move(f)) {}
  StubPass(const StubPass& o) : PassWrapper<StubPass<OpT>, OperationPass<OpT>>(o), name(o.name), run(o.run) {}
  StringRef getName() const override { return name; }
  void getDependentDialects(DialectRegistry& r) const override { ev::Register(r); }
  void runOnOperation() override {
    OpT op = this->getOperation();
    if (W.Step(name)) {
      if (!W.silent) op.emitError("injected failure of " + name);
      return this->signalPassFailure();
    }
    if (run) run(op);
    if (W.unsupported) {
      op.emitError("operator not supported by the runtime");
      return this->signalPassFailure();
    }
    Features(op, name);
  }
};
FuncPass F(const char* n, std::function<void(func::FuncOp)> f = {}) { return std::make_unique<StubPass<func::FuncOp>>(n, std::move(f)); }
ModulePass_ M(const char* n, std::function<void(ModuleOp)> f = {}) { return std::make_unique<StubPass<ModuleOp>>(n, std::move(f)); }
std::vector<Operation*> Ops(Operation* m) {
  std::vector<Operation*> r;
  m->walk([&](Operation* o) { if (o != m) r.push_back(o); });
  return r;
}
StringRef Name(Operation* o) { return o->getName().getStringRef(); }
Operation* Replace(Operation* o, const char* name, ValueRange operands, ArrayRef<NamedAttribute> attrs) {
  OpBuilder b(o);
  OperationState s(o->getLoc(), name, operands, o->getResultTypes(), attrs);
  Operation* r = b.create(s);
  o->replaceAllUsesWith(r);
  o->erase();
  return r;
}
void InferShapes(ModuleOp m) {
  for (auto f : m.getOps<func::FuncOp>()) {
    if (f.isExternal()) continue;
    for (Operation* o : Ops(f)) {
      StringRef n = Name(o);
      if (n == "func.call" || n == "standin.if") {
        auto callee = m.lookupSymbol<func::FuncOp>(o->getAttrOfType<FlatSymbolRefAttr>(n == "func.call" ? "callee" : "then_branch"));
        o->getResult(0).setType(callee.getFunctionType().getResult(0));
        continue;
      }
      if (!n.starts_with("tf.") && !n.starts_with("standin.") && !n.starts_with("tfl.standin")) continue;
      if (!o->getNumOperands() || o->getNumResults() != 1) continue;
      auto r = dyn_cast<RankedTensorType>(o->getResult(0).getType());
      auto x = dyn_cast<RankedTensorType>(o->getOperand(0).getType());
      if (!r || r.hasStaticShape() || !x) continue;
      SmallVector<int64_t> s(r.getShape());
      const bool select = n.starts_with("tf.Select"), unknown = n == "tf.Transpose" || n == "tf.Shape" || n == "tf.BroadcastTo";
      if (unknown) continue;
      for (unsigned k = 0; k < (select ? 3 : std::min(2u, o->getNumOperands())); ++k) {
        if (k && !select && !(n == "tf.AddV2" || n == "tf.Add" || n == "tf.Sub" || n == "tf.Mul" || n == "tf.Div" || n == "tf.RealDiv" || n == "tf.GreaterEqual" || n == "tf.Less")) continue;
        auto t = dyn_cast<RankedTensorType>(o->getOperand(k).getType());
        if (t && t.getRank() == r.getRank() && ShapedType::isDynamic(s[0]) && t.getDimSize(0) != 1) s[0] = t.getDimSize(0);
      }
      if (ShapedType::isDynamic(s[0])) {
        // every operand of full rank has size one there
        bool one = false, dyn = false;
        for (Value v : o->getOperands()) {
          auto t = dyn_cast<RankedTensorType>(v.getType());
          if (t && t.getRank() == r.getRank()) (ShapedType::isDynamic(t.getDimSize(0)) ? dyn : one) = true;
        }
        if (n == "tf.Conv2D" || n.starts_with("tf.Pad") || n == "tf.MaxPool") dyn = ShapedType::isDynamic(x.getDimSize(0));
        if (one && !dyn) s[0] = 1;
      }
      o->getResult(0).setType(RankedTensorType::get(s, r.getElementType(), r.getEncoding()));
    }
    Operation* ret = f.back().getTerminator();
    f.setFunctionType(FunctionType::get(f.getContext(), f.getFunctionType().getInputs(), SmallVector<Type>(ret->getOperandTypes())));
  }
}
// The nudged 8 bit type of a range.
Type QType(MLIRContext* c, double lo, double hi, bool is_signed) {
  const double scale = (hi - lo) / 255;
  const int64_t zp = (int64_t)fmin(fmax(floor(-lo / scale + 0.5), 0), 255) - (is_signed ? 128 : 0);
  return quant::UniformQuantizedType::get(is_signed ? quant::QuantizationFlags::Signed : 0, IntegerType::get(c, 8), Float32Type::get(c), scale, zp, is_signed ? -128 : 0, is_signed ? 127 : 255);
}
Value QuantDequant(OpBuilder& b, Location loc, Value x, Type q) {
  auto t = cast<ShapedType>(x.getType());
  Type qt = t.clone(q);
  Value v = b.create<TFL::QuantizeOp>(loc, qt, x, TypeAttr::get(qt));
  return b.create<TFL::DequantizeOp>(loc, t, v);
}
void PrepareTF(func::FuncOp f) {
  for (Operation* o : Ops(f)) {
    StringRef n = Name(o);
    OpBuilder b(o);
    if (n == "standin.wrapped" || n == "tf.FakeQuantWithMinMaxArgs") {
      auto at = [&](const char* k) { return cast<FloatAttr>(o->getAttr(k)).getValueAsDouble(); };
      o->getResult(0).replaceAllUsesWith(QuantDequant(b, o->getLoc(), o->getOperand(0), QType(f.getContext(), at("min"), at("max"), false)));
      o->erase();
    } else if (auto c = dyn_cast<TF::Conv2DOp>(o)) {
      // a convolution TFLite has
      // (the filter may already carry the quantization of its values)
      Tensor w;
      Operation* d = c.getFilter().getDefiningOp();
      TFL::QuantizeOp q;
      if (d && Name(d) == "tfl.dequantize") {
        q = dyn_cast_or_null<TFL::QuantizeOp>(d->getOperand(0).getDefiningOp());
        d = q ? q->getOperand(0).getDefiningOp() : nullptr;
      }
      auto ft = dyn_cast<RankedTensorType>(c.getFilter().getType());
      if (c.getDataFormat() != "NHWC" || !d || d->getNumOperands() || !d->getAttr("value") || !ev::FromAttr(d->getAttr("value"), w) || !ft || c.getPadding() == "EXPLICIT") continue;
      const int64_t h = w.shape[0], x = w.shape[1], i = w.shape[2], k = w.shape[3];
      SmallVector<float> t;
      for (int64_t a = 0; a < k; ++a) for (int64_t y = 0; y < h * x * i; ++y) t.push_back((float)w.v[y * k + a]);
      Value filter = b.create<arith::ConstantOp>(o->getLoc(), DenseElementsAttr::get(RankedTensorType::get({k, h, x, i}, ft.getElementType()), ArrayRef<float>(t)));
      if (q) filter = QuantDequant(b, o->getLoc(), filter, cast<quant::QuantizedType>(cast<ShapedType>(q.getType()).getElementType()));
      Value bias = b.create<arith::ConstantOp>(o->getLoc(), DenseElementsAttr::get(RankedTensorType::get({k}, ft.getElementType()), 0.0f));
      auto at = [&](ArrayAttr a, int j) { return b.getI32IntegerAttr((int)cast<IntegerAttr>(a[j]).getInt()); };
      ArrayAttr st = c.getStridesAttr(), di = c.getDilationsAttr();
      Replace(o, "tfl.conv_2d", {c.getInput(), filter, bias},
              {b.getNamedAttr("dilation_h_factor", at(di, 1)), b.getNamedAttr("dilation_w_factor", at(di, 2)), b.getNamedAttr("fused_activation_function", b.getStringAttr("NONE")), b.getNamedAttr("padding", b.getStringAttr(c.getPadding())),
               b.getNamedAttr("stride_h", at(st, 1)), b.getNamedAttr("stride_w", at(st, 2))});
    }
  }
}
void LegalizeTF(func::FuncOp f) {
  for (Operation* o : Ops(f)) {
    OpBuilder b(o);
    StringRef n = Name(o);
    if (!n.starts_with("tf.")) continue;
    const NamedAttribute none = b.getNamedAttr("fused_activation_function", b.getStringAttr("NONE"));
    auto to = [&](const char* name, ArrayRef<NamedAttribute> attrs = {}) { Replace(o, name, o->getOperands(), attrs); };
    if (n == "tf.Const") {
      auto v = dyn_cast_or_null<TypedAttr>(o->getAttr("value"));
      if (v && v.getType() == o->getResult(0).getType()) {
        o->getResult(0).replaceAllUsesWith(b.create<arith::ConstantOp>(o->getLoc(), v).getResult());
        o->erase();
      }
    }
    else if (n == "tf.AddV2" || n == "tf.Add") to("tfl.add", none);
    else if (n == "tf.Sub") to("tfl.sub", none);
    else if (n == "tf.Mul") to("tfl.mul", none);
    else if (n == "tf.Div" || n == "tf.RealDiv") to("tfl.div", none);
    else if (n == "tf.Relu") to("tfl.relu");
    else if (n == "tf.Relu6") to("tfl.relu6");
    else if (n == "tf.GreaterEqual") to("tfl.greater_equal");
    else if (n == "tf.LessEqual") to("tfl.less_equal");
    else if (n == "tf.Greater") to("tfl.greater");
    else if (n == "tf.Less") to("tfl.less");
    else if (n == "tf.LogicalNot") to("tfl.logical_not");
    else if (n == "tf.Pad") to("tfl.pad");
    else if (n == "tf.PadV2") to("tfl.padv2");
    else if (n == "tf.Transpose") to("tfl.transpose");
    else if (n == "tf.Sign") to("tfl.sign");
    else if (n == "tf.SelectV2") to("tfl.select_v2");
    else if (n == "tf.Identity" || n == "tf.StopGradient" || n == "tf.Snapshot") { o->getResult(0).replaceAllUsesWith(o->getOperand(0)); o->erase(); }
    else if (n == "tf.MaxPool") {
      auto at = [&](const char* a, int i) { return b.getI32IntegerAttr((int)cast<IntegerAttr>(cast<ArrayAttr>(o->getAttr(a))[i]).getInt()); };
      to("tfl.max_pool_2d", {none, b.getNamedAttr("padding", o->getAttr("padding")), b.getNamedAttr("stride_h", at("strides", 1)), b.getNamedAttr("stride_w", at("strides", 2)), b.getNamedAttr("filter_height", at("ksize", 1)), b.getNamedAttr("filter_width", at("ksize", 2))});
    }
  }
}
// TFLite's own fusion of activations into the arithmetic before them.
void Optimize(func::FuncOp f) {
  for (Operation* o : Ops(f)) {
    const char* act = Name(o) == "tfl.relu" ? "RELU" : Name(o) == "tfl.relu6" ? "RELU6" : Name(o) == "tfl.relu_n1_to_1" ? "RELU_N1_TO_1" : nullptr;
    if (!act) continue;
    Operation* d = o->getOperand(0).getDefiningOp();
    if (!d || !d->hasOneUse() || d->getName().getDialectNamespace() != "tfl") continue;
    auto a = d->getAttrOfType<StringAttr>("fused_activation_function");
    if (!a || a.getValue() != "NONE") continue;
    d->setAttr("fused_activation_function", StringAttr::get(f.getContext(), act));
    o->getResult(0).replaceAllUsesWith(d->getResult(0));
    o->erase();
  }
}
void ToSigned(func::FuncOp f) {
  for (Operation* o : Ops(f)) {
    auto q = dyn_cast<TFL::QuantizeOp>(o);
    if (!q) continue;
    auto t = cast<ShapedType>(q.getType());
    auto u = dyn_cast<quant::UniformQuantizedType>(t.getElementType());
    if (!u || u.isSigned() || u.getStorageTypeIntegralWidth() != 8) continue;
    Type n = t.clone(quant::UniformQuantizedType::get(quant::QuantizationFlags::Signed, u.getStorageType(), u.getExpressedType(), u.getScale(), u.getZeroPoint() - 128, -128, 127));
    o->getResult(0).setType(n);
    o->setAttr("qtype", TypeAttr::get(n));
  }
}
void DefaultParams(func::FuncOp f, Type q) {
  auto insert = [&](Value v, OpBuilder& b) {
    auto t = dyn_cast<RankedTensorType>(v.getType());
    if (!t || !t.getElementType().isF32()) return;
    for (Operation* u : v.getUsers()) if (isa<TFL::QuantizeOp>(u)) return;
    Type qt = t.clone(q);
    Value x = b.create<TFL::QuantizeOp>(v.getLoc(), qt, v, TypeAttr::get(qt));
    Value d = b.create<TFL::DequantizeOp>(v.getLoc(), t, x);
    v.replaceAllUsesExcept(d, x.getDefiningOp());
  };
  auto ops = Ops(f);
  OpBuilder b(&f.front(), f.front().begin());
  for (Value a : f.getArguments()) insert(a, b);
  for (Operation* o : ops) {
    if (!o->getNumOperands() || o->hasTrait<OpTrait::IsTerminator>() || isa<TFL::DequantizeOp>(o) || !o->getNumResults()) continue;
    // (the values of the input type of a binarized tensor are exact)
    if (Name(o) == "lq.Dequantize" || Name(o) == "lq.Quantize") continue;
    b.setInsertionPointAfter(o);
    for (Value r : o->getResults()) insert(r, b);
  }
}
void PostQuantize(func::FuncOp f, bool adaptors) {
  for (Operation* o : Ops(f)) {
    auto q = dyn_cast<TFL::QuantizeOp>(o);
    if (!q) continue;
    auto d = q.getInput().getDefiningOp<TFL::DequantizeOp>();
    if (d && d.getInput().getType() == q.getType()) {
      o->getResult(0).replaceAllUsesWith(d.getInput());
      o->erase();
      if (d->use_empty()) d->erase();
    }
  }
  if (adaptors) return;
  for (BlockArgument a : f.getArguments()) {
    if (!a.hasOneUse()) continue;
    auto q = dyn_cast<TFL::QuantizeOp>(*a.getUsers().begin());
    if (!q) continue;
    Type t = q.getType();
    q.getResult().replaceAllUsesWith(a);
    q.erase();
    a.setType(t);
  }
  f.setFunctionType(FunctionType::get(f.getContext(), f.front().getArgumentTypes(), f.getFunctionType().getResults()));
}
// The data format TFLite has.
void Layout(func::FuncOp f, const std::string& format) {
  if (format != "NHWC") return;
  for (Operation* o : Ops(f)) {
    auto c = dyn_cast<TF::Conv2DOp>(o);
    if (!c || c.getDataFormat() != "NCHW") continue;
    OpBuilder b(o);
    auto perm = [&](ArrayRef<int32_t> p) { return b.create<arith::ConstantOp>(o->getLoc(), DenseElementsAttr::get(RankedTensorType::get({4}, b.getI32Type()), p)).getResult(); };
    auto shuffled = [&](Type t) {
      auto r = cast<RankedTensorType>(t);
      return RankedTensorType::get({r.getDimSize(0), r.getDimSize(2), r.getDimSize(3), r.getDimSize(1)}, r.getElementType());
    };
    auto attr = [&](ArrayAttr a) { return b.getArrayAttr({a[0], a[2], a[3], a[1]}); };
    Value x = b.create<TF::TransposeOp>(o->getLoc(), shuffled(c.getInput().getType()), c.getInput(), perm({0, 2, 3, 1}));
    OperationState s(o->getLoc(), "tf.Conv2D", {x, c.getFilter()}, {shuffled(c.getType())}, o->getAttrs());
    Operation* n = b.create(s);
    n->setAttr("strides", attr(c.getStridesAttr()));
    n->setAttr("dilations", attr(c.getDilationsAttr()));
    n->setAttr("data_format", b.getStringAttr("NHWC"));
    Value y = b.create<TF::TransposeOp>(o->getLoc(), c.getType(), n->getResult(0), perm({0, 3, 1, 2}));
    o->getResult(0).replaceAllUsesWith(y);
    o->erase();
  }
}
void Freeze(ModuleOp m, const char* read, const std::function<Attribute(StringRef)>& value) {
  for (Operation* o : Ops(m)) {
    if (Name(o) != read) continue;
    auto v = dyn_cast_or_null<TypedAttr>(value(o->getAttrOfType<StringAttr>("name").getValue()));
    if (!v) continue;
    OpBuilder b(o);
    o->getResult(0).replaceAllUsesWith(b.create<arith::ConstantOp>(o->getLoc(), v).getResult());
    o->erase();
  }
}
Operation* Global(ModuleOp m, StringRef name) {
  for (Operation& o : *m.getBody())
    if (Name(&o) == "tf_saved_model.global_tensor" && o.getAttrOfType<StringAttr>("name").getValue() == name) return &o;
  return nullptr;
}
OwningOpRef<ModuleOp> Load(const std::string& text, MLIRContext* c) {
  DialectRegistry reg;
  ev::Register(reg);
  c->disableMultithreading();
  c->appendDialectRegistry(reg);
  c->allowUnregisteredDialects();
  c->loadAllAvailableDialects();
  Setup(*c);
  auto m = parseSourceString<ModuleOp>(text, ParserConfig(c));
  if (!m) {
    fprintf(stderr, "harness: cannot parse\n%s\n", text.c_str());
    exit(77);
  }
  return m;
}
std::string LocName(Location l) {
  if (auto n = dyn_cast<NameLoc>(l)) return n.getName().str();
  if (auto f = dyn_cast<FusedLoc>(l))
    for (Location x : f.getLocations()) {
      auto s = LocName(x);
      if (!s.empty()) return s;
    }
  return "";
}
}  // namespace
void Setup(MLIRContext& c) {
  standin::ArithConstants = true;
  Dialect* d = c.getOrLoadDialect("tf");
  if (!d->getRegisteredInterface<FoldConstants>()) d->addInterface(std::make_unique<FoldConstants>(d));
  c.getOrLoadDialect<StandinDialect>();
  for (const char* n : {"tf", "tfl", "quantfork", "standin"})
    if (Dialect* x = c.getOrLoadDialect(n)) if (!x->getRegisteredInterface<Inline>()) x->addInterface(std::make_unique<Inline>(x));
}
}  // namespace world
using namespace world;

// --------------------------------------------------------------------- import
namespace tensorflow {
Status LoadProtoFromBuffer(const std::string& s, GraphDef* g) {
  if (W.Step("LoadProtoFromBuffer")) return absl::InvalidArgumentError("injected");
  g->text = s;
  return absl::OkStatus();
}
Status ParseInputArrayInfo(const std::vector<std::string>& names, const std::vector<std::string>& types, const std::vector<std::optional<std::vector<int>>>& shapes, GraphImportConfig::Inputs* in) {
  if (W.Step("ParseInputArrayInfo")) return absl::InvalidArgumentError("injected");
  in->names = names, in->types = types, in->shapes = shapes;
  return absl::OkStatus();
}
Status ParseOutputArrayInfo(const std::vector<std::string>& names, std::vector<std::string>* out) {
  if (W.Step("ParseOutputArrayInfo")) return absl::InvalidArgumentError("injected");
  *out = names;
  return absl::OkStatus();
}
static void Record(const GraphImportConfig& s) {
  W.r.prune = s.prune_unused_nodes, W.r.legacy_fed = s.convert_legacy_fed_inputs, W.r.graph_as_function = s.graph_as_function, W.r.upgrade = s.upgrade_legacy;
  W.r.in_names = s.inputs.names, W.r.in_types = s.inputs.types, W.r.in_shapes = s.inputs.shapes, W.r.outputs = s.outputs;
}
StatusOr<OwningOpRef<ModuleOp>> ConvertGraphdefToMlir(const GraphDef& g, const GraphDebugInfo&, const GraphImportConfig& specs, MLIRContext* c) {
  if (W.Step("ConvertGraphdefToMlir")) return absl::InternalError("injected");
  W.r.graphdef = g.text, W.r.import_kind = "graphdef";
  Record(specs);
  return Load(W.text, c);
}
StatusOr<OwningOpRef<ModuleOp>> ImportSavedModel(const std::string& dir, const int version, const std::unordered_set<std::string>& tags, absl::Span<const std::string>, absl::Span<std::string> exported, const GraphImportConfig& specs,
                                                 bool lift, MLIRContext* c, std::unique_ptr<SavedModelBundle>* bundle) {
  if (W.Step("ImportSavedModel")) return absl::InternalError("injected");
  W.r.import_kind = "saved model", W.r.dir = dir, W.r.version = version, W.r.tags = {tags.begin(), tags.end()}, W.r.exported = {exported.begin(), exported.end()}, W.r.lift = lift;
  Record(specs);
  if (!W.bundle) bundle->reset();
  return Load(W.text, c);
}
namespace internal {
Status RegisterAllCustomOps(const toco::TocoFlags&) {
  if (W.Step("RegisterAllCustomOps")) return absl::InternalError("injected");
  return absl::OkStatus();
}
}  // namespace internal
}  // namespace tensorflow

// --------------------------------------------------------------------- export
StringRef OpOrArgNameMapper::GetUniqueName(OpOrVal v) {
  std::string n = GetName(v);
  const int k = used_[n]++;
  keep_.push_back(std::make_unique<std::string>(k ? n + std::to_string(k) : n));
  return *keep_.back();
}
std::string OpOrArgLocNameMapper::GetName(OpOrVal v) {
  std::string n = LocName(v.o_ ? v.o_->getLoc() : v.v_.getLoc());
  return n.empty() ? (v.o_ ? Name(v.o_).str() : "arg") : n;
}
namespace tflite {
bool MlirToFlatBufferTranslateFunction(ModuleOp m, const FlatbufferExportOptions& o, std::string* result, bool stablehlo) {
  // (what the exporter has written when it fails)
  *result = "incomplete";
  if (W.Step("MlirToFlatBufferTranslateFunction")) {
    if (!W.silent) m.emitError("injected failure of the export");
    return false;
  }
  W.r.select_ops = o.toco_flags.select, W.r.custom_ops = o.toco_flags.custom, W.r.stablehlo = stablehlo;
  W.r.export_tags = {o.saved_model_tags.begin(), o.saved_model_tags.end()};
  W.r.module.clear();
  llvm::raw_string_ostream os(W.r.module);
  m.print(os);
  os.flush();
  W.r.names.clear();
  if (auto* p = o.op_or_arg_name_mapper)
    m.walk([&](Operation* x) {
      if (x == m.getOperation() || isa<func::FuncOp>(x) || x->getNumOperands() == 0 || x->hasTrait<OpTrait::IsTerminator>()) return;
      W.r.names.push_back(p->GetUniqueName(x).str());
    });
  if (W.invalid) {
    // the translation left the module itself broken (an attribute no dialect
    // owns); operators within it are verified after each pass instead
    m->setAttr("broken", UnitAttr::get(m.getContext()));
  }
  *result = "TFL3 model #" + std::to_string(llvm::hash_value(StringRef(W.r.module)));
  return true;
}
}  // namespace tflite

// --------------------------------------------------------------------- passes
namespace mlir {
namespace TFL {
std::vector<std::string> AllTfFakeQuantOps() { return {"tf.FakeQuantWithMinMaxArgs", "tf.FakeQuantWithMinMaxVars", "tf.FakeQuantWithMinMaxVarsPerChannel"}; }
FuncPass CreateRaiseCustomOpsPass(const std::vector<std::string>& t) {
  std::set<std::string> s(t.begin(), t.end());
  return F("RaiseCustomOps", [s](func::FuncOp f) {
    for (Operation* o : Ops(f)) if (s.count(Name(o).str())) Replace(o, "standin.wrapped", o->getOperands(), o->getAttrs());
  });
}
ModulePass_ CreatePrepareCompositeFunctionsPass() { return M("PrepareCompositeFunctions"); }
ModulePass_ CreateLowerStaticTensorListPass(bool, bool, bool) { return M("LowerStaticTensorList"); }
ModulePass_ CreateLegalizeTFWhilePass() { return M("LegalizeTFWhile"); }
FuncPass CreateReduceWhileOperandsPass() { return F("ReduceWhileOperands"); }
FuncPass CreatePrepareTFPass(bool, bool, bool) { return F("PrepareTF", PrepareTF); }
FuncPass CreateLegalizeTFPass(bool, bool) { return F("LegalizeTF", LegalizeTF); }
ModulePass_ CreateAnalyzeVariablesPass() { return M("AnalyzeVariables"); }
ModulePass_ CreateLegalizeVariablesPass() { return M("LegalizeVariables"); }
ModulePass_ CreateLegalizeHashTablesPass() { return M("LegalizeHashTables"); }
FuncPass CreateOptimizePass(bool, bool) { return F("Optimize", Optimize); }
ModulePass_ CreateOptimizeFunctionalOpsPass() { return M("OptimizeFunctionalOps"); }
FuncPass CreatePrepareQuantizePass(const quant::QuantizationSpecs& s) {
  return F("PrepareQuantize", [s](func::FuncOp f) {
    W.r.quantized = true, W.r.input_ranges = s.input_ranges, W.r.ptq = s.post_training_quantization, W.r.is_signed = s.IsSignedInferenceType(), W.r.qint8 = s.inference_type == tensorflow::DT_QINT8;
    if (s.IsSignedInferenceType()) ToSigned(f);
  });
}
FuncPass CreateDefaultQuantParamsPass(double lo, double hi, bool is_signed) {
  return F("DefaultQuantParams", [=](func::FuncOp f) {
    W.r.defaults.push_back({lo, hi});
    DefaultParams(f, QType(f.getContext(), lo, hi, is_signed));
  });
}
FuncPass CreateQuantizePass() { return F("Quantize"); }
FuncPass CreatePostQuantizePass(bool adaptors) { return F("PostQuantize", [=](func::FuncOp f) { PostQuantize(f, adaptors); }); }
FuncPass CreatePostQuantizePass() { return CreatePostQuantizePass(true); }
FuncPass CreatePostQuantizeRemoveQDQPass() { return F("PostQuantizeRemoveQDQ"); }
FuncPass CreateOptimizeOpOrderPass() { return F("OptimizeOpOrder"); }
FuncPass CreateSplitMergedOperandsPass() {
  return F("SplitMergedOperands", [](func::FuncOp f) {
    // the states of an operator must not share a tensor
    for (Operation* o : Ops(f)) {
      if (Name(o) != "tfl.standin_stateful") continue;
      for (unsigned i = 1; i < o->getNumOperands(); ++i) {
        Operation* d = o->getOperand(i).getDefiningOp();
        if (!d || d->hasOneUse()) continue;
        OpBuilder b(d);
        o->setOperand(i, b.clone(*d)->getResult(0));
      }
    }
  });
}
ModulePass_ CreateInsertCallOnceOpFromSessionInitializerPass() { return M("InsertCallOnceOpFromSessionInitializer"); }
ModulePass_ CreateUnfoldLargeSplatConstantPass() { return M("UnfoldLargeSplatConstant"); }
ModulePass_ CreateWhileOutlinePass() { return M("WhileOutline"); }
FuncPass CreateRuntimeVerifyPass() {
  return F("RuntimeVerify", [](func::FuncOp f) {
    for (Operation* o : Ops(f)) if (Name(o) == "tfl.standin_unsupported") W.unsupported = true;
  });
}
}  // namespace TFL
namespace TF {
void CreateTFStandardPipeline(OpPassManager& pm, const StandardPipelineOptions&) {
  pm.addPass(M("TFStandardPipeline"));
  pm.addPass(createCanonicalizerPass());
}
void CreateLayoutOptimizationPipeline(OpPassManager& pm, const LayoutOptimizationPipelineOptions& o) {
  const std::string format = o.force_data_format;
  pm.addPass(F("LayoutOptimization", [=](func::FuncOp f) { Layout(f, format); }));
}
FuncPass CreateDeviceIndexSelectorPass() { return F("DeviceIndexSelector"); }
ModulePass_ CreateTFShapeInferencePass(ArrayRef<ArrayRef<int64_t>>) { return M("TFShapeInference", InferShapes); }
ModulePass_ CreateTFFunctionalControlFlowToRegions(bool) { return M("TFFunctionalControlFlowToRegions"); }
ModulePass_ CreateTFRegionControlFlowToFunctional() { return M("TFRegionControlFlowToFunctional"); }
FuncPass CreateInitTextFileToImportPass(std::string) { return F("InitTextFileToImport"); }
}  // namespace TF
namespace TFDevice {
FuncPass CreateDecomposeResourceOpsPass() { return F("DecomposeResourceOps"); }
}
namespace tf_saved_model {
ModulePass_ CreateOptimizeGlobalTensorsPass() {
  return M("OptimizeGlobalTensors", [](ModuleOp m) {
    for (Operation* o : Ops(m)) {
      if (Name(o) != "tf_saved_model.global_tensor") continue;
      bool written = false;
      m.walk([&](Operation* x) { written |= Name(x) == "tf.AssignGlobal" && x->getAttr("name") == o->getAttr("name"); });
      if (!written) o->removeAttr("is_mutable");
    }
  });
}
ModulePass_ CreateFreezeGlobalTensorsPass(bool) {
  return M("FreezeGlobalTensors", [](ModuleOp m) {
    Freeze(m, "tf.ReadGlobal", [&](StringRef n) {
      Operation* g = Global(m, n);
      return g && !g->hasAttr("is_mutable") ? g->getAttr("value") : Attribute();
    });
    for (Operation* o : Ops(m)) if (Name(o) == "tf_saved_model.global_tensor" && !o->hasAttr("is_mutable")) o->erase();
  });
}
ModulePass_ CreateFreezeAssetsPass(std::string dir) {
  return M("FreezeAssets", [dir](ModuleOp) { W.r.assets = true, W.r.asset_dir = dir; });
}
LogicalResult FreezeVariables(ModuleOp m, tensorflow::Session* s) {
  if (W.Step("FreezeVariables")) {
    if (!W.silent) m.emitError("injected failure of FreezeVariables");
    return failure();
  }
  W.r.froze = true, W.r.froze_session = s != nullptr;
  if (!s) return success();
  auto vars = m->getAttrOfType<DictionaryAttr>("standin.session");
  Freeze(m, "tf.ReadVariable", [&](StringRef n) { return vars ? vars.get(n) : Attribute(); });
  m->removeAttr("standin.session");
  return success();
}
}  // namespace tf_saved_model
namespace odml {
std::unique_ptr<OperationPass<ModuleOp>> createPrintOpStatsPass(const std::vector<std::string>&) { return M("PrintOpStats"); }
}  // namespace odml
}  // namespace mlir
