// The stand-in TensorFlow and TFLite dialects: construction, folding and
// printing.  Folding follows TensorFlow's: arithmetic on constant float
// operands without an activation, with broadcasting.
#include "standin/common.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"

#include "standin/tf_dialect.cc.inc"
#include "standin/tfl_dialect.cc.inc"
using namespace mlir;

namespace standin {
bool ArithConstants = false;
Type BroadcastType(Type a, Type b) {
  auto x = dyn_cast<RankedTensorType>(a), y = dyn_cast<RankedTensorType>(b);
  if (!x || !y) return UnrankedTensorType::get(cast<ShapedType>(a).getElementType());
  if (x.getRank() < y.getRank()) {
    auto r = dyn_cast_or_null<RankedTensorType>(BroadcastType(b, a));
    return r ? RankedTensorType::get(r.getShape(), x.getElementType()) : Type();
  }
  SmallVector<int64_t> s(x.getShape());
  const int off = x.getRank() - y.getRank();
  for (int i = 0; i < y.getRank(); ++i) {
    int64_t& d = s[off + i];
    const int64_t e = y.getDimSize(i);
    if (d == e || e == 1) continue;
    if (d == 1) d = e;
    else if (ShapedType::isDynamic(d)) d = e;
    else if (!ShapedType::isDynamic(e)) return Type();
  }
  return RankedTensorType::get(s, x.getElementType());
}
Type WithElement(Type t, Type element) {
  if (!t) return Type();
  return cast<ShapedType>(t).clone(element);
}
Type TransposeType(Value x, Value perm) {
  auto t = dyn_cast<RankedTensorType>(x.getType());
  DenseIntElementsAttr p;
  if (!t || !matchPattern(perm, m_Constant(&p))) return UnrankedTensorType::get(cast<ShapedType>(x.getType()).getElementType());
  SmallVector<int64_t> s;
  for (APInt i : p.getValues<APInt>()) s.push_back(t.getDimSize(i.getSExtValue()));
  return RankedTensorType::get(s, t.getElementType());
}
OpFoldResult FoldBinary(Type resultType, StringRef act, Attribute a, Attribute b, float (*f)(float, float)) {
  auto x = dyn_cast_or_null<DenseElementsAttr>(a), y = dyn_cast_or_null<DenseElementsAttr>(b);
  auto t = dyn_cast<RankedTensorType>(resultType);
  if (act != "NONE" || !x || !y || !t || !t.hasStaticShape() || !t.getElementType().isF32() || !x.getElementType().isF32() || !y.getElementType().isF32()) return {};
  SmallVector<float> xs(x.getValues<float>()), ys(y.getValues<float>()), out;
  auto xt = cast<RankedTensorType>(x.getType()), yt = cast<RankedTensorType>(y.getType());
  const int r = t.getRank();
  if (xt.getRank() > r || yt.getRank() > r) return {};
  SmallVector<int64_t> ix(r, 0);
  auto at = [&](RankedTensorType s) {
    int64_t o = 0;
    for (int i = 0; i < s.getRank(); ++i) {
      const int64_t d = s.getDimSize(i);
      o = o * d + (d == 1 ? 0 : ix[r - s.getRank() + i]);
    }
    return o;
  };
  for (int64_t n = t.getNumElements(); n-- > 0;) {
    out.push_back(f(xs[at(xt)], ys[at(yt)]));
    for (int i = r - 1; i >= 0 && ++ix[i] == t.getDimSize(i); --i) ix[i] = 0;
  }
  return DenseElementsAttr::get(t, ArrayRef<float>(out));
}
}  // namespace standin
using standin::FoldBinary;

namespace mlir {
namespace TFL {
namespace detail {
struct ConstBytesStorage : public AttributeStorage {
  using KeyTy = StringRef;
  explicit ConstBytesStorage(StringRef v) : value(v) {}
  bool operator==(const KeyTy& k) const { return value == k; }
  static llvm::hash_code hashKey(const KeyTy& k) { return llvm::hash_value(k); }
  static ConstBytesStorage* construct(AttributeStorageAllocator& a, const KeyTy& k) { return new (a.allocate<ConstBytesStorage>()) ConstBytesStorage(a.copyInto(k)); }
  StringRef value;
};
}  // namespace detail
ConstBytesAttr ConstBytesAttr::get(MLIRContext* context, StringRef value) { return Base::get(context, value); }
StringRef ConstBytesAttr::getValue() const { return getImpl()->value; }

void TensorFlowLiteDialect::initialize() {
  addOperations<
#define GET_OP_LIST
#include "standin/tfl.cc.inc"
      >();
  addAttributes<ConstBytesAttr>();
  allowUnknownOperations();
  allowUnknownTypes();
}
Attribute TensorFlowLiteDialect::parseAttribute(DialectAsmParser& parser, Type) const {
  StringRef kw;
  std::string s, bytes;
  if (parser.parseKeyword(&kw)) return {};
  if (kw != "const_bytes") return parser.emitError(parser.getNameLoc(), "unknown attribute"), Attribute();
  if (parser.parseColon() || parser.parseString(&s)) return {};
  if (StringRef(s).starts_with("0x")) {
    for (size_t i = 2; i + 1 < s.size(); i += 2) bytes.push_back((char)((llvm::hexDigitValue(s[i]) << 4) | llvm::hexDigitValue(s[i + 1])));
  }
  return ConstBytesAttr::get(getContext(), bytes);
}
void TensorFlowLiteDialect::printAttribute(Attribute attr, DialectAsmPrinter& os) const {
  os << "const_bytes : \"0x";
  for (unsigned char c : cast<ConstBytesAttr>(attr).getValue()) os << "0123456789ABCDEF"[c >> 4] << "0123456789ABCDEF"[c & 15];
  os << "\"";
}
Operation* TensorFlowLiteDialect::materializeConstant(OpBuilder& builder, Attribute value, Type type, Location loc) {
  if (isa<NoneType>(type)) return isa<UnitAttr>(value) ? builder.create<NoValueOp>(loc, type, cast<UnitAttr>(value)) : nullptr;
  if (arith::ConstantOp::isBuildableWith(value, type)) return builder.create<arith::ConstantOp>(loc, type, cast<TypedAttr>(value));
  return nullptr;
}

OpFoldResult AddOp::fold(FoldAdaptor a) { return FoldBinary(getType(), getFusedActivationFunction(), a.getOperands()[0], a.getOperands()[1], [](float x, float y) { return x + y; }); }
OpFoldResult SubOp::fold(FoldAdaptor a) { return FoldBinary(getType(), getFusedActivationFunction(), a.getOperands()[0], a.getOperands()[1], [](float x, float y) { return x - y; }); }
OpFoldResult MulOp::fold(FoldAdaptor a) { return FoldBinary(getType(), getFusedActivationFunction(), a.getOperands()[0], a.getOperands()[1], [](float x, float y) { return x * y; }); }
OpFoldResult DivOp::fold(FoldAdaptor a) { return FoldBinary(getType(), getFusedActivationFunction(), a.getOperands()[0], a.getOperands()[1], [](float x, float y) { return x / y; }); }
OpFoldResult NoValueOp::fold(FoldAdaptor) { return getValueAttr(); }
}  // namespace TFL

namespace TF {
void TensorFlowDialect::initialize() {
  addOperations<
#define GET_OP_LIST
#include "standin/tf.cc.inc"
      >();
  allowUnknownOperations();
  allowUnknownTypes();
}
Operation* TensorFlowDialect::materializeConstant(OpBuilder& builder, Attribute value, Type type, Location loc) {
  if (standin::ArithConstants && arith::ConstantOp::isBuildableWith(value, type)) return builder.create<arith::ConstantOp>(loc, type, cast<TypedAttr>(value));
  if (auto e = dyn_cast<ElementsAttr>(value)) return builder.create<ConstOp>(loc, type, e);
  return nullptr;
}
OpFoldResult ConstOp::fold(FoldAdaptor) { return getValueAttr(); }
// x / 1 is x.
OpFoldResult DivOp::fold(FoldAdaptor a) {
  auto y = dyn_cast_or_null<DenseElementsAttr>(a.getOperands()[1]);
  if (!y || !y.getElementType().isF32() || getX().getType() != getType()) return {};
  for (float f : y.getValues<float>())
    if (f != 1.0f) return {};
  return getX();
}
// A broadcast to the type it already has is the operand.
OpFoldResult BroadcastToOp::fold(FoldAdaptor) {
  auto in = dyn_cast<RankedTensorType>(getInput().getType());
  if (in && in.hasStaticShape() && in == getType()) return getInput();
  return {};
}
OpFoldResult ShapeOp::fold(FoldAdaptor) {
  auto in = dyn_cast<RankedTensorType>(getInput().getType());
  auto out = cast<RankedTensorType>(getType());
  if (!in || !in.hasStaticShape()) return {};
  SmallVector<Attribute> d;
  for (int64_t i : in.getShape()) d.push_back(IntegerAttr::get(out.getElementType(), i));
  return DenseElementsAttr::get(RankedTensorType::get({in.getRank()}, out.getElementType()), d);
}
}  // namespace TF
}  // namespace mlir
MLIR_DEFINE_EXPLICIT_TYPE_ID(::mlir::TFL::ConstBytesAttr)
#define GET_OP_CLASSES
#include "standin/tf.cc.inc"
#define GET_OP_CLASSES
#include "standin/tfl.cc.inc"
