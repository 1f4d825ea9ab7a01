// Drives ElementsAttrBuilder: a list of constants, each command appends the
// results of one operation; every constant is read through all its views.
#include "hx.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttributeStorage.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposablePool.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp"
#include "src/Dialect/ONNX/ElementsAttr/WideNum.hpp"
#include "src/Support/TypeUtilities.hpp"
#include "mlir/AsmParser/AsmParser.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinTypes.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/DialectImplementation.h"
#include "mlir/IR/MLIRContext.h"
#include <cmath>
#include <limits>
#include <memory>

using namespace mlir;
using namespace onnx_mlir;

struct TstDialect : public Dialect {
  explicit TstDialect(MLIRContext *c) : Dialect(getDialectNamespace(), c, TypeID::get<TstDialect>()) {
    addAttributes<DisposableElementsAttr>();
    addInterface<DisposablePool>(c);
  }
  static llvm::StringRef getDialectNamespace() { return "tst"; }
  Attribute parseAttribute(DialectAsmParser &p, Type type) const override {
    StringRef tag;
    if (p.parseKeyword(&tag) || tag != DisposableElementsAttr::getMnemonic()) return {};
    auto st = mlir::cast<ShapedType>(type);
    if (auto mb = DisposableElementsAttr::parse(p, st))
      return ElementsAttrBuilder(*DisposablePool::get<TstDialect>(getContext())).fromMemoryBuffer(st, std::move(mb));
    return {};
  }
  void printAttribute(Attribute a, DialectAsmPrinter &p) const override {
    if (auto e = mlir::dyn_cast<DisposableElementsAttr>(a)) e.printWithoutType(p);
  }
};
MLIR_DECLARE_EXPLICIT_TYPE_ID(TstDialect)
MLIR_DEFINE_EXPLICIT_TYPE_ID(TstDialect)

enum : int64_t { NANC = 2000000001, INFC, NINFC, NEGZ, ODD,
  F32MAX = 2000000011, F32MIN, BF16MAX, BF16MIN, F64MAX, F64MIN,
  I64MAX = 2000000020, I64MIN, U64MAX, U32MAX, I32MAX, I32MIN };
static const double BFM = std::ldexp(255.0, 120);

static int64_t codeF(double d) {
  if (std::isnan(d)) return NANC;
  if (std::isinf(d)) return d > 0 ? INFC : NINFC;
  if (d == 0) return std::signbit(d) ? NEGZ : 0;
  if (d == (double)std::numeric_limits<float>::max()) return F32MAX;
  if (d == -(double)std::numeric_limits<float>::max()) return F32MIN;
  if (d == BFM) return BF16MAX;
  if (d == -BFM) return BF16MIN;
  if (d == std::numeric_limits<double>::max()) return F64MAX;
  if (d == -std::numeric_limits<double>::max()) return F64MIN;
  double s = d * 4;
  if (s != std::floor(s) || std::fabs(s) > 1.9e9) return ODD;
  return (int64_t)s;
}
static double valF(int64_t c) {
  switch (c) {
  case NANC: return std::nan("");
  case INFC: return INFINITY;
  case NINFC: return -INFINITY;
  case NEGZ: return -0.0;
  case F32MAX: return std::numeric_limits<float>::max();
  case F32MIN: return -std::numeric_limits<float>::max();
  case BF16MAX: return BFM;
  case BF16MIN: return -BFM;
  case F64MAX: return std::numeric_limits<double>::max();
  case F64MIN: return -std::numeric_limits<double>::max();
  }
  return c / 4.0;
}
static int64_t codeS(int64_t v) {
  if (v == std::numeric_limits<int64_t>::max()) return I64MAX;
  if (v == std::numeric_limits<int64_t>::min()) return I64MIN;
  if (v == 2147483647) return I32MAX;
  if (v == -2147483648LL) return I32MIN;
  return std::llabs(v) < 1900000000 ? v : ODD;
}
static int64_t codeU(uint64_t v) {
  if (v == std::numeric_limits<uint64_t>::max()) return U64MAX;
  if (v == 4294967295u) return U32MAX;
  if (v == 0x7fffffffffffffffull) return I64MAX;
  return v < 1900000000u ? (int64_t)v : ODD;
}
static int64_t valS(int64_t c) {
  return c == I64MAX ? std::numeric_limits<int64_t>::max() : c == I64MIN ? std::numeric_limits<int64_t>::min()
       : c == I32MAX ? 2147483647 : c == I32MIN ? -2147483648LL : c;
}
static uint64_t valU(int64_t c) {
  return c == U64MAX ? ~0ull : c == U32MAX ? 4294967295u : c == I64MAX ? 0x7fffffffffffffffull : (uint64_t)c;
}
static bool isU(Type t) { return t.isInteger(1) || t.isUnsignedInteger(); }
static int64_t codeW(Type t, WideNum n) { return mlir::isa<FloatType>(t) ? codeF(n.dbl) : isU(t) ? codeU(n.u64) : codeS(n.i64); }
static WideNum wide(Type t, int64_t c) {
  return mlir::isa<FloatType>(t) ? WideNum::widen<BType::DOUBLE>(valF(c)) : isU(t) ? WideNum::widen<BType::UINT64>(valU(c)) : WideNum::widen<BType::INT64>(valS(c));
}
static int64_t codeAP(Type t, const APInt &i) { return isU(t) ? codeU(i.getZExtValue()) : codeS(i.getSExtValue()); }
static int64_t codeAP(Type, const APFloat &f) { return codeF(f.convertToDouble()); }
static APInt apInt(Type t, int64_t c) { return isU(t) ? APInt(t.getIntOrFloatBitWidth(), valU(c)) : APInt(t.getIntOrFloatBitWidth(), valS(c), true); }
static APFloat apFloat(Type t, int64_t c) {
  APFloat f(valF(c)); bool lost;
  f.convert(mlir::cast<FloatType>(t).getFloatSemantics(), APFloat::rmNearestTiesToEven, &lost);
  return f;
}

static MLIRContext *ctx; static DisposablePool *pool; static std::unique_ptr<ElementsAttrBuilder> B;
static std::vector<ElementsAttr> L;

static Type ty(const std::string &s) {
  if (s == "f64") return Float64Type::get(ctx);
  if (s == "f32") return Float32Type::get(ctx);
  if (s == "f16") return Float16Type::get(ctx);
  if (s == "bf16") return BFloat16Type::get(ctx);
  if (s == "e4m3fn") return Float8E4M3FNType::get(ctx);
  if (s == "e4m3fnuz") return Float8E4M3FNUZType::get(ctx);
  if (s == "e5m2") return Float8E5M2Type::get(ctx);
  if (s == "e5m2fnuz") return Float8E5M2FNUZType::get(ctx);
  if (s[0] == 'u') return IntegerType::get(ctx, atoi(s.c_str() + 1), IntegerType::Unsigned);
  return IntegerType::get(ctx, atoi(s.c_str() + 1));
}
static std::string tyName(Type t) {
  if (t.isF64()) return "f64"; if (t.isF32()) return "f32"; if (t.isF16()) return "f16"; if (t.isBF16()) return "bf16";
  if (mlir::isa<Float8E4M3FNType>(t)) return "e4m3fn"; if (mlir::isa<Float8E4M3FNUZType>(t)) return "e4m3fnuz";
  if (mlir::isa<Float8E5M2Type>(t)) return "e5m2"; if (mlir::isa<Float8E5M2FNUZType>(t)) return "e5m2fnuz";
  return (t.isUnsignedInteger() ? "u" : "i") + std::to_string(t.getIntOrFloatBitWidth());
}
using V = std::vector<int64_t>;
static V byIter(ElementsAttr e) {
  V v; Type t = e.getElementType();
  if (mlir::isa<FloatType>(t)) for (APFloat f : e.getValues<APFloat>()) v.push_back(codeAP(t, f));
  else for (APInt i : e.getValues<APInt>()) v.push_back(codeAP(t, i));
  return v;
}
static V byAttr(ElementsAttr e) {
  V v; Type t = e.getElementType();
  for (Attribute a : e.getValues<Attribute>()) {
    if (auto f = mlir::dyn_cast<FloatAttr>(a)) v.push_back(f.getType() == t ? codeAP(t, f.getValue()) : ODD);
    else if (auto i = mlir::dyn_cast<IntegerAttr>(a)) v.push_back(i.getType() == t ? codeAP(t, i.getValue()) : ODD);
    else v.push_back(ODD);
  }
  return v;
}
static V byIndex(ElementsAttr e) { // random access, last to first
  int64_t n = e.getNumElements(); V v(n); Type t = e.getElementType();
  if (mlir::isa<FloatType>(t)) { auto r = e.getValues<APFloat>(); for (int64_t k = n - 1; k >= 0; --k) v[k] = codeAP(t, r[k]); }
  else { auto r = e.getValues<APInt>(); for (int64_t k = n - 1; k >= 0; --k) v[k] = codeAP(t, r[k]); }
  return v;
}
static V byWide(ElementsAttr e) { V v; auto a = getElementsWideNums(e); for (WideNum n : a.get()) v.push_back(codeW(e.getElementType(), n)); return v; }
static V byReadWide(ElementsAttr e) {
  std::vector<WideNum> d(e.getNumElements()); readElementsWideNums(e, d);
  V v; for (WideNum n : d) v.push_back(codeW(e.getElementType(), n)); return v;
}
template <class X> static int64_t codeX(Type t, X x) {
  if constexpr (std::is_same_v<X, bool>) return x;
  else if constexpr (std::is_integral_v<X>) return std::is_signed_v<X> ? codeS((int64_t)x) : codeU((uint64_t)x);
  else return codeF((double)(float)x == (double)x ? (double)(float)x : (double)x);
}
static V byArray(ElementsAttr e) {
  Type t = e.getElementType();
  return dispatchByBType(btypeOfMlirType(t), [&](auto bt) -> V {
    using X = CppType<bt>; V v;
    // dense constants only offer the C++ arithmetic types, and no splat value without elements
    if ((!std::is_arithmetic_v<X> || e.empty()) && !mlir::isa<DisposableElementsAttr>(e)) return byIter(e);
    auto a = getElementsArray<X>(e);
    for (const X &x : a.get()) v.push_back(codeX<X>(t, x));
    return v;
  });
}
static V byReadArray(ElementsAttr e) { // typed array of a disposable constant
  auto q = mlir::dyn_cast<DisposableElementsAttr>(e);
  if (!q) return byArray(e);
  Type t = e.getElementType();
  return dispatchByBType(btypeOfMlirType(t), [&](auto bt) -> V {
    using X = CppType<bt>; V v; auto a = q.getArray<X>();
    for (const X &x : a.get()) v.push_back(codeX<X>(t, x));
    return v;
  });
}
static V byRaw(DisposableElementsAttr e) {
  Type t = e.getElementType(); auto a = e.getRawBytes();
  return dispatchByBType(btypeOfMlirType(t), [&](auto bt) -> V {
    using X = CppType<bt>; V v;
    for (const X &x : castArrayRef<X>(a.get())) v.push_back(codeX<X>(t, x));
    return v;
  });
}
static V byPrint(ElementsAttr e) {
  std::string s; llvm::raw_string_ostream os(s); mlir::Attribute(e).print(os);
  auto a = mlir::parseAttribute(s, ctx);
  auto p = a ? mlir::dyn_cast<ElementsAttr>(a) : ElementsAttr();
  if (!p || p.getShapedType() != e.getShapedType()) return {ODD, ODD, ODD};
  return byIter(p);
}
static std::string views(ElementsAttr e, bool full) {
  std::vector<V> vs; std::vector<std::string> names; std::string nm;
  auto add = [&](const V &v) { if (std::find(vs.begin(), vs.end(), v) == vs.end()) vs.push_back(v); };
  add(byIter(e));
  if (full) {
    add(byAttr(e)); add(byIndex(e)); add(byWide(e)); add(byReadWide(e)); add(byArray(e)); add(byReadArray(e));
    auto d = ElementsAttrBuilder::toDenseElementsAttr(e);
    if (d.getType() != e.getShapedType()) add({ODD});
    add(byIter(d)); add(byIndex(d));
    if (auto q = mlir::dyn_cast<DisposableElementsAttr>(e)) add(byRaw(q));
    if (e.getNumElements() <= 64) add(byPrint(e));
    if (e.isSplat() && e.getNumElements() > 0) {
      Type t = e.getElementType(); int64_t c = mlir::isa<FloatType>(t) ? codeAP(t, e.getSplatValue<APFloat>()) : codeAP(t, e.getSplatValue<APInt>());
      add(V(e.getNumElements(), c));
      add(V(e.getNumElements(), codeW(t, getElementsSplatWideNum(e))));
    }
  }
  std::string o = "[";
  for (size_t k = 0; k < vs.size(); ++k) { if (k) o += ","; o += hx::jarr(vs[k]); }
  return o + "]";
}
static std::string desc(ElementsAttr e) {
  return "{\"ty\":" + hx::jstr(tyName(e.getElementType())) + ",\"sh\":" + hx::jarr(e.getShapedType().getShape()) + ",\"views\":" + views(e, true) + "}";
}
template <class T> static std::vector<T> iv(const std::string &s) { auto v = hx::ints(s); return std::vector<T>(v.begin(), v.end()); }

// element functions on wide numbers, by wide class
#define UN(name, EXPR) \
  template <class X> static WideNum u_##name(WideNum n) { X x = n.narrow<toBType<X>>(); return WideNum::widen<toBType<X>>((X)(EXPR)); }
UN(neg, -x) UN(inc, x + 1) UN(dbl, x + x) UN(abs, x < 0 ? -x : x) UN(relu, x < 0 ? 0 : x)
template <class X> static WideNum u_pos(WideNum n) { return WideNum::widen<BType::BOOL>(n.narrow<toBType<X>>() > 0); }
static WideNum u_not(WideNum n) { return WideNum::widen<BType::BOOL>(!n.narrow<BType::BOOL>()); }
#define BIN(name, EXPR) \
  template <class X> static WideNum b_##name(WideNum a, WideNum b) { X x = a.narrow<toBType<X>>(), y = b.narrow<toBType<X>>(); return WideNum::widen<toBType<X>>((X)(EXPR)); }
BIN(add, x + y) BIN(sub, x - y) BIN(mul, x *y) BIN(max, x < y ? y : x) BIN(min, y < x ? y : x)
template <class X> static WideNum b_less(WideNum a, WideNum b) { return WideNum::widen<BType::BOOL>(a.narrow<toBType<X>>() < b.narrow<toBType<X>>()); }
template <class X> static WideNum b_eq(WideNum a, WideNum b) { return WideNum::widen<BType::BOOL>(a.narrow<toBType<X>>() == b.narrow<toBType<X>>()); }
static WideNum b_and(WideNum a, WideNum b) { return WideNum::widen<BType::BOOL>(a.narrow<BType::BOOL>() && b.narrow<BType::BOOL>()); }
static WideNum b_or(WideNum a, WideNum b) { return WideNum::widen<BType::BOOL>(a.narrow<BType::BOOL>() || b.narrow<BType::BOOL>()); }
static WideNum b_xor(WideNum a, WideNum b) { return WideNum::widen<BType::BOOL>(a.narrow<BType::BOOL>() != b.narrow<BType::BOOL>()); }
using U1 = WideNum (*)(WideNum); using U2 = WideNum (*)(WideNum, WideNum);
template <class X> static U1 un(const std::string &f) {
  return f == "neg" ? u_neg<X> : f == "inc" ? u_inc<X> : f == "dbl" ? u_dbl<X> : f == "abs" ? u_abs<X> : f == "relu" ? u_relu<X> : f == "pos" ? u_pos<X> : (U1) nullptr;
}
template <class X> static U2 bin(const std::string &f) {
  return f == "add" ? b_add<X> : f == "sub" ? b_sub<X> : f == "mul" ? b_mul<X> : f == "max" ? b_max<X> : f == "min" ? b_min<X> : f == "less" ? b_less<X> : f == "eq" ? b_eq<X> : (U2) nullptr;
}
static U1 un(const std::string &f, Type t) { return t.isInteger(1) ? (f == "not" ? u_not : nullptr) : mlir::isa<FloatType>(t) ? un<double>(f) : isU(t) ? un<uint64_t>(f) : un<int64_t>(f); }
static U2 bin(const std::string &f, Type t) {
  if (t.isInteger(1)) return f == "and" ? b_and : f == "or" ? b_or : f == "xor" ? b_xor : nullptr;
  return mlir::isa<FloatType>(t) ? bin<double>(f) : isU(t) ? bin<uint64_t>(f) : bin<int64_t>(f);
}
[[noreturn]] static void refuse(const std::string &l) { fprintf(stderr, "refused: %s\n", l.c_str()); exit(3); }

static void setup() {
  B.reset(); L.clear(); delete ctx;
  ctx = new MLIRContext(); // with its thread pool
  ctx->getOrLoadDialect<TstDialect>();
  pool = DisposablePool::get<TstDialect>(ctx);
  B.reset(new ElementsAttrBuilder(*pool));
}
static ElementsAttr make(const std::string &kind, Type t, const V &sh, const V &vals) {
  auto st = RankedTensorType::get(sh, t);
  if (kind == "mem") // a buffer of the element type
    return dispatchByBType(btypeOfMlirType(t), [&](auto bt) -> ElementsAttr {
      using X = CppType<bt>;
      auto w = llvm::WritableMemoryBuffer::getNewUninitMemBuffer(vals.size() * sizeof(X));
      auto d = castMutableArrayRef<X>(w->getBuffer());
      for (size_t k = 0; k < vals.size(); ++k) d[k] = wide(t, vals[k]).narrow<toBType<X>>();
      return B->fromMemoryBuffer(st, std::move(w));
    });
  if (kind == "arr")
    return dispatchByBType(btypeOfMlirType(t), [&](auto bt) -> ElementsAttr {
      using X = CppType<bt>;
      return B->fromArray<X>(st, [&](MutableArrayRef<X> d) { for (size_t k = 0; k < vals.size(); ++k) d[k] = wide(t, vals[k]).narrow<toBType<X>>(); });
    });
  if (kind == "wide")
    return B->fromWideNums(st, [&](MutableArrayRef<WideNum> d) { for (size_t k = 0; k < vals.size(); ++k) d[k] = wide(t, vals[k]); });
  DenseElementsAttr d;
  size_t n = kind == "splat" || kind == "wsplat" ? 1 : vals.size();
  if (mlir::isa<FloatType>(t)) { SmallVector<APFloat> v; for (size_t k = 0; k < n; ++k) v.push_back(apFloat(t, vals[k])); d = DenseElementsAttr::get(st, v); }
  else { SmallVector<APInt> v; for (size_t k = 0; k < n; ++k) v.push_back(apInt(t, vals[k])); d = DenseElementsAttr::get(st, v); }
  if (kind == "wrap" || kind == "wsplat") return B->toDisposableElementsAttr(d);
  return d;
}

int main() {
  setup();
  hx::loop([](const std::vector<std::string> &w, const std::string &line) {
    const std::string &op = w[0];
    if (op == "RESET") { setup(); hx::reply("{}"); return; }
    auto id = [&](int k) -> ElementsAttr { size_t i = atoi(w[k].c_str()); if (i < 1 || i > L.size()) refuse(line); return L[i - 1]; };
    auto et = [&](ElementsAttr e) { return e.getElementType(); };
    auto typed = [&](int shk, Type t) { return RankedTensorType::get(iv<int64_t>(w[shk]), t); };
    std::vector<ElementsAttr> out; std::string extra = "";
    std::vector<size_t> used;
    if (op == "new") out.push_back(make(w[1], ty(w[2]), iv<int64_t>(w[3]), hx::ints(w[4])));
    else if (op == "map") { auto f = un(w[2], et(id(1))); if (!f) refuse(line); out.push_back(B->transform(id(1), ty(w[3]), f)); }
    else if (op == "comb") { auto f = bin(w[3], et(id(1))); if (!f) refuse(line); out.push_back(B->combine(id(1), id(2), typed(5, ty(w[4])), f)); }
    else if (op == "where") out.push_back(B->where(id(1), id(2), id(3), typed(4, et(id(2)))));
    else if (op == "cast") out.push_back(B->castElementType(id(1), ty(w[2])));
    else if (op == "casti") out.push_back(B->castToIntElementType(id(1), mlir::cast<IntegerType>(ty(w[2])), w[3] == "1"));
    else if (op == "castf") out.push_back(B->castToFPElementType(id(1), mlir::cast<FloatType>(ty(w[2])), w[3] == "1"));
    else if (op == "clip") out.push_back(B->clip(id(1), wide(et(id(1)), atoll(w[2].c_str())), wide(et(id(1)), atoll(w[3].c_str()))));
    else if (op == "tr") out.push_back(B->transpose(id(1), iv<uint64_t>(w[2])));
    else if (op == "resh") out.push_back(B->reshape(id(1), iv<int64_t>(w[2])));
    else if (op == "exp") out.push_back(B->expand(id(1), iv<int64_t>(w[2])));
    else if (op == "split") { for (auto e : B->split(id(1), atoi(w[2].c_str()), iv<int64_t>(w[3]))) out.push_back(e); }
    else if (op == "cat") { std::vector<ElementsAttr> in; for (auto i : hx::ints(w[1])) { if (i < 1 || (size_t)i > L.size()) refuse(line); in.push_back(L[i - 1]); } out.push_back(B->concat(in, atoi(w[2].c_str()))); }
    else if (op == "slice") out.push_back(B->slice(id(1), iv<int64_t>(w[2]), iv<int64_t>(w[3]), iv<int64_t>(w[4])));
    else if (op == "pad") out.push_back(B->pad(id(1), iv<int64_t>(w[2]), wide(et(id(1)), atoll(w[3].c_str()))));
    else if (op == "gather") out.push_back(B->gather(id(1), id(2), atoi(w[3].c_str())));
    else if (op == "scat") out.push_back(B->scatterND(id(1), id(2), id(3)));
    else if (op == "red") { auto f = bin(w[4], et(id(1))); if (!f) refuse(line); out.push_back(B->reduce(id(1), iv<unsigned>(w[2]), w[3] == "1", f)); }
    else if (op == "mm") out.push_back(B->matMul(id(1), id(2)));
    else if (op == "range") { Type t = ty(w[1]); out.push_back(B->range(RankedTensorType::get({(int64_t)atoll(w[2].c_str())}, t), wide(t, atoll(w[3].c_str())), wide(t, atoll(w[4].c_str())))); }
    else if (op == "nz") out.push_back(B->nonZero(id(1)));
    else if (op == "dense") out.push_back(ElementsAttrBuilder::toDenseElementsAttr(id(1)));
    else if (op == "disp") out.push_back(B->toDisposableElementsAttr(id(1)));
    else if (op == "eqt") extra = std::string(",\"r\":") + (ElementsAttrBuilder::equal(id(1), id(2)) ? "1" : "0");
    else if (op == "alleq") extra = std::string(",\"r\":") + (ElementsAttrBuilder::allEqual(id(1), wide(et(id(1)), atoll(w[2].c_str()))) ? "1" : "0");
    else if (op == "all") ;
    else refuse(line);
    std::string o = "{\"out\":[";
    for (size_t k = 0; k < out.size(); ++k) { if (k) o += ","; o += desc(out[k]); L.push_back(out[k]); }
    o += "]" + extra;
    if (op == "all") { // re-read every constant
      o += ",\"all\":[";
      for (size_t k = 0; k < L.size(); ++k) { if (k) o += ","; o += views(L[k], true); }
      o += "]";
    }
    hx::reply(o + "}");
  });
}
