// Drives DisposablePool over a module whose operations hold constants.
// args: which of the six slots below are slots 1.. of the specification.
#include "hx.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttributeStorage.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposablePool.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/BuiltinTypes.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/OwningOpRef.h"
#include <atomic>
#include <memory>
#include <thread>

using namespace mlir;
using namespace onnx_mlir;

struct TstDialect : public Dialect {
  explicit TstDialect(MLIRContext *c) : Dialect(getDialectNamespace(), c, TypeID::get<TstDialect>()) {
    addAttributes<DisposableElementsAttr>();
    addInterface<DisposablePool>(c);
  }
  static llvm::StringRef getDialectNamespace() { return "tst"; }
};
MLIR_DECLARE_EXPLICIT_TYPE_ID(TstDialect)
MLIR_DEFINE_EXPLICIT_TYPE_ID(TstDialect)

// memory whose release is counted
struct Buf : public llvm::MemoryBuffer {
  std::vector<float> data; std::atomic<int> *gone;
  Buf(std::vector<float> d, std::atomic<int> *g) : data(std::move(d)), gone(g) {
    const char *p = (const char *)data.data();
    init(p, p + data.size() * sizeof(float), false);
  }
  ~Buf() override { ++*gone; }
  BufferKind getBufferKind() const override { return MemoryBuffer_Malloc; }
};

static MLIRContext *ctx; static DisposablePool *pool; static std::unique_ptr<ElementsAttrBuilder> B;
static OwningOpRef<ModuleOp> mod;
struct SlotAt { Operation *op; const char *attr; };
static std::vector<SlotAt> slots, phys; static std::vector<int> pick; static Block *inner;
static std::vector<std::unique_ptr<std::atomic<int>>> gone, bulkGone;
struct Kept { Operation *op; std::vector<float> want; };
static std::vector<Kept> kept;
static const DisposablePool::OpAttrPair DICT[] = {{"x.a", "value"}, {"x.b", "data"}, {"x.none", "value"}};

static Operation *mk(OpBuilder &b, const char *name, int regions = 0) {
  OperationState st(b.getUnknownLoc(), name);
  for (int i = 0; i < regions; ++i) st.addRegion()->emplaceBlock();
  return b.create(st);
}
static void setup() {
  mod = nullptr; kept.clear(); B.reset(); delete ctx; gone.clear(); bulkGone.clear();
  ctx = new MLIRContext();
  ctx->allowUnregisteredDialects();
  ctx->getOrLoadDialect<TstDialect>();
  pool = DisposablePool::get<TstDialect>(ctx);
  B.reset(new ElementsAttrBuilder(*pool));
  mod = ModuleOp::create(UnknownLoc::get(ctx));
  OpBuilder b(ctx);
  b.setInsertionPointToEnd(mod->getBody());
  Operation *a1 = mk(b, "x.a"), *c = mk(b, "x.c");
  Operation *r = mk(b, "x.region", 2);
  b.setInsertionPointToEnd(&r->getRegion(1).front());
  Operation *a2 = mk(b, "x.a"), *r2 = mk(b, "x.region", 1);
  inner = &r2->getRegion(0).front();
  b.setInsertionPointToEnd(inner);
  Operation *bb = mk(b, "x.b");
  phys = {{a1, "value"}, {a2, "value"}, {bb, "data"}, {a1, "data"}, {bb, "value"}, {c, "value"}};
  slots.clear();
  for (int i : pick) slots.push_back(phys[i - 1]);
}
static RankedTensorType ty(std::vector<int64_t> sh) { return RankedTensorType::get(sh, Float32Type::get(ctx)); }
static ElementsAttr newConst(std::vector<float> v, std::vector<int64_t> sh, std::atomic<int> *g) {
  return B->fromMemoryBuffer(ty(sh), std::unique_ptr<llvm::MemoryBuffer>(new Buf(std::move(v), g)));
}
static ElementsAttr at(int i) {
  Attribute a = slots[i - 1].op->getAttr(slots[i - 1].attr);
  if (!a) { fprintf(stderr, "nothing in slot %d\n", i); exit(3); }
  return mlir::cast<ElementsAttr>(a);
}
static void put(int i, Attribute a) {
  if (i) slots[i - 1].op->setAttr(slots[i - 1].attr, a);
}
static std::vector<float> values(ElementsAttr e) { std::vector<float> v; for (float f : e.getValues<float>()) v.push_back(f); return v; }
static std::string obs() {
  std::string o = "{\"slots\":[";
  for (size_t i = 0; i < slots.size(); ++i) {
    Attribute a = slots[i].op->getAttr(slots[i].attr);
    o += std::string(i ? "," : "") + "{\"k\":\"" + (!a ? "n" : mlir::isa<DisposableElementsAttr>(a) ? "x" : mlir::isa<DenseElementsAttr>(a) ? "d" : "?") + "\",\"v\":[";
    if (a) { auto v = values(mlir::cast<ElementsAttr>(a)); for (size_t j = 0; j < v.size(); ++j) o += (j ? "," : "") + std::to_string((long)v[j]); }
    o += "]}";
  }
  o += "],\"live\":["; bool c = false; int twice = 0;
  for (size_t i = 0; i < gone.size(); ++i) { if (*gone[i] == 0) { o += (c ? "," : "") + std::to_string(i + 1); c = true; } if (*gone[i] > 1) ++twice; }
  long live = 0; int bad = 0, x = 0, d = 0;
  for (auto &g : bulkGone) { live += *g == 0; twice += *g > 1; }
  for (auto &k : kept) {
    Attribute a = k.op->getAttr("value");
    if (mlir::isa<DisposableElementsAttr>(a)) ++x; else if (mlir::isa<DenseElementsAttr>(a)) ++d; else { ++bad; continue; }
    if (values(mlir::cast<ElementsAttr>(a)) != k.want) ++bad;
  }
  o += "],\"twice\":" + std::to_string(twice) + ",\"act\":" + (pool->isActive() ? "1" : "0");
  o += ",\"bulk\":{\"live\":" + std::to_string(live) + ",\"x\":" + std::to_string(x) + ",\"d\":" + std::to_string(d) + ",\"bad\":" + std::to_string(bad) + "}}";
  return o;
}
// after the pool has given up what is unreachable, nobody may look at it
static void forget() {
  for (size_t i = 0; i < slots.size(); ++i)
    if (pick[i] > 3)
      if (auto a = slots[i].op->getAttr(slots[i].attr)) if (mlir::isa<DisposableElementsAttr>(a)) slots[i].op->removeAttr(slots[i].attr);
}
static std::vector<float> bulkVals(int id) {
  std::vector<float> v(id % 7 == 3 ? 1200 : 4);
  for (size_t j = 0; j < v.size(); ++j) v[j] = id * 5 + j % 4;
  return v;
}
static void bulk(int T, int n, int keep) {
  static int serial = 0;
  int base = serial % 100000; serial += T * n + 1;
  std::vector<ElementsAttr> made(T * n);
  size_t g0 = bulkGone.size();
  for (int i = 0; i <= T * n; ++i) bulkGone.emplace_back(new std::atomic<int>(0));
  ElementsAttr shared = newConst({1, 2, 3, 4}, {2, 2}, bulkGone[g0 + T * n].get());
  std::atomic<int> ready(0); std::vector<std::thread> ts;
  for (int t = 0; t < T; ++t) ts.emplace_back([&, t] {
    ++ready; while (ready < T) {}
    for (int i = 0; i < n; ++i) {
      int id = t * n + i;
      auto v = bulkVals(base + id); int64_t len = v.size();
      ElementsAttr e = newConst(std::move(v), {len}, bulkGone[g0 + id].get());
      if (i % 3 == 0) { e = B->reshape(e, {2, len / 2}); e = B->reshape(e, {len}); } // constants that share it
      if (i % 4 == 0) B->transpose(shared, {1, 0});
      made[id] = e;
    }
  });
  for (auto &t : ts) t.join();
  OpBuilder b(ctx);
  for (int k = 0; k < keep; ++k) {
    int id = (long)k * T * n / keep;
    b.setInsertionPointToEnd(k % 2 ? inner : mod->getBody());
    Operation *o = mk(b, "x.a");
    o->setAttr("value", made[id]);
    if (k % 5 == 0) { Operation *p = mk(b, "x.b"); p->setAttr("data", made[id]); } // held twice
    kept.push_back({o, bulkVals(base + id)});
  }
}
int main(int argc, char **argv) {
  for (auto i : hx::ints(argv[1])) pick.push_back(i);
  setup();
  hx::loop([](const std::vector<std::string> &w, const std::string &line) {
    const std::string &op = w[0];
    auto n = [&](int i) { return atoi(w[i].c_str()); };
    if (op == "RESET") { setup(); hx::reply("{}"); return; }
    if (op == "new") {
      int b = gone.size() + 1, q = b % 3 == 0 ? b - 1 : b;
      gone.emplace_back(new std::atomic<int>(0));
      put(n(1), newConst({(float)q, (float)q + 100, (float)q + 200, (float)q + 300}, {2, 2}, gone.back().get()));
    } else if (op == "derive") {
      ElementsAttr e = at(n(2)), r;
      if (w[1] == "tr") r = B->transpose(e, {1, 0});
      else if (w[1] == "ng") r = B->transform(e, e.getElementType(), [](WideNum x) { x.dbl = -x.dbl; return x; });
      else r = B->slice(e, {2, 2}, {1, 1}, {-1, -1});
      put(n(3), r);
    } else if (op == "copy") put(n(2), at(n(1)));
    else if (op == "drop") slots[n(1) - 1].op->removeAttr(slots[n(1) - 1].attr);
    else if (op == "gc") { pool->garbageCollectUnreachable(*mod, DICT); forget(); }
    else if (op == "scrub") { pool->scrub(*mod, DICT); forget(); }
    else if (op == "close") pool->close();
    else if (op == "bulk") bulk(n(1), n(2), n(3));
    else if (op == "unbulk") {
      std::vector<Operation *> del;
      mod->walk([&](Operation *o) { bool s = false; for (auto &p : phys) s |= p.op == o; if (!s && (o->getName().getStringRef() == "x.a" || o->getName().getStringRef() == "x.b")) del.push_back(o); });
      for (auto *o : del) o->erase();
      kept.clear();
    } else { fprintf(stderr, "unknown %s\n", line.c_str()); exit(3); }
    hx::reply(obs());
  });
}
