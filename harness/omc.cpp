// Compiles and runs models with the compiler built from /repo (see lib/mlirc.py).
//
//   omc [options of onnx-mlir...]     reads a script from standard input
//
//   model N      followed by N lines: a module of the ONNX dialect with a
//                function @main_graph and an onnx.EntryPoint
//   opt          run the passes on the ONNX dialect; prints "opt ok|fail"
//   show         print the module between "show" and "end"
//   types        print "types <result type>;<result type>..."
//   consts       for each returned value: its constant or "?"
//   compile      run the whole pipeline and generate code
//   run N        followed by N lines "<type> <dims> <values>": calls the
//                compiled model; prints "out K U L" (U: inputs
//                unchanged, L: blocks of memory left) and K lines alike
//   quit
#include "mlir/ExecutionEngine/ExecutionEngine.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Target/LLVMIR/Dialect/Builtin/BuiltinToLLVMIRTranslation.h"
#include "mlir/Target/LLVMIR/Dialect/LLVMIR/LLVMToLLVMIRTranslation.h"
#include "mlir/Target/LLVMIR/Export.h"
#include "llvm/Support/TargetSelect.h"

#include "src/Accelerators/Accelerator.hpp"
#include "src/Compiler/CompilerDialects.hpp"
#include "src/Compiler/CompilerOptions.hpp"
#include "src/Compiler/CompilerPasses.hpp"
#include "src/Dialect/ONNX/ONNXDialect.hpp"
#include "src/Support/SmallFPConversion.h"

#include "onnx-mlir/Runtime/OMTensor.h"
#include "onnx-mlir/Runtime/OMTensorList.h"

#include <cinttypes>
#include <csignal>
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

#include "guard.hpp"

using namespace mlir;

namespace onnx_mlir {
// The lowering to Linalg needs a newer MLIR; it is off by default.
std::unique_ptr<Pass> createConvertONNXToLinalg(const std::string &, bool) {
  abort();
}
} // namespace onnx_mlir

static const struct {
  const char *name;
  OM_DATA_TYPE type;
} kTypes[] = {{"f32", ONNX_TYPE_FLOAT}, {"f64", ONNX_TYPE_DOUBLE},
    {"f16", ONNX_TYPE_FLOAT16}, {"bf16", ONNX_TYPE_BFLOAT16},
    {"i8", ONNX_TYPE_INT8}, {"i16", ONNX_TYPE_INT16}, {"i32", ONNX_TYPE_INT32},
    {"i64", ONNX_TYPE_INT64}, {"ui8", ONNX_TYPE_UINT8},
    {"ui16", ONNX_TYPE_UINT16}, {"ui32", ONNX_TYPE_UINT32},
    {"ui64", ONNX_TYPE_UINT64}, {"i1", ONNX_TYPE_BOOL}};

static void put(void *base, int64_t i, OM_DATA_TYPE t, const std::string &s) {
  double d = strtod(s.c_str(), nullptr);
  long long n = strtoll(s.c_str(), nullptr, 10);
  switch (t) {
  case ONNX_TYPE_FLOAT: ((float *)base)[i] = d; break;
  case ONNX_TYPE_DOUBLE: ((double *)base)[i] = d; break;
  case ONNX_TYPE_FLOAT16: ((uint16_t *)base)[i] = om_f32_to_f16(d); break;
  case ONNX_TYPE_BFLOAT16: ((uint16_t *)base)[i] = om_f32_to_bf16(d); break;
  case ONNX_TYPE_INT8: case ONNX_TYPE_UINT8: case ONNX_TYPE_BOOL:
    ((int8_t *)base)[i] = n; break;
  case ONNX_TYPE_INT16: case ONNX_TYPE_UINT16: ((int16_t *)base)[i] = n; break;
  case ONNX_TYPE_INT32: case ONNX_TYPE_UINT32: ((int32_t *)base)[i] = n; break;
  default: ((int64_t *)base)[i] = n; break;
  }
}

static std::string fp(double d) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}

static std::string get(void *base, int64_t i, OM_DATA_TYPE t) {
  switch (t) {
  case ONNX_TYPE_FLOAT: return fp(((float *)base)[i]);
  case ONNX_TYPE_DOUBLE: return fp(((double *)base)[i]);
  case ONNX_TYPE_FLOAT16: return fp(om_f16_to_f32(((uint16_t *)base)[i]));
  case ONNX_TYPE_BFLOAT16: return fp(om_bf16_to_f32(((uint16_t *)base)[i]));
  case ONNX_TYPE_INT8: return std::to_string(((int8_t *)base)[i]);
  case ONNX_TYPE_UINT8: case ONNX_TYPE_BOOL:
    return std::to_string(((uint8_t *)base)[i]);
  case ONNX_TYPE_INT16: return std::to_string(((int16_t *)base)[i]);
  case ONNX_TYPE_UINT16: return std::to_string(((uint16_t *)base)[i]);
  case ONNX_TYPE_INT32: return std::to_string(((int32_t *)base)[i]);
  case ONNX_TYPE_UINT32: return std::to_string(((uint32_t *)base)[i]);
  case ONNX_TYPE_INT64: return std::to_string(((int64_t *)base)[i]);
  case ONNX_TYPE_UINT64: return std::to_string(((uint64_t *)base)[i]);
  default: return "?";
  }
}

static std::string tensorText(OMTensor *t) {
  if (!t)
    return "null";
  std::string s = "?";
  for (auto &k : kTypes)
    if (k.type == omTensorGetDataType(t))
      s = k.name;
  s += " ";
  int64_t rank = omTensorGetRank(t), n = 1;
  for (int64_t i = 0; i < rank; i++) {
    s += (i ? "," : "") + std::to_string(omTensorGetShape(t)[i]);
    n *= omTensorGetShape(t)[i];
  }
  if (!rank)
    s += "-";
  // Strides count: they must describe what is read.
  std::vector<int64_t> ix(rank, 0);
  s += " ";
  for (int64_t k = 0; k < n; k++) {
    int64_t off = 0, r = k;
    for (int64_t i = rank - 1; i >= 0; i--) {
      ix[i] = r % omTensorGetShape(t)[i];
      r /= omTensorGetShape(t)[i];
      off += ix[i] * omTensorGetStrides(t)[i];
    }
    s += (k ? "," : "") +
         get(omTensorGetDataPtr(t), off, omTensorGetDataType(t));
  }
  return s;
}

static std::string attrText(Attribute a) {
  auto e = dyn_cast_or_null<ElementsAttr>(a);
  if (!e)
    return "?";
  Type et = e.getElementType();
  std::string s;
  llvm::raw_string_ostream o(s);
  o << et << " ";
  ArrayRef<int64_t> sh = e.getShapedType().getShape();
  for (size_t i = 0; i < sh.size(); i++)
    o << (i ? "," : "") << sh[i];
  if (sh.empty())
    o << "-";
  o << " ";
  bool first = true;
  if (isa<FloatType>(et)) {
    for (APFloat f : e.getValues<APFloat>()) {
      bool lossy;
      f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lossy);
      o << (first ? "" : ",") << fp(f.convertToDouble());
      first = false;
    }
  } else if (isa<IntegerType>(et)) {
    for (APInt v : e.getValues<APInt>()) {
      o << (first ? "" : ",");
      v.print(o, !et.isUnsignedInteger() && !et.isInteger(1));
      first = false;
    }
  } else
    return "?";
  return o.str();
}

struct Model {
  OwningOpRef<ModuleOp> module;
  std::unique_ptr<ExecutionEngine> engine;
};

static func::FuncOp mainGraph(ModuleOp m) {
  return m.lookupSymbol<func::FuncOp>("main_graph");
}

static bool runPasses(
    OwningOpRef<ModuleOp> &m, onnx_mlir::EmissionTargetType target) {
  PassManager pm(m.get()->getName(), OpPassManager::Nesting::Implicit);
  onnx_mlir::addPasses(m, pm, target, "model");
  return succeeded(pm.run(*m));
}

static std::string runModel(
    OMTensorList *(*f)(OMTensorList *), const std::vector<std::string> &text) {
  guard::init();
  std::vector<OMTensor *> in;
  std::vector<std::string> before;
  for (const std::string &line : text) {
    std::istringstream ls(line);
    std::string ty, dims, vals;
    ls >> ty >> dims >> vals;
    OM_DATA_TYPE t = ONNX_TYPE_UNDEFINED;
    for (auto &k : kTypes)
      if (ty == k.name)
        t = k.type;
    std::vector<int64_t> shape;
    if (dims != "-") {
      std::istringstream ds(dims);
      std::string d;
      while (std::getline(ds, d, ','))
        shape.push_back(atoll(d.c_str()));
    }
    int64_t dummy = 0;
    guard::on = true;
    OMTensor *x = omTensorCreateEmpty(
        shape.empty() ? &dummy : shape.data(), shape.size(), t);
    guard::on = false;
    std::istringstream vs(vals);
    std::string v;
    for (int64_t k = 0; std::getline(vs, v, ','); k++)
      put(omTensorGetDataPtr(x), k, t, v);
    in.push_back(x);
    before.push_back(tensorText(x));
  }
  std::vector<OMTensor *> mine = in;
  guard::on = true;
  OMTensorList *il = omTensorListCreate(in.data(), in.size());
  OMTensorList *ol = f(il);
  guard::on = false;
  std::string out;
  if (!ol) {
    out = "run fail null\n";
  } else {
    bool same = true;
    for (size_t i = 0; i < mine.size(); i++)
      same = same && tensorText(mine[i]) == before[i];
    out = std::to_string(omTensorListGetSize(ol)) + (same ? " 1 " : " 0 ");
    std::string all;
    for (int64_t i = 0; i < omTensorListGetSize(ol); i++)
      all += tensorText(omTensorListGetOmtByIndex(ol, i)) + "\n";
    omTensorListDestroy(ol);
    omTensorListDestroy(il);
    out = "out " + out + std::to_string(guard::live) + "\n" + all;
  }
  return out;
}

int main(int argc, char **argv) {
  llvm::InitializeNativeTarget();
  llvm::InitializeNativeTargetAsmPrinter();
  std::vector<const char *> av(argv, argv + argc);
  llvm::cl::ParseCommandLineOptions(av.size(), av.data(), "omc\n");
  onnx_mlir::initCompilerConfig();
  DialectRegistry registry = onnx_mlir::registerDialects({});
  registerBuiltinDialectTranslation(registry);
  registerLLVMDialectTranslation(registry);
  MLIRContext context(registry, MLIRContext::Threading::DISABLED);
  context.loadAllAvailableDialects();
  std::string diag;
  context.getDiagEngine().registerHandler([&](Diagnostic &d) {
    if (d.getSeverity() == DiagnosticSeverity::Error && diag.empty()) {
      llvm::raw_string_ostream o(diag);
      o << d;
    }
    return success();
  });
  onnx_mlir::configurePasses();
  // What the driver does in setupModule().
  OpBuilder builder(&context);
  Model cur;
  std::string line, word;
  auto say = [](const std::string &s) { std::cout << s << std::endl; };
  auto fail = [&](const char *what) {
    std::string d = diag.substr(0, diag.find('\n'));
    say(std::string(what) + " fail " + d);
    diag.clear();
  };
  // Progress for the caller, in case a pass aborts.
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    is >> word;
    if (word == "model") {
      int n;
      is >> n;
      std::string text;
      while (n-- > 0 && std::getline(std::cin, line))
        text += line + "\n";
      cur = Model();
      diag.clear();
      cur.module = parseSourceString<ModuleOp>(text, ParserConfig(&context));
      if (!cur.module) {
        fail("model");
        continue;
      }
      (*cur.module)
          ->setAttr("onnx-mlir.symbol-postfix", builder.getStringAttr(""));
      say("model ok");
    } else if (!cur.module) {
      say("none");
    } else if (word == "opt") {
      if (runPasses(cur.module, onnx_mlir::EmitONNXIR))
        say("opt ok");
      else
        fail("opt");
    } else if (word == "show") {
      say("show");
      cur.module->print(llvm::outs());
      llvm::outs().flush();
      say("end");
    } else if (word == "types") {
      std::string s = "types ";
      llvm::raw_string_ostream o(s);
      for (Type t : mainGraph(*cur.module).getFunctionType().getResults())
        o << t << ";";
      say(s);
    } else if (word == "consts") {
      Operation *ret = mainGraph(*cur.module).front().getTerminator();
      say("consts " + std::to_string(ret->getNumOperands()));
      for (Value v : ret->getOperands()) {
        Operation *d = v.getDefiningOp();
        say(d ? attrText(d->getAttr("value")) : "?");
      }
    } else if (word == "compile") {
      diag.clear();
      if (!runPasses(cur.module, onnx_mlir::EmitLLVMIR)) {
        fail("compile");
        continue;
      }
      ExecutionEngineOptions opts;
      opts.jitCodeGenOptLevel = llvm::CodeGenOptLevel::None;
      auto e = ExecutionEngine::create(*cur.module, opts);
      if (!e) {
        say("compile fail " + llvm::toString(e.takeError()));
        continue;
      }
      cur.engine = std::move(*e);
      say("compile ok");
    } else if (word == "run") {
      int n;
      is >> n;
      std::vector<std::string> text;
      for (int i = 0; i < n && std::getline(std::cin, line); i++)
        text.push_back(line);
      if (!cur.engine) {
        say("none");
        continue;
      }
      auto f = cur.engine->lookup("run_main_graph");
      if (!f) {
        say("run fail " + llvm::toString(f.takeError()));
        continue;
      }
      // In a process of its own, with guarded memory; blocks end at a page in
      // one run and begin at one in the next.
      fflush(stdout);
      static int runs = 0;
      guard::left = runs++ % 2;
      pid_t pid = fork();
      if (!pid) {
        alarm(20);
        std::string out = runModel(
            (OMTensorList * (*)(OMTensorList *)) * f, text);
        fputs(out.c_str(), stdout);
        fflush(stdout);
        _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      if (st)
        say(WIFSIGNALED(st)
                ? "run died signal " + std::to_string(WTERMSIG(st))
                : "run died status " + std::to_string(WEXITSTATUS(st)));
    } else if (word == "quit")
      break;
  }
  std::cout.flush();
  _exit(0);
}
