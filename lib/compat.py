"""Headers that let the compiler's sources, which are written for a newer MLIR,
compile against the installed MLIR 20.

onnx-mlir uses `OpTy::create(builder, loc, ...)` and a handful of other names
that MLIR 20 spells differently. Each entry below adds such a name, in a copy of
the installed header, as a synonym of what MLIR 20 offers; the sources of
onnx-mlir are compiled as they are.
"""
import os
import re
import subprocess

LLVM = "/usr/lib/llvm-20"
ONNX_PROTO = "/opt/vp/venv/lib/python3.12/site-packages/onnx/onnx-ml.proto"


def after(anchor, text):
    return lambda s: _sub(s, anchor, anchor + text)


def before(anchor, text):
    return lambda s: _sub(s, anchor, text + anchor)


def _sub(s, a, b, n=1):
    if s.count(a) < 1:
        raise SystemExit(f"compat: anchor not found: {a!r}")
    return s.replace(a, b, n)


def _arith(s):
    for cls, sig, fwd in (
            ("ConstantIndexOp", "int64_t v", "v"),
            ("ConstantIntOp", "Type t, int64_t v", "v, t"),
            ("ConstantFloatOp", "FloatType t, const APFloat &v", "v, t")):
        a = f"class {cls} : public arith::ConstantOp {{\npublic:\n"
        s = _sub(s, a, a + f"""  template <typename B>
  static {cls} create(B &b, Location loc, {sig}) {{
    return b.template create<{cls}>(loc, {fwd});
  }}
""")
    a = "class ConstantIntOp : public arith::ConstantOp {\npublic:\n"
    return _sub(s, a, a + """  template <typename B>
  static ConstantIntOp create(B &b, Location loc, int64_t v, unsigned w) {
    return b.template create<ConstantIntOp>(loc, v, w);
  }
""")


def _greedy(s):
    a = "  bool cseConstants = true;\n"
    t = ""
    for field, ty in (("UseTopDownTraversal", "bool"), ("MaxIterations", "int64_t"),
                      ("MaxNumRewrites", "int64_t"), ("Scope", "Region *"),
                      ("Listener", "RewriterBase::Listener *")):
        f = field[0].lower() + field[1:]
        t += (f"  GreedyRewriteConfig &set{field}({ty} v) {{ {f} = v; return *this; }}\n")
    t += ("  GreedyRewriteConfig &enableFolding(bool v = true) { fold = v; return *this; }\n"
          "  GreedyRewriteConfig &setStrictness(GreedyRewriteStrictness v) "
          "{ strictMode = v; return *this; }\n"
          "  GreedyRewriteConfig &setRegionSimplificationLevel(GreedySimplifyRegionLevel v) "
          "{ enableRegionSimplification = v; return *this; }\n")
    return _sub(s, a, a + t)


def _funcif(s):
    a = re.search(r"    ::mlir::Attribute removeResultAttr\(unsigned index, "
                  r"::mlir::StringAttr name\) \{\n.*\(\*static_cast.*\n    \}\n", s)
    return s[:a.end()] + """    ::mlir::Attribute removeResultAttr(unsigned index, ::llvm::StringRef name) {
      return removeResultAttr(
          index, ::mlir::StringAttr::get(this->getOperation()->getContext(), name));
    }
""" + s[a.end():]


def _cu(s):
    a = re.search(r"  static DICompileUnitAttr get\(::mlir::MLIRContext \*context, .*;\n", s)
    return s[:a.end()] + """  template <typename File>
  static DICompileUnitAttr get(::mlir::MLIRContext *context, DistinctAttr id,
      unsigned lang, File file, StringAttr producer, bool opt, DIEmissionKind kind,
      DINameTableKind table, StringAttr) {
    return get(context, id, lang, file, producer, opt, kind, table);
  }
""" + s[a.end():]


def _asm(s):
    for cls in ("GlobalCtorsOp", "GlobalDtorsOp"):
        a = re.search(rf"class {cls} : public .*\{{\npublic:\n", s)
        s = s[:a.end()] + f"""  template <typename B>
  static {cls} create(B &b, ::mlir::Location loc, ::mlir::ArrayAttr fns,
      ::mlir::ArrayAttr prios, ::mlir::ArrayAttr) {{
    return b.template create<{cls}>(loc, fns, prios);
  }}
""" + s[a.end():]
    a = re.search(r"class InlineAsmOp : public .*\{\npublic:\n", s)
    return s[:a.end()] + """  template <typename B>
  static InlineAsmOp create(B &b, ::mlir::Location loc, ::mlir::Type res,
      ::mlir::ValueRange ops, const char *s, const char *c, bool side, bool align,
      TailCallKind, AsmDialectAttr d, ::mlir::ArrayAttr attrs) {
    return b.template create<InlineAsmOp>(loc, res, ops, s, c, side, align, d, attrs);
  }
""" + s[a.end():]


def _bufferize(s):
    s = _sub(s, '#include "mlir/Pass/Pass.h"\n', '#include "mlir/Pass/Pass.h"\n'
             '#include "mlir/Dialect/Bufferization/Transforms/OneShotAnalysis.h"\n')
    a = "createOneShotBufferizePass(const OneShotBufferizationOptions &options);\n"
    return _sub(s, a, a + """
struct OneShotBufferizePassOptions {
  bool bufferizeFunctionBoundaries = false, allowUnknownOps = false;
};
inline std::unique_ptr<Pass> createOneShotBufferizePass(
    const OneShotBufferizePassOptions &o) {
  OneShotBufferizationOptions r;
  r.bufferizeFunctionBoundaries = o.bufferizeFunctionBoundaries;
  r.allowUnknownOps = o.allowUnknownOps;
  return createOneShotBufferizePass(r);
}
""")


HEADERS = {
    "mlir/IR/OpDefinition.h": before(
        "  /// Create a deep copy of this operation.\n  ConcreteType clone()",
        """  template <typename B, typename... Args>
  static ConcreteType create(B &b, ::mlir::Location loc, Args &&...args) {
    return b.template create<ConcreteType>(loc, std::forward<Args>(args)...);
  }
"""),
    "mlir/Dialect/Arith/IR/Arith.h": _arith,
    "mlir/IR/Types.h": after("  bool isF32() const;\n",
                             "  bool isFloat() const { return isIntOrFloat() && !isInteger(); }\n"),
    "mlir/Transforms/GreedyPatternRewriteDriver.h": _greedy,
    "mlir/Interfaces/FunctionInterfaces.h.inc": _funcif,
    "mlir/Dialect/LLVMIR/LLVMOpsAttrDefs.h.inc": _cu,
    "mlir/Dialect/LLVMIR/LLVMOps.h.inc": _asm,
    "mlir/Dialect/OpenMP/OpenMPOps.h.inc": after(
        "  ::mlir::MutableOperandRange getNumThreadsMutable();\n",
        "  ::mlir::MutableOperandRange getNumThreadsVarsMutable() "
        "{ return getNumThreadsMutable(); }\n"),
    "mlir/Conversion/LLVMCommon/MemRefBuilder.h": after(
        "  static MemRefDescriptor undef(OpBuilder &builder, Location loc,\n"
        "                                Type descriptorType);\n",
        "  static MemRefDescriptor poison(OpBuilder &b, Location l, Type t) "
        "{ return undef(b, l, t); }\n"),
    "mlir/Dialect/Vector/Transforms/VectorTransforms.h": after(
        "struct VectorTransformsOptions {\n", """  VectorTransformsOptions() = default;
  VectorTransformsOptions(VectorContractLowering v) : vectorContractLowering(v) {}
  VectorTransformsOptions(VectorTransposeLowering v) : vectorTransposeLowering(v) {}
"""),
    "mlir/Conversion/BufferizationToMemRef/BufferizationToMemRef.h": after(
        "std::unique_ptr<Pass> createBufferizationToMemRefPass();\n",
        "inline std::unique_ptr<Pass> createConvertBufferizationToMemRefPass() "
        "{ return createBufferizationToMemRefPass(); }\n"),
    "mlir/Conversion/SCFToControlFlow/SCFToControlFlow.h": after(
        "std::unique_ptr<Pass> createConvertSCFToCFPass();\n",
        "inline std::unique_ptr<Pass> createSCFToControlFlowPass() "
        "{ return createConvertSCFToCFPass(); }\n"),
    "mlir/Dialect/Bufferization/Transforms/Passes.h": _bufferize,
}


def generate(dst):
    """Write the headers below dst (only where their text changes)."""
    for h, edit in HEADERS.items():
        put(os.path.join(dst, h), edit(open(f"{LLVM}/include/{h}").read()))
    # The enumeration of tensor types of the ONNX version the sources expect.
    pb = os.path.join(dst, "onnx", "onnx-ml.pb.h")
    if not os.path.exists(pb):
        os.makedirs(os.path.dirname(pb), exist_ok=True)
        src = open(ONNX_PROTO).read()
        src = re.sub(r"\noption optimize_for = LITE_RUNTIME;", "", src)
        put(os.path.join(dst, "onnx", "onnx-ml.proto"), src)
        subprocess.run(["protoc", f"-I{dst}", f"--cpp_out={dst}", "onnx/onnx-ml.proto"],
                       check=True)
        h = open("/usr/include/onnx/onnx_pb.h").read()
        put(os.path.join(dst, "onnx", "onnx_pb.h"), h)
    return dst


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


if __name__ == "__main__":
    import sys
    print(generate(sys.argv[1]))
