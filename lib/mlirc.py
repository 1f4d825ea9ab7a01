"""Builds the compiler (dialects, passes, lowerings) from /repo's sources against
the installed MLIR 20, with the synonyms of compat.py, into one program with a
harness. Everything generated (tablegen output included) lands below build/."""
import glob
import os
import subprocess
import time

import compat
import vf

LLVM = compat.LLVM
PCH = """#include <algorithm>
#include <functional>
#include <map>
#include <numeric>
#include <regex>
#include <string>
#include "src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.hpp"
#include "src/Dialect/ONNX/ONNXOps/ShapeHelper.hpp"
#include "src/Dialect/ONNX/ONNXOps/OpHelper.hpp"
#include "src/Dialect/ONNX/ONNXDialect.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposablePool.hpp"
#include "src/Dialect/ONNX/OnnxElementsAttrBuilder.hpp"
#include "src/Compiler/CompilerOptions.hpp"
#include "src/Support/TypeUtilities.hpp"
#include "mlir/Conversion/LLVMCommon/TypeConverter.h"
#include "mlir/Dialect/LLVMIR/LLVMDialect.h"
#include "mlir/Dialect/SCF/IR/SCF.h"
#include "mlir/Transforms/DialectConversion.h"
#include "mlir/Transforms/GreedyPatternRewriteDriver.h"
"""
EXTERNAL = """#ifndef ONNX_MLIR_EXTERNAL_UTIL_H
#define ONNX_MLIR_EXTERNAL_UTIL_H
#include <map>
#include <string>
namespace onnx_mlir {
static const std::string kExecPath = "/usr/local/bin/onnx-mlir";
static const std::string kInstPath = "/usr/local";
static const std::string kDefaultTriple = "x86_64-pc-linux-gnu";
static const std::map<std::string, std::string> toolPathMap = {
    {"instPath", kInstPath}, {"opt", "/usr/lib/llvm-20/bin/opt"},
    {"llc", "/usr/lib/llvm-20/bin/llc"}, {"onnx-mlir", "onnx-mlir"},
    {"c", "/usr/bin/gcc"}, {"cxx", "/usr/bin/g++"}, {"linker", "/usr/bin/ld"},
    {"objcopy", "/usr/bin/objcopy"}, {"ar", "/usr/bin/ar"}, {"jar", ""},
    {"defaultTriple", kDefaultTriple}, {"lrodataScript", ""}};
} // namespace onnx_mlir
#endif
"""


def tablegen():
    """(output below gen/, definition file, arguments)"""
    t = []
    for d, n in (("ONNX", "onnx"), ("Krnl", "krnl")):
        for out, kind, sel in (
                ("Ops.hpp", "op-decls", ""), ("Ops.cpp", "op-defs", ""),
                ("Dialect.hpp", "dialect-decls", f" -dialect={n}"),
                ("Dialect.cpp", "dialect-defs", f" -dialect={n}"),
                ("Types.hpp", "typedef-decls", f" -typedefs-dialect={n}"),
                ("Types.cpp", "typedef-defs", f" -typedefs-dialect={n}"),
                ("Attributes.hpp", "attrdef-decls", f" -attrdefs-dialect={n}"),
                ("Attributes.cpp", "attrdef-defs", f" -attrdefs-dialect={n}")):
            t.append((f"src/Dialect/{d}/{d}{out}.inc", f"src/Dialect/{d}/{d}.td",
                      f"-gen-{kind}{sel}"))
    for d, r in (("Transforms", "Decompose"), ("Transforms", "ConstProp"),
                 ("Transforms", "ConvOpt"), ("ONNXOps", "Canonicalize")):
        t.append((f"src/Dialect/ONNX/{d}/ONNX{r}.inc", f"src/Dialect/ONNX/{d}/{r}.td",
                  "-gen-rewriters"))
    for i in ("ShapeInference", "ShapeHelper", "ResultTypeInference", "HasOnnxSubgraph",
              "SpecializedKernel"):
        for e, k in (("hpp", "decls"), ("cpp", "defs")):
            t.append((f"src/Interface/{i}OpInterface.{e}.inc",
                      f"src/Interface/{i}OpInterface.td", f"-gen-op-interface-{k}"))
    for out, td, name in (("src/Transform/PassesKrnl", "src/Transform/PassesKrnl", "TransformsKrnl"),
                          ("src/Transform/Passes", "src/Transform/Passes", "Transforms"),
                          ("src/Dialect/ONNX/Transforms/Passes",
                           "src/Dialect/ONNX/Transforms/Passes", "ONNXTransforms"),
                          ("src/Conversion/ONNXToLinalg/Passes",
                           "src/Conversion/ONNXToLinalg/Passes", "ONNXToLinalg")):
        t.append((out + ".h.inc", td + ".td", f"-gen-pass-decls -name {name}"))
    return t


def sources(repo):
    pats = ["src/Dialect/**/*.cpp", "src/Interface/*.cpp", "src/Transform/*.cpp",
            "src/Conversion/ONNXToKrnl/**/*.cpp", "src/Conversion/KrnlToAffine/*.cpp",
            "src/Conversion/KrnlToLLVM/*.cpp", "src/Conversion/KrnlSeqToMemref/*.cpp",
            "src/Conversion/ONNXConversionCommon/**/*.cpp",
            "src/Support/*.cpp", "src/Support/*.c", "src/Accelerators/*.cpp"]
    files = set()
    for p in pats:
        files |= set(glob.glob(os.path.join(repo, p), recursive=True))
    for f in ("CompilerDialects", "CompilerOptions", "CompilerPasses", "CommandUtils",
              "OptionUtils", "DisposableGarbageCollector", "JsonConfigObject"):
        files.add(f"{repo}/src/Compiler/{f}.cpp")
    return sorted(os.path.relpath(f, repo) for f in files)


RUNTIME = ["OMTensor.c", "OMTensorList.c", "OMInstrument.c", "OnnxDataType.c", "OMIndexLookup.c",
           "OMRandomNormal.c", "OMRandomUniform.c", "OMResize.c", "OMSort.c", "OMTopK.c",
           "OMUnique.c", "OMExternalConstant.c"]


def build(name, harness, extra=(), srcs=None, opt="-O0", pch=PCH, ldflags=()):
    """Build the compiler's sources and the harness into build/obj/mlirc/<name>."""
    repo = vf.REPO
    d = os.path.join(vf.BUILD, "obj", "mlirc")
    os.makedirs(d, exist_ok=True)
    over = compat.generate(os.path.join(d, "compat"))
    gen = os.path.join(d, "gen")
    compat.put(f"{gen}/pch.hpp", pch)
    compat.put(f"{gen}/ExternalUtil.hpp", EXTERNAL)
    compat.put(f"{gen}/VCSVersion.inc", "")
    compat.put(f"{gen}/src/Accelerators/Accelerators.inc",
               "#define APPLY_TO_ACCELERATORS(MACRO, ...) \\\n\n"
               "#define APPLY_TO_NO_ACCELERATORS(MACRO) \\\n  MACRO \n\n")
    for f in ("Passes.h.inc",):
        pass
    inc = [f"-I{over}", f"-I{LLVM}/include", f"-I{gen}", f"-I{repo}", f"-I{repo}/include",
           f"-I{repo}/src", f"-I{gen}/src", f"-I{vf.HARN}"]
    common = (f"-w -fPIC {opt} -D_GNU_SOURCE -DONNX_ML=1 -DONNX_NAMESPACE=onnx "
              "-D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "
              + " ".join(inc))
    L = [f"cxx = clang++ -std=c++17 {common}\n",
         "rule tg\n command = mkdir -p $$(dirname $out) && "
         f"{LLVM}/bin/mlir-tblgen $args -I{LLVM}/include -I{repo} -I{repo}/src -I$$(dirname $in) "
         "$in --write-if-changed -o $out -d $out.d\n depfile = $out.d\n deps = gcc\n restat = 1\n",
         "rule pch\n command = $cxx -MD -MF $out.d -x c++-header $in -o $out "
         "-fpch-instantiate-templates\n depfile = $out.d\n deps = gcc\n",
         "rule cxx\n command = $cxx -MD -MF $out.d $pch -c $in -o $out\n"
         " depfile = $out.d\n deps = gcc\n",
         f"rule cc\n command = clang {common} -MD -MF $out.d -c $in -o $out\n"
         " depfile = $out.d\n deps = gcc\n",
         "rule link\n command = clang++ -rdynamic @$out.rsp -o $out $ld\n"
         " rspfile = $out.rsp\n rspfile_content = $in\n"]
    incs = []
    for out, td, args in tablegen():
        o = f"{gen}/{out}"
        incs.append(o)
        L.append(f"build {o}: tg {repo}/{td}\n args = {args}\n")
    L.append(f"build incs: phony {' '.join(incs)}\n")
    L.append(f"build pch.pch: pch {gen}/pch.hpp || incs\n")
    objs = []
    todo = [f"{repo}/{s}" for s in (srcs(repo) if srcs else sources(repo))]
    todo += [f"{repo}/src/Runtime/{s}" for s in RUNTIME]
    todo += [os.path.join(vf.HARN, h) for h in [harness, *extra]]
    # The longest to compile first.
    todo.sort(key=lambda f: -os.path.getsize(f))
    for first in ("ONNXOps.cpp", "ONNXDialect.cpp"):
        todo.sort(key=lambda f: not f.endswith("/" + first))
    for f in todo:
        o = os.path.relpath(f, "/").replace("/", "_") + ".o"
        objs.append(o)
        if f.endswith(".c"):
            L.append(f"build {o}: cc {f}\n")
        else:
            L.append(f"build {o}: cxx {f} | pch.pch\n pch = -include-pch pch.pch\n")
    ld = (f"-L{LLVM}/lib -Wl,-rpath,{LLVM}/lib -lMLIRExecutionEngineShared -lMLIR -lLLVM-20 "
          + " ".join(ldflags) + " -lpthread -ldl -lm")
    L.append(f"build {name}: link {' '.join(objs)}\n ld = {ld}\n")
    compat.put(f"{d}/{name}.ninja", "\n".join(L))
    t = time.time()
    r = subprocess.run(["ninja", "-C", d, "-f", f"{name}.ninja", name], capture_output=True, text=True)
    if r.returncode:
        raise vf.CheckError("build of the compiler failed:\n" + r.stdout[-6000:] + r.stderr[-2000:])
    vf.log(f"built {name} in {time.time()-t:.1f}s")
    return os.path.join(d, name)
