#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, over_text, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=over_text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=hook)))

R = "src/Runtime/"
prop("C01", "Tensor and tensor-list buffers are released exactly once, by their owner",
 "For every sequence of tensor and tensor-list API calls that respects the documented preconditions, a data buffer is released exactly when the tensor owning it is destroyed (directly or through a deep list destroy) or is given another data pointer, never when no tensor owns it (caller-owned buffers, shallow list destroy, ownership given up), and never twice. "
 "The data pointer, allocated pointer, ownership flag, list size and list elements reported in between are those the history of calls implies, out-of-range list indexes and null handles being answered with null or zero. "
 "When every object has been destroyed, all memory the runtime allocated for it has been returned.",
 ["histories"], "all interleaved histories of create / re-point / change-ownership / destroy calls over several tensors, buffers and lists, in both the C and the C++ build of the runtime",
 "OMTensorTest creates one tensor and destroys it once; ownership transfer, re-pointing, shallow versus deep destroy and their combinations are never exercised, and a double free or leak shows only on particular histories.",
 [R+"OMTensor.inc", R+"OMTensorList.inc"],
 [("owning flag decides who frees", R+"OMTensor.inc: omTensorDestroy, omTensorSetDataPtr, omTensorSetOwning"),
  ("deep and shallow destroy", R+"OMTensorList.inc: omTensorListDestroy, omTensorListDestroyShallow")],
 ["C API of OMTensor.h / OMTensorList.h"])
prop("C02", "Tensor metadata, addressing and printing agree with shape, strides and type",
 "For every rank, shape, stride vector and element type, a tensor reports exactly the metadata last given to it, with dense row-major strides by default (also when created empty or by the typed C++ creator), the element count and byte size implied by its shape and type, and byte strides converted to element strides. "
 "Every multi-index addresses the element at the sum of index times stride, and the enumerated index set is exactly the row-major product of the dimensions. "
 "Printing shows the type, signature and every element in row-major index order through the strides, interpreting each format marker of the message once, and comparing two tensors for closeness accepts exactly equal-shape tensors whose elements all differ by at most the relative and absolute tolerance.",
 ["inputs"], "all ranks 0 to 6, shapes, strides (dense, padded, permuted), element types and print formats within small bounds, plus sampled larger ones",
 "The unit test checks strides of one fixed shape; printing, non-dense strides and most element types are untested.",
 [R+"OMTensor.inc", R+"OnnxDataType.inc", "include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc"],
 [("row-major stride computation", R+"OMTensor.inc: omTensorCreate, computeStridesFromShape"),
  ("offset computation", R+"OMTensor.inc: computeElemOffset"), ("printing", R+"OMTensor.inc: omTensorPrint")],
 ["OMTensor.h API", "stdout of omTensorPrint"])
prop("C03", "Runtime sort yields the stable order of every row",
 "For every data tensor of a supported numeric element type and rank 1 to 6, sorting along the last axis rewrites the index tensor so that each row lists every position of that row exactly once, in ascending (or descending) order of the data values, positions holding equal values keeping their original relative order. "
 "Rows do not influence each other and the data tensor is not modified. ",
 ["inputs"], "all shapes, element types (signed, unsigned, 16-bit and wider floats, bool), value patterns with ties, both directions",
 "No existing test runs the runtime sort; stability, unsigned or negative ordering and row isolation need all inputs, not a sample.",
 [R+"OMSort.c", R+"OMSort.h"], [("typed comparators with index tie-break", R+"OMSort.c")], ["omTensorSort"])
prop("C04", "Runtime TopK returns the K best elements in the documented order",
 "For every input, rank, K up to the row length and direction, each output row lists K distinct positions of the corresponding input row such that no unselected element beats a selected one, ties being broken in favour of the lower index. "
 "When sorted output is requested the positions appear from best to worst with equal values in increasing index order, and the input is not modified.",
 ["inputs"], "all rows over small value domains and all K, for every element type and rank, crossing the internal switch between selection and full sort",
 "No existing test calls the runtime TopK; selection and heap code is wrong only on particular value arrangements.",
 [R+"OMTopK.c"], [("heap selection or sort", R+"OMTopK.c")], ["omTensorTopK"])
prop("C05", "Runtime Unique finds exactly the distinct elements or slices",
 "For every input, flattened or along any valid axis, the reported number of unique entries is the number of distinct values (or sub-tensors), and the output holds each exactly once, in ascending (lexicographic) order when sorting is requested and in order of first occurrence otherwise. "
 "The optional index outputs give the first occurrence of each unique entry, the inverse mapping that rebuilds the input, and the multiplicities, which sum to the number of entries; any subset of the optional outputs may be requested, and a count-only call returns the same count.",
 ["inputs"], "all small tensors of rank 1 to 3, all axes, sorted or not, all subsets of outputs, all element types",
 "No existing test runs it; the four outputs must be mutually consistent for every input and every subset of requested outputs.",
 [R+"OMUnique.c", R+"OMUnique.h"], [("slice comparison and insertion", R+"OMUnique.c")], ["omTensorUnique", "omTensorUniqueCount"])
prop("C06", "Perfect-hash category lookup agrees between compiler and runtime",
 "For every set of distinct 64-bit integer or string keys for which the compiler builds lookup tables, the runtime lookup with these tables maps the i-th key (as laid out by the tables) to its position and never maps two keys to one position. "
 "The tables form a bijection over the whole key set.",
 ["inputs"], "all small key sets and large random ones, including negative and extreme integers, and empty, long and prefix-sharing strings",
 "The hash function exists twice, once in the compiler and once in the runtime, and no test runs both; they must agree on every key.",
 ["src/Support/PerfectHash.cpp", R+"OMIndexLookup.c"], [("FNV hash of the key text", "src/Support/PerfectHash.cpp: hash, "+R+"OMIndexLookup.c: hash_string, hash_int64")], ["PerfectHash constructor tables", "find_index_str", "find_index_i64"])
prop("C07", "Instrumentation accounts for every reported event once, in order",
 "For every sequence of instrumentation points, print requests and environment settings, each time report names the operation, its node and the phase in the order executed, before/after pairs of one operation are attributed to that operation, no event is lost, repeated or reported under another node, and buffered events appear at the next print request, report point or when the buffer is full. "
 "Environment settings switch time, memory or all reports off without changing the operation and node reported as current, the start banner appears once per initialisation, and reports go to the requested file or to standard output.",
 ["histories","configurations"], "all event sequences over small alphabets, sequences crossing the buffer capacity, all environment settings",
 "TestInstrumentation runs one fixed sequence and checks none of the output.",
 [R+"OMInstrument.c", R+"OMInstrumentHelper.h"], [("record buffer and flush", R+"OMInstrument.c: flushRecordBuffer"), ("environment gates", R+"OMInstrument.c: OMInstrumentInit")], ["OMInstrument API and report text"])
prop("C08", "External constants load all or nothing, once",
 "Loading external constants succeeds only if the file exists (under the configured constant directory when one is set, else at the given path), has at least the stated positive size and was written for the same endianness, and then every constant address maps to that file's bytes at the constant's offset. "
 "Loading again after success changes nothing and succeeds; every failed load returns failure, leaves the model unloaded and can be retried with success once the cause is gone; unloading releases the mapping.",
 ["histories","fault_sequences"], "all sequences of load, resolve and unload over good, missing, truncated and wrong-endian files and directory settings",
 "No existing test loads constants; failure and retry paths need fault sequences.",
 [R+"OMExternalConstant.c"], [("load-once check and mmap", R+"OMExternalConstant.c: omMMapBinaryFile / omLoadConstantData")], ["omLoadConstantData", "omGetExternalConstantAddr", "omUnloadConstantData"])
prop("C09", "An execution session reports, runs and restores faithfully",
 "For every model library and history of calls, a session either is fully initialised with the model's entry points, signatures and compilation information, or construction fails with an error; every call uses the entry point selected last with success, missing symbols, unknown entry points and failing runs surface as errors and never as a wrong result, and a session remains usable after an error. "
 "The model's tag selects the symbols looked up (explicit tag, library name, or none). "
 "Environment variables and signal handlers the session changes are back at their previous values after each call, also when the call fails or the model crashes.",
 ["histories","fault_sequences"], "all histories of construct, query, set entry point and run calls, over model libraries with missing symbols, several entry points, failing and crashing inference",
 "The repository's model tests need a full compiler build and only exercise success paths.",
 [R+"ExecutionSession.cpp", R+"ExecutionSession.hpp"], [("symbol resolution and checks", R+"ExecutionSession.cpp: loadModel, Init, setEntryPoint"), ("handler save and restore", R+"ExecutionSession.cpp: runDebug")], ["ExecutionSession API"])
prop("C10", "The Python session passes arrays in and out unchanged and unshared",
 "For every input array (any supported dtype, shape, memory layout, writable or not), the model sees exactly the array's logical elements, the caller's array is unchanged afterwards, and the returned arrays hold exactly what the model produced with the right dtype and shape. "
 "Returned arrays stay valid for as long as they are referenced, whatever happens to inputs, session and other outputs, memory is released once when the last reference goes, and errors surface as Python exceptions.",
 ["inputs","histories"], "all dtype/layout/rank combinations, aliasing of outputs with inputs and with each other, and orders of releasing them",
 "No stable test runs the Python session; layout and ownership mistakes appear only for particular layouts and release orders.",
 [R+"python/PyExecutionSession.cpp", R+"python/PyRuntime.py"], [("array to tensor conversion", R+"python/PyExecutionSession.cpp"), ("ownership transfer to the returned array", R+"python/PyExecutionSession.cpp")], ["PyExecutionSession.run"])
prop("C11", "Signature-driven inputs match the signature and the requested values",
 "From any well-formed input signature, the generated input list has one tensor per signature entry, in order, with the entry's element type and shape, dynamic dimensions taking the value given for that input (or the default), and its values lie in the range that applies to it: per-input overrides first, then per-type defaults, then built-in defaults. "
 "The same seed yields the same data, a fill request of a given size yields the requested content, string tensors hold well-formed strings, and malformed signatures or shape requests are rejected with null and never with a crash or a partial list.",
 ["inputs","histories"], "all signatures and shape/value option strings over a small grammar, malformed mutations, and seeds",
 "No stable test covers the helper; option precedence and malformed inputs need enumeration.",
 [R+"OMTensorListHelper.cpp", R+"OMTensorHelper.cpp"], [("signature parsing", R+"OMTensorListHelper.cpp"), ("random fill", R+"OMTensorHelper.cpp")], ["omTensorListCreateFromInputSignature", "omTensorCreateWithRandomData"])
prop("C12", "Runtime random generators honour seed, bounds and distribution parameters",
 "For every size, bound or mean and scale, and seed, the uniform and normal generators fill exactly the requested elements and nothing else, uniform values lie between the bounds, and the same non-missing seed always produces the same sequence, whatever was generated before. "
 "Scaling is exact: the values produced for given parameters are the affine image of those produced for the standard parameters with the same seed.",
 ["histories","inputs"], "all interleavings of generator calls with different seeds, sizes and element types",
 "No existing test runs the generators; reproducibility is a property of histories of calls.",
 [R+"OMRandomNormal.c", R+"OMRandomUniform.c"], [("seeding and Box-Muller", R+"OMRandomNormal.c"), ("seeding and scaling", R+"OMRandomUniform.c")], ["get_random_normal_value_f32/f64", "get_uniform_random_value_f32/f64"])
prop("C13", "Runtime Resize interpolates exactly as the mode requires",
 "For every rank-4 input, scale factors and supported mode, each output element is the interpolation of the input elements that the coordinate transformation and mode define at its index, borders included. "
 "Identity scale reproduces the input, interpolation never reads outside the input, and no element outside the output is written.",
 ["inputs"], "all small shapes, integer and fractional scale factors, modes and coordinate transformations over exactly representable values",
 "No existing test runs the runtime resize; index arithmetic at borders needs all small shapes and scales.",
 [R+"OMResize.c"], [("coordinate transform and interpolation", R+"OMResize.c")], ["Resize_Scales / Resize_Size"])
EA = "src/Dialect/ONNX/ElementsAttr/"
prop("C14", "Constant-tensor operations compute the ONNX result on every view",
 "For every chain of constant-folding operations (element-wise maps, casts, clipping, where, transpose, reshape, expand, split, concat, slice, pad, gather, scatter, reduce, matrix multiplication, range, non-zero, equality), the resulting constant denotes exactly the tensor ONNX defines for that chain, whether its operands are dense, splat, strided views or lazily transformed data. "
 "Reading a constant by iteration, by index, as raw bytes or after conversion to a dense attribute gives the same values, and operands are unchanged.",
 ["programs","inputs"], "all operation chains up to a small depth over small shapes, and random deeper ones, with every representation of the operands",
 "TestStrides and friends check single helper calls; wrong strides or a stale lazy transformation appear only in particular chains.",
 [EA+"ElementsAttrBuilder.cpp", EA+"DisposableElementsAttr.cpp", EA+"Strides.cpp", EA+"ElementsAttrHelper.cpp", EA+"WideNum.hpp", EA+"StridesRange.hpp"],
 [("shared buffers with strides and lazy transformers", EA+"DisposableElementsAttr.hpp"), ("view-producing builders", EA+"ElementsAttrBuilder.cpp")], ["ElementsAttrBuilder", "mlir::ElementsAttr interface"])
prop("C15", "Disposable constants live while reachable and survive as dense constants",
 "For every history of creating constants, running garbage collection, replacing disposable constants and closing the pool, constants reachable from the operations given keep their values, unreachable ones give up their memory at the next collection, and a buffer is released exactly when the last constant sharing it is disposed. "
 "After replacement the operations hold equal non-disposable constants, after closing only non-disposable constants are created, and concurrent creation from several threads loses none.",
 ["histories","schedules"], "all histories of pool operations over a few constants sharing buffers, and concurrent creation",
 "No stable test covers the pool; lifetime errors depend on the order of creation, collection and closing.",
 [EA+"DisposablePool.cpp", EA+"DisposablePool.hpp", EA+"DisposableElementsAttr.cpp"], [("mark and sweep over reachable attributes", EA+"DisposablePool.cpp")], ["DisposablePool API"])
C = "src/Compiler/"
prop("C16", "The compile driver reports success only for an output that exists",
 "For every model path, flag string and compiler behaviour, a compilation session is successful only if the compiler exited with status zero and the announced output file exists, and then reports that output and constant file, the input used and the model tag; otherwise it throws an error whose category names the failure. "
 "Getters throw until a compilation succeeded and reflect the latest compilation only, so a failed recompilation makes the earlier result unavailable.",
 ["histories","configurations","fault_sequences"], "all histories of successful and failing compilations over model paths, flags, and compiler exits (status, signal, missing output, missing executable)",
 "No stable test compiles; failure paths depend on what the child process does.",
 [C+"OMCompile.cpp", "include/OMCompile.hpp"], [("compile state machine", C+"OMCompile.cpp: compile")], ["OMCompile API with a stand-in compiler"])
prop("C17", "Predicted output names and parsed flags agree with what is compiled",
 "For every flag string, splitting it yields the arguments a shell-like quoting rule defines, and the output file, constant file, input file and model tag predicted from the flags are those a compiler run with these flags is asked to produce: an explicit output name wins over the default derived from the input, the suffix follows the last emission target. "
 "Prediction before compilation and the result after it agree.",
 ["inputs","configurations"], "all flag sequences over a small alphabet of options, with quoting and escapes, and model paths with and without directories and extensions",
 "No stable test covers flag parsing; agreement must hold for each combination of options.",
 [C+"CommandUtils.cpp", C+"OMCompile.cpp"], [("flag splitting and option search", C+"CommandUtils.cpp")], ["parseFlags", "getOutputFilename", "predict functions"])
prop("C18", "A command's outcome, directory and log are reported faithfully",
 "For every command, argument list, working directory and log destination, the child receives exactly the non-empty arguments given, in order and unsplit, runs in the requested directory, and its output goes to the log when one is given; the parent's working directory is unchanged afterwards. "
 "The call returns success exactly when the child exited with the accepted status, and reports a missing or non-executable program, a non-zero status or a fatal signal each as its own error.",
 ["inputs","fault_sequences"], "all argument contents (spaces, quotes, dollar signs, empty), child outcomes (status, signal, unstartable), directories and log settings, in sequence",
 "No stable test executes commands; failure kinds need fault enumeration.",
 [C+"Command.cpp"], [("fork, exec and wait", C+"Command.cpp: exec")], ["Command API with stand-in programs"])
prop("C19", "Containerised compilation sees the caller's files at the caller's paths",
 "For every image, engine availability and set of input and output paths, the container command runs the first available engine, mounts every directory the compilation needs so that each path the compiler is given names inside the container the caller's file, forwards the compiler's arguments unchanged, and pulls the image only when it is missing. "
 "When no engine is available, or the engine fails, an error is raised and nothing is executed natively in its place.",
 ["configurations","fault_sequences"], "all combinations of engines present, image present, nested container settings, and path layouts",
 "No stable test uses containers; the generated command depends on the host configuration.",
 [C+"Command.cpp", C+"OMCompile.cpp"], [("engine detection and mounts", C+"Command.cpp")], ["stand-in docker and podman recording their arguments"])
prop("C20", "Regular-expression option selection matches exactly the listed names",
 "For every comma-separated option string and every queried name, the option is enabled exactly when the string is the all marker or one of its entries matches the whole name, with dots taken literally and stars matching any text unless entries are full regular expressions; the empty string selects the configured default and the none marker nothing. "
 "The answer for a name never depends on which names were queried before.",
 ["inputs","histories"], "all option strings and names over a small alphabet including dots, stars, commas, and all query orders",
 "No stable test covers it; escaping and caching mistakes need specific patterns and query orders.",
 ["src/Support/Diagnostic.cpp", "src/Compiler/OptionUtils.cpp", "src/Compiler/OptionUtils.hpp"], [("pattern splitting, escaping and cache", "src/Compiler/OptionUtils.cpp")], ["EnableByRegexOption"])
prop("C21", "Compiler options and configuration behave as keyed stores",
 "For every history of setting, reading and clearing compiler options, reading an option returns the value set last (or appended, for the options documented to accumulate), clearing restores the documented default, invalid values are rejected without changing the state, and options never affect each other. "
 "Named configuration lists return exactly the entries added and not deleted, and a configuration file is read once, supplies exactly the entries present in it, and is overridden by explicit options.",
 ["histories","configurations"], "all histories of set, get, clear, add, delete and load operations over all option kinds",
 "No stable test covers it; order dependence needs histories.",
 [C+"CompilerOptions.cpp", C+"JsonConfigObject.cpp"], [("per-option setters and getters", C+"CompilerOptions.cpp"), ("load-once JSON configuration", C+"JsonConfigObject.cpp")], ["setCompilerOption / getCompilerOption / addCompilerConfig"])
prop("C22", "The compiled-model cache never returns another model's session",
 "For every history of lookups, insertions, evictions and removals, the cache returns for a key only the session stored last for that key, never more than its capacity is held in memory, and the evicted entry is the least recently used one. "
 "An entry absent from memory but present in its directory on disk is recovered from there like any insertion, entries removed or cleared leave memory at once, and every operation succeeds whatever operations came before (insertions making room first, as documented).",
 ["histories"], "all histories of get, put, evict, remove and clear over a few more keys than the capacity, with entries on disk or not",
 "No stable test covers it; recency order is a property of histories.",
 ["src/Runtime/python/torch_onnxmlir/sessioncache.py"], [("access-order list", "sessioncache.py")], ["SessionCache methods with a stub session type"])
prop("C23", "Small-float conversions round correctly and round-trip",
 "For every bit pattern of a 16-bit or 8-bit float format, conversion to a wider type is exact and converting back yields the same number (any NaN staying NaN). "
 "For every float value, conversion to a small format yields the nearest representable value, ties to even, with the format's own rule for overflow, signed zero, subnormals and NaN.",
 ["inputs"], "all bit patterns of the small formats, and for the wider inputs every value adjacent to a rounding boundary",
 "TestSmallFP checks a list of values; each rounding boundary is a separate case.",
 ["src/Support/SmallFP.cpp", "src/Support/SmallFP.hpp", "src/Support/SmallFPConversion.c", "src/Support/SmallFPConversion.h"], [("bit manipulation", "src/Support/SmallFPConversion.c"), ("generic small float", "src/Support/SmallFP.hpp")], ["om_f16_to_f32 and friends", "float_16, bfloat_16, float_8E* classes"])
prop("C24", "Documentation checks accept exactly the documents that quote faithfully",
 "For every document, the check passes exactly when each code block marked as quoting a file (or a command's output) equals that content line by line, with the declared leading lines of document or reference skipped. "
 "Any difference, missing file or marker without a usable configuration is an error, only the named directories are excluded, and text outside marked blocks never matters (declared skips stay within their block).",
 ["inputs"], "all small documents over a line alphabet with directives, quoted files and skip counts, and the differences between them",
 "The doc_check tests cover two fixed documents; faithful acceptance is a statement about all documents.",
 ["docs/doc_check/check.py", "docs/doc_check/doc_parser.py", "docs/doc_check/directive.py"], [("directive parsing and block comparison", "docs/doc_check")], ["check.py main on a scratch tree"])

O = "src/Conversion/ONNXToKrnl/"
D = "src/Dialect/ONNX/"
prop("C25", "The compiled code of every operator computes the ONNX result",
 "For every operator the compiler lowers, every choice of its attributes and optional inputs, and every input within the supported element types, the code compiled from a model of that operator returns the tensors (type, shape and elements) that the ONNX specification defines, whether the shapes are known or dynamic at compile time and at every optimisation level. "
 "Running it again with the same inputs returns the same, the caller's inputs are left as they were, no memory outside the tensors and buffers is accessed, nothing is left allocated once the outputs have been destroyed, and each output can be destroyed exactly once. ",
 ["inputs"], "143 operators (element-wise, reductions, movement, indexing, sorting, matrix, convolution, pooling, normalisation, quantisation, recurrent), all their attributes, shapes to rank 4, element types, special values, static and dynamic shapes, -O0 and -O3",
 "The lit tests compare the text of the generated code and the numerical backend tests need a runtime environment that is not part of the unit tests; both sample a handful of shapes and attributes, while correctness of a lowering is a statement about all of them.",
 [O+"Math/Elementwise.cpp", O+"Math/Reduction.cpp", O+"Math/MatMul.cpp", O+"Math/Gemm.cpp", O+"NN/Conv.cpp", O+"NN/Pooling.cpp", O+"NN/Normalization.cpp", O+"RNN/LSTM.cpp", O+"Tensor/Slice.cpp", O+"Tensor/Gather.cpp", O+"Tensor/ScatterND.cpp", O+"Tensor/Pad.cpp", D+"Transforms/Decompose.cpp", "src/Conversion/KrnlToLLVM/KrnlEntryPoint.cpp"],
 [("lowering of each operator", O+"ConvertONNXToKrnl.cpp: populateONNXToKrnlConversionPattern"), ("decomposition into other operators", D+"Transforms/Decompose.cpp"),
  ("loops and buffers of the generated code", "src/Conversion/KrnlToAffine, src/Conversion/KrnlToLLVM"), ("ownership of the outputs", "src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp: determineOwnershipForOutputOMTensors")],
 ["outputs, inputs and heap around each run of a compiled model"])
prop("C26", "Inferred types admit every tensor a model computes",
 "For every model and whatever is known of the shapes of its inputs, the type the compiler infers for each output has the element type of the tensor that output computes and a shape that agrees with it in rank and in every dimension the type gives as known. "
 "When the shapes of the inputs and the operands that determine shapes are known at compile time, and no result shape depends on other data, every output type is completely known. ",
 ["inputs"], "all operators alone and random graphs of 2 to 6 operators, with static, partly dynamic and dynamic input shapes and parameters given as constants or as inputs",
 "Shape inference tests list particular operand shapes; soundness of an inferred dimension is a statement about all inputs the type admits.",
 [D+"ONNXOps/ShapeHelper.cpp", D+"ONNXOps/Math/Reduction.cpp", D+"ONNXOps/Math/MatMul.cpp", D+"ONNXOps/NN/Conv.cpp", D+"ONNXOps/NN/Pooling.cpp", D+"ONNXOps/Tensor/Slice.cpp", D+"ONNXOps/Tensor/Reshape.cpp", D+"ONNXOps/Tensor/Split.cpp", D+"Transforms/ShapeInference.cpp", D+"ONNXDimAnalysis.cpp"],
 [("shape helpers", D+"ONNXOps"), ("propagation through the graph", D+"Transforms/ShapeInferencePass.cpp, ONNXHybridTransformPass.cpp")],
 ["types of the values returned after the ONNX-level passes"])
prop("C27", "What is known at compile time is computed with the same result",
 "For every model, turning any of its inputs into constants of the same value changes no result: constant propagation, simplification, decomposition and recomposition of the graph, and the storage of constants in the compiled model, preserve type, shape and elements of every output. "
 "An output the compiler has reduced to a constant is the tensor the model computes. ",
 ["inputs"], "all operators alone, random graphs of 2 to 6 operators and combinations the compiler rewrites, with all, some or only the parameter inputs constant, at -O0 and -O3",
 "Constant propagation tests fix operands and expected text; that folding and rewriting agree with running is a statement about all graphs and all subsets of known inputs.",
 [D+"Transforms/ConstProp.cpp", D+"Transforms/ConstProp.td", D+"ONNXOps/Canonicalize.cpp", D+"ONNXOps/Canonicalize.td", D+"Transforms/Decompose.cpp", D+"Transforms/Decompose.td", D+"Transforms/Recompose.cpp", D+"Transforms/ConvOpt.cpp", D+"ElementsAttr/ElementsAttrBuilder.cpp", "src/Conversion/KrnlToLLVM/KrnlGlobal.cpp"],
 [("constant propagation", D+"Transforms/ConstProp.cpp"), ("canonicalisation", D+"ONNXOps/Canonicalize.cpp"), ("constants of the compiled model", "src/Conversion/KrnlToLLVM/KrnlGlobal.cpp")],
 ["constants returned after the ONNX-level passes; outputs of compiled models"])
prop("C28", "Compiler options and unknown shapes change no result of a graph",
 "For every graph of operators, every optimisation level and every combination of the options that select optimisations (operator fusion, SIMD, convolution rewrites, recomposition, hybrid passes, removal of write-only buffers, prefetching, safe code generation), and however many dimensions are left dynamic, the compiled model returns the outputs that the ONNX specification defines for it, leaves its inputs unchanged, stays within its memory and leaks none. ",
 ["inputs"], "random graphs of 2 to 8 operators and 33 families of combinations the compiler rewrites, with their near misses, with shared intermediate results and several outputs, random sets of options, static, partly dynamic and dynamic shapes",
 "The tests compile each option with a few operators; interactions of fusion, vectorisation, buffer deallocation and dimension analysis appear only in particular graphs.",
 [O+"Math/Elementwise.cpp", "src/Compiler/CompilerPasses.cpp", "src/Transform", D+"Transforms/ONNXHybridTransformPass.cpp", D+"Transforms/Recompose.cpp", D+"ONNXDimAnalysis.cpp", "src/Conversion/KrnlToAffine/ConvertKrnlToAffine.cpp"],
 [("fusion of element-wise operations", O+"Math/Elementwise.cpp: OpFusionHelper"), ("vectorisation and collapsing of loops", D+"ONNXOps/ShapeHelper.cpp: hasManageableBroadcastForInnerDims"), ("dimension analysis", D+"ONNXDimAnalysis.cpp"), ("buffers", "src/Compiler/CompilerPasses.cpp: addKrnlToLLVMPasses")],
 ["outputs, inputs and heap around each run of a compiled model"])
C=O+"ControlFlow/"
prop("C29", "If, Loop and Scan run their bodies as ONNX says",
 "For every model with If, Loop and Scan nodes, the compiled code runs the branch the condition selects, iterates as often as the trip count, the condition (which the body may change) and the scanned tensors say, none at all included, hands each iteration the iteration number, the condition and the values the one before returned, collects what is to be collected in order, and lets bodies use the tensors around them. "
 "Outputs are those of the ONNX specification whether shapes, conditions and trip counts are known at compile time or not; inputs stay as they were, and memory is neither overrun, freed twice nor leaked, also where results of a body are arguments, constants or tensors from outside it. ",
 ["inputs"], "random bodies of up to 4 of 56 operators, carried values that keep, change or swap places, 0 to 4 iterations, conditions from inputs, constants or computed per iteration, four states of knowledge, and bodies within bodies",
 "The lit tests compare the text generated for a handful of bodies; which buffers share memory and what happens at zero iterations or when values swap depends on the body, the trip count and the condition.",
 [C+"If.cpp", C+"Loop.cpp", C+"Scan.cpp", C+"Yield.cpp", D+"ONNXOps/ControlFlow/Loop.cpp", D+"ONNXOps/ControlFlow/Scan.cpp"],
 [("branches", C+"If.cpp, Yield.cpp"), ("iterations and carried values", C+"Loop.cpp, Scan.cpp"), ("moving the loops of bodies", "src/Conversion/KrnlToAffine/ConvertKrnlToAffine.cpp: LoopBodyMover"), ("ownership of what branches yield", "src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp: shouldOwn")],
 ["outputs, inputs and heap around each run of a compiled model"])

N="src/Accelerators/NNPA/Support/Stickify/"
prop("C30", "Constants for the accelerator have every element in its place, rightly rounded",
 "For every constant of every supported layout (1D to 4D, batched, NHWC, NCHW, HWCK, the gates of LSTM and GRU weights and biases, also above a bidirectional layer, and int8 weights), the transformed descriptor has the dimensions, layout, format and type the accelerator expects, the buffer has exactly the size its pages need and starts on a page, and stickification puts every element into its own place of the right stick and page and zeros everywhere else (int8 weights: what lies between is free), reading the input and writing the buffer only within their bounds and leaving the input as it was. "
 "Numbers become the nearest DLFLOAT16, ties away from zero, saturating at the largest, and zero below the smallest; NaN stays NaN; widening a DLFLOAT16 gives exactly its value. What cannot be done (descriptor of a wrong layout, odd halves, buffer missing, too small or not on a page, a tensor that already holds data) is refused with its status and changes nothing.",
 ["inputs"], "shapes around the sizes of sticks (64 elements) and pages (32 sticks) in every dimension, every layout, use and direction of a recurrent layer, good and bad buffers, all 65536 DLFLOAT16 patterns, floats around every boundary between them",
 "The NNPA lit tests encode a few small constants, and only on builds with the accelerator; where an element goes depends on every dimension at once.",
 [N+"Stickify.cpp", N+"Stickify.hpp", N+"Convert.cpp", N+"DLF16Conversion.hpp"],
 [("descriptors", N+"Stickify.cpp: generate_transformed_desc, generate_transformed_desc_concatenated, set_info_pre_transformed_desc"), ("places", N+"Stickify.cpp: transform_ztensor, transform_bidir_weight_ztensor, transform_quantized_weights_ztensor_element_wise"), ("gates and slices", N+"Stickify.cpp: stickify"), ("rounding", N+"Convert.cpp, DLF16Conversion.hpp")],
 ["descriptors, statuses, buffers between inaccessible pages, converted numbers"])

Z="src/Accelerators/NNPA/Runtime/zdnnx/"
prop("C31", "Accelerator operations in tiles give the result of the whole operation",
 "For every tensor of a supported layout (1D to 4D, batched, NHWC, NCHW) larger than the accelerator takes in a dimension or in total, the zdnnx runtime's elementwise operations, softmax and matrix products (plain, stacked, either side broadcast, transposed) give exactly what the operation on the whole gives, with one worker or several: every call of the accelerator stays within its largest dimensions (which zdnnx takes from the library), on a tile that lies within its tensor. "
 "A tensor cut as requested has ceil(dimension / tile) tiles per axis (tiles of the two inner axes are whole pages), tile i covers exactly its part, the last one the rest; loading a tile gives that part, storing it changes that part only, in any order. Inputs and (below 3 MB) the descriptors stay as they were, and tile buffers are freed.",
 ["inputs", "schedules"], "shapes around the sizes of sticks, pages and the accelerator's limits, limits of five kinds, sizes that force further cuts, 1 to 7 workers, requested tile sizes smaller, equal and larger than the tensor",
 "No test of the repository builds this runtime without the accelerator's library, and the limits of the hardware (32768) keep small examples from ever being cut.",
 [Z+"zdnnx.c", Z+"utils.c", Z+"seq_ops.c", Z+"omp_ops.c", Z+"zdnnx_ops.c", Z+"zdnnx_ops_private.c"],
 [("the cut and its tiles", Z+"zdnnx.c: zdnnx_prepare_split_info, zdnnx_set_tile, copy_data_for_tile; utils.c: zdnnx_is_full_tile"), ("tile sizes and loops", Z+"seq_ops.c, omp_ops.c"), ("dispatch and limits", Z+"zdnnx_ops.c, zdnnx_ops_private.c")],
 ["results, statuses, inputs, descriptors and live buffers around each operation; calls of the accelerator"])

PIDS = [p["id"] for p in P]

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    sys.path.insert(0, os.path.join(V, "tools"))
    from manifest import CHECKS, NA, HOOKS
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[])
    for c in CHECKS:
        pid = c["property"]
        assert pid in PIDS
        m["checks"].append(dict(property=pid, quick_cmd=f"python3 checks/run.py {pid}",
            thorough_cmd=f"env VERIF_TIER=thorough python3 checks/run.py {pid}", **{k: v for k, v in c.items() if k != "property"}))
    claimed = {c["property"] for c in CHECKS}
    for pid, r in NA.items():
        m["not_applicable"].append(dict(property=pid, reason=r))
    for pid in PIDS:
        if pid not in claimed and pid not in NA:
            m["not_applicable"].append(dict(property=pid, reason="check not built yet"))
    if HOOKS:
        m["hooks"] = HOOKS
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
