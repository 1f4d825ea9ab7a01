CHECKS = []
NA = {}
HOOKS = None
def chk(p, technique, note, level="model_checking"):
    CHECKS.append(dict(property=p, technique=technique, level=level, level_note=note))
chk("C01", "TLA+ spec TensorLife, TLC exhaustive; transition-tour replay in the real C and C++ runtime",
    "Every transition of the bounded lifecycle model is executed in the real code and the projected state and heap releases compared; trusts the bound (2-3 buffers, 2 tensors, 1-2 lists) and ASan's allocator hooks.")
chk("C02", "TLA+ spec TensorMeta; TLC validates recorded call histories of the C and C++ runtime",
    "Exhaustive small shapes and sampled larger ones; every recorded report, address, printed text and comparison is decided by the specification; sizes below 2^31.")
chk("C03", "TLA+ spec RowOps (SortOK); TLC decides every recorded sort of the real runtime",
    "Exhaustive short rows over three-value domains for every element type, sampled shapes to rank 6; no NaN.")
chk("C04", "TLA+ spec RowOps (TopKOK); TLC decides every recorded TopK of the real runtime",
    "Exhaustive short rows and all K for every element type, sampled larger ones across the heap/sort switch; no NaN.")
chk("C05", "TLA+ spec RowOps (UniqueOK); TLC decides every recorded Unique of the real runtime",
    "Exhaustive small tensors, all axes and all subsets of outputs, sampled to rank 6; no NaN.")
chk("C06", "TLA+ spec PerfectHash (TLC over every hash function of small size) and PerfectHashTrace (TLC decides recorded tables and lookups)",
    "The construction is model-checked for all hash functions up to 3 keys; the real tables and lookups are decided on exhaustive small and sampled large key sets; strings without NUL.")
chk("C07", "TLA+ spec Instrument; TLC validates recorded histories of the real instrumentation runtime",
    "Random nested histories over all settings, report files and both protocols, sequences around and beyond the buffer capacity; memory figures come from a stand-in ps.")
chk("C08", "TLA+ spec ExtConst, TLC exhaustive; transition-tour replay in the real loader (mmap and read builds) with injected faults",
    "Every transition of the bounded model is executed against scratch files; map and read failures come from stand-ins for the system calls, open failures from the descriptor limit.")
chk("C09", "TLA+ spec ExecSess; TLC validates recorded session histories of the real code over stand-in model libraries",
    "Random histories over two session slots (construct, load, select, query, fill, run in four variants, crash, environment and handler changes) over 12 libraries with missing symbols, several tags and entry points; libraries report their loading, environment and the calls they get; TLC decides every reply, the loaded libraries, the environment and the signal state after each call.")
chk("C11", "TLA+ spec InputGen (what a request means, generator as unknown function of the seed); TLC decides every recorded input list",
    "Random signatures, shape, value and bound requests with free spacing, every kind of malformed text, repeated seeds; values compared in fixed point (2^-16), large integers exactly; heap balance observed.")
chk("C12", "TLA+ spec RandomGen (generator as unknown function of the seed); TLC validates recorded call histories",
    "Random histories over sizes, bounds, seeds and types; scaling by powers of two bit-exact, other parameters within fixed-point accuracy; non-negative seeds.")
chk("C13", "TLA+ spec Resize (exact integer interpolation); TLC decides every recorded Resize",
    "Dyadic factors decided exactly, others within float accuracy; rank 4, linear, cubic and nearest (round_prefer_floor).")
chk("C23", "TLA+ spec SmallFloat (formats in integer arithmetic, self-checked by TLC for every pattern); TLC decides every recorded conversion",
    "Every 16- and 8-bit pattern widened and brought back by every route; wide values on and around every rounding boundary (a fifth of them for the 16-bit formats in the quick tier) narrowed; software and F16C builds.")
chk("C24", "TLA+ specs DocCheck (scanner equals declarative faithfulness, TLC exhaustive) and DocCheckTrace; verdicts replayed in and recorded from the real checker",
    "All documents of up to 5 (6) lines over an 8-line alphabet are model-checked and sampled verdicts replayed; random larger trees with exclusions, CRLF and command checks; declared skips stay within the block.")
chk("C22", "TLA+ spec SessCache, TLC exhaustive; transition-tour replay in the real SessionCache over a scratch cache folder",
    "Every transition of the bounded model (capacity 1 to 3, up to 4 keys, 2 versions) is executed; sessions are stand-ins that remember which library they were made from.")
chk("C20", "TLA+ spec RegexOption (glob and regular-expression matching over character sequences); TLC decides every recorded query",
    "Every glob and name of up to 3 (4) characters, every regular expression of up to 2 (3) tokens, realistic lists asked in many orders; regular expressions limited to literals, escapes, classes, quantifiers and anchors.")
chk("C21", "TLA+ spec CompOpts; TLC validates recorded histories of the real option store, JSON configuration and start-up sequence",
    "Every value of every option, every pair of options, random long histories, JSON files good and bad, and start-ups combining environment, configuration file and command line; built with an accelerator declared so that accelerator names matter.")
chk("C18", "TLA+ spec CmdExec; TLC validates recorded histories of the real Command class starting stand-in programs",
    "Random histories of argument building, directories, logs and executions ending by status, by signal or not starting at all, with pending caller output and signals arriving while waiting; logs are creatable.")
chk("C17", "TLA+ spec CmdLine (splitting, what the words ask for, predicted names); TLC decides every recorded split and prediction",
    "Every flag string of up to 5 (6) characters over an alphabet of letters, blanks, quotes and backslash is split; random command lines with repeated options, all writings of a word, output directories and model names are predicted and compared with what a compiler given the words passed on would write.")
chk("C14", "TLA+ spec ElemOps (tensors as index functions, ONNX semantics of each operation); TLC decides every recorded program of constant operations, with every view of every constant",
    "values are multiples of 1/4 exactly representable in every type passed through, plus NaN/infinities/extremes; integer casts in range; sizes up to 4096 elements")
chk("C15", "TLA+ spec DispPool, TLC exhaustive; transition-tour replay in the real pool over a module; DispPoolTrace decides recorded histories with constants created by several threads",
    "2-3 slots and 2-3 tracked buffers exhaustively; random histories over 6 slots with up to 8 threads creating up to 2000 constants; real schedules are sampled; stop-the-world collection as the header requires")
chk("C16", "TLA+ spec CompileDrv over CmdWords; TLC validates recorded histories of the real driver with a stand-in compiler",
    "Random histories of sessions, worlds (exit statuses, signals, missing programs, missing or partial outputs, constants) and compilations over spelled-out and derived names; an output present before counts as existing.")
chk("C19", "TLA+ spec CompileDrv; TLC validates recorded histories of the real driver with stand-in docker, podman and in-container compiler",
    "Engines present, broken or failing later, images present, pulled or not, spelled paths, awkward characters in every word; the stand-in resolves what the compiler is told through the mounts only; nested containers by environment, as the socket cannot be provided.")
chk("C25", "TLA+ specs OnnxOps and OnnxRun (143 operators as functions of their inputs); TLC decides every execution of the compiled models",
    "Random models of one operator over all attributes, shapes to rank 4 and all element types, two forms each (static/dynamic, -O0/-O3), run twice under a guard allocator; values are multiples of 1/4 or compared with a tolerance; built against the installed MLIR 20 by a compatibility layer; code is generated in process (MLIR execution engine).")
chk("C26", "TLA+ specs OnnxOps and OnnxRun; TLC decides every type the compiler infers",
    "Random models of one operator and graphs of 2 to 6 operators in three states of knowledge of the shapes; types are those after the ONNX-level passes.")
chk("C27", "TLA+ specs OnnxOps and OnnxRun; TLC decides what is folded and what the compiled models compute",
    "Random models of one operator and graphs of 2 to 6 operators with all, some or parameter inputs constant.")
chk("C28", "TLA+ specs OnnxOps and OnnxRun; TLC decides every execution of the compiled graphs",
    "Random graphs of 2 to 8 operators in three forms, each under one of 14 (60) random sets of options; options that need libraries not installed (parallel) or that the compiler refuses are left out.")
chk("C29", "TLA+ specs OnnxOps (runs of bodies: Eval, LoopRun, ScanRun) and OnnxRun; TLC decides every execution of the compiled models",
    "Random If, Loop and Scan models in four forms each, run twice under a guard allocator; bodies in bodies and operators the compiler gives up on in bodies are only judged where they compile, as are results collected from an unknown number of iterations.")
chk("C30", "TLA+ spec Stickify (layouts and DLFLOAT16 as functions; injective and tight by TLC for every small shape, roundings for every pattern); TLC decides every recorded descriptor, buffer and conversion",
    "Every layout and use of a recurrent layer over shapes around the sizes of sticks and pages; buffers lie between inaccessible pages and are filled twice with different bytes first; the interface of zDNN is a stand-in header; layout 4DS is not produced by the compiler and left out, as are tensors holding NaN.")
chk("C31", "TLA+ spec Tiles (a machine of workers that load, work and store tiles, explored by TLC for every small tensor and cut; the operations as integer functions); TLC decides every recorded operation and cut",
    "The C runtime is built with and without OpenMP over a stand-in accelerator that does integer arithmetic and refuses what exceeds configurable limits; whole tensors lie between inaccessible pages. Left out: the quantized product, int8 tensors, tensors too large in a dimension that is not cut (the inner dimension of products, rows of softmax), the limit on a tile's total size, and what is left after an operation fails.")
chk("C10", "TLA+ specs PySess (views, what crosses the border) and PyOwn (who holds the buffers); TLC validates recorded Python sessions, and tours of PyOwn are replayed",
    "The extension is built from /repo's sources and driven under the venv's Python over a stand-in model; every layout of small arrays and random chains of views; all allocations of the extension and the model pass through a tracker with red zones, so leaks, double frees and uses after release show. The installed pybind11 predates numpy 2, so a copy of its headers with numpy 2's dtype layout is used.")
