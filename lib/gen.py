"""Headers which the repository's build generates; the harness builds get their
own copies so that nothing depends on an existing build directory."""
import os
import vf


def headers(ctx, triple="x86_64-vf-linux", accel=""):
    d = os.path.join(vf.BUILD, "gen-" + (accel or "none"))
    os.makedirs(os.path.join(d, "src/Accelerators"), exist_ok=True)

    def put(n, t):
        p = os.path.join(d, n)
        if not os.path.exists(p) or open(p).read() != t:
            tmp = p + f".{os.getpid()}"
            open(tmp, "w").write(t)
            os.replace(tmp, p)
    put("src/Accelerators/Accelerators.inc", "#define APPLY_TO_ACCELERATORS(MACRO, ...) \\\n" + (f"  MACRO({accel}, ## __VA_ARGS__) \\\n" if accel else "") +
        "\n#define APPLY_TO_NO_ACCELERATORS(MACRO) \\\n" + ("" if accel else "  MACRO \n") + "\n")
    # from the template, whatever variables it names
    import re
    t = open(os.path.join(vf.REPO, "src/Compiler/ExternalUtil.hpp.in")).read()
    val = dict(ONNX_MLIR_DEFAULT_TRIPLE=triple, CMAKE_INSTALL_PREFIX="/vf-none")
    t = re.sub(r"@(\w+)@", lambda m: val.get(m[1], "/vf-none/" + m[1].lower()), t)
    put("ExternalUtil.hpp", t)
    return d
