"""C17: recorded splits and predictions of the real flag handling, decided by
CmdLine.tla."""
import itertools
import vf


def hx(s):
    return "".join(s).encode("latin1").hex() or "-"


def cmd(e):
    return "parse " + hx(e["s"]) if e["op"] == "parse" else f"predict {hx(e['model'])} {hx(e['flags'])} {hx(e['dir'])}"


def post(h):
    for e in h:
        for k, v in e["obs"].items():
            e["obs"][k] = [list(x) for x in v] if isinstance(v, list) else list(v)
    return h


def quote(rng, w, force=False):
    """One of the ways of writing a word."""
    special = any(c in w for c in " \t\"'\\")
    r = rng.random()
    if not special and r < .7 and not force:
        return w
    if r < .4 and '"' not in w and "\\" not in w:
        return f'"{w}"'
    if r < .7 and "'" not in w and "\\" not in w:
        return f"'{w}'"
    if r < .85 and "=" in w and not any(c in w.split("=", 1)[1] for c in "\"\\"):
        a, b = w.split("=", 1)
        return f'{a}="{b}"' if not special or not any(c in a for c in " \t\"'\\") else quote(rng, w, force)
    return "".join("\\" + c if c in " \t\"'\\" or rng.random() < .05 else c for c in w)


def run(ctx):
    exe = vf.build(ctx, "flag", [f"{vf.HARN}/flag_h.cpp", "src/Compiler/OMCompile.cpp", "src/Compiler/Command.cpp", "src/Compiler/CommandUtils.cpp"])
    rng = ctx.rng
    hs = []
    for k in range(0, 7 if ctx.thorough else 6):
        for t in itertools.product("a \"'\\\t", repeat=k):
            hs.append(dict(op="parse", s=list(t)))
    for _ in range(4000 if not ctx.thorough else 40000):
        hs.append(dict(op="parse", s=[rng.choice("ab-= \t\n\"'\\\x0c\xe9$") for _ in range(rng.randint(6, 30))]))
    models = ["", "", "", "m.onnx", "d/m.onnx", "/abs/x.y.onnx", "./m.mlir", "../q/m.onnxtext", "m", "d.v1/m.onnx", "a b.onnx", "m.tar.onnx", ".onnx", "d/.h.onnx"]
    names = ["out", "o.so", "d/out", "/abs/out", "./out", "a b", "x.onnx", "out.mlir", "my-o", "d.x/o", "o"]
    dirs = ["", "", "dir", "dir/", "/abs/dir", "d1/d2", ".", "a dir"]
    emits = ["Lib", "Obj", "JNI", "MLIR", "LLVMIR", "ONNXIR", "ONNXBasic", "ZHighIR", "ZLowIR"]
    others = ["-O3", "-O0", "-v", "--mcpu=z16", "-onnx-op-stats=TXT", "-opt-report=Simd", "--maccel=NNPA", "-ohno", "--o2=x", "-tagged", "--tags=x", "-mllvm=-o=x", "--Emit", "-other", "-DEmitLib", "word", "lib.so", "--onnx=m.onnx", "-x.mlir", "-Xopt=-EmitObj"]
    others = [o for o in others if o != "--Emit"]

    def words(model):
        parts = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            parts.append(["-o", rng.choice(names)] if rng.random() < .6 else ["-o=" + rng.choice(names)])
        if not parts and rng.random() < .1:
            parts.append(["-o="])
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            parts.append([rng.choice(["-Emit", "--Emit"]) + rng.choice(emits)])
        for _ in range(rng.choice([0, 0, 1, 2])):
            parts.append([rng.choice(["-tag=", "--tag="]) + rng.choice(["t", "NONE", "", "a-o=b", "x=y"])])
        for _ in range(rng.choice([0, 1, 2])):
            parts.append([rng.choice(others)])
        if not model and rng.random() < .9:
            parts.append([rng.choice(["in.onnx", "d/in.mlir", "/abs/in.onnxtext", "a b.onnx", "x.onnx.onnx"])])
        rng.shuffle(parts)
        # a word ending the line with -o has no value
        return [w for p in parts for w in p]
    for _ in range(12000 if not ctx.thorough else 120000):
        model = rng.choice(models)
        ws = words(model)
        fl = rng.choice(["", " "]) + rng.choice([" ", "  ", "\t"]).join(quote(rng, w, rng.random() < .05) for w in ws) + rng.choice(["", " "])
        hs.append(dict(op="predict", model=list(model), flags=list(fl), dir=list(rng.choice(dirs))))
    hist = [hs[i:i + 20] for i in range(0, len(hs), 20)]
    vf.record_and_validate(ctx, exe, "CmdLine", hist, cmd, post=post,
                           what=lambda h, l: (lambda e: f"{e['op']} model='{''.join(e.get('model', []))}' flags='{''.join(e.get('flags', e.get('s', [])))}' dir='{''.join(e.get('dir', []))}' -> "
                                              + str({k: [''.join(x) for x in v] if k in ('words', 'applied') else ''.join(v) for k, v in e['obs'].items()}))(h[l - 2])[:1200])
    ctx.assumptions.append("explicit names are not '-' or dots only (ignored by the compiler) and carry no option look-alikes; the last dot of a default name is in its last component")
