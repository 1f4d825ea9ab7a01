"""C31: operations in tiles equal the whole operation, decided by Tiles.tla."""
import vf

C = lambda v: ",".join(map(str, v)) if v else "-"
RANK = {"1D": 1, "2D": 2, "2DS": 2, "3D": 3, "3DS": 3, "4D": 4, "NHWC": 4, "NCHW": 4}
UN = ["exp", "log", "gelu", "sqrt", "tanh", "sigmoid", "relu", "invsqrt"]
BIN = ["add", "sub", "mul", "div", "max", "min"]
CONST = "CONSTANTS Sticks = 32 Cells = 64 MaxDim = 1 MaxSize = 1 Workers = 1\n"


def cmd(e):
    if e["op"] == "ew":
        return f"ew {e['f']} {e['lay']} {C(e['sh'])} {e['par']} {C(e['at'])}"
    if e["op"] == "mm":
        return f"mm {e['kind']} {C(e['d'])} {e['ta']} {e['tb']} {e['fn']}"
    if e["op"] == "split":
        return f"split {e['lay']} {C(e['sh'])} {C(e['rq'])} {e['order']} {e['buf']}"
    return f"per {C(e['sh'])} {e['n']}"


def prod(v):
    p = 1
    for x in v:
        p *= x
    return p


# axis (of E4, E3, E2, E1) of every dimension of a layout
AXES = {"1D": [3], "2D": [2, 3], "2DS": [0, 3], "3D": [1, 2, 3], "3DS": [0, 2, 3], "NCHW": [0, 3, 1, 2]}
EDGE = {0: [1, 2, 3, 4, 5, 7], 1: [1, 2, 3, 4, 5], 2: [1, 2, 31, 32, 33, 40, 63, 64, 65, 70, 97], 3: [1, 2, 63, 64, 65, 100, 127, 128, 129, 130, 192, 200]}


def shape(r, lay, lim):
    while True:
        sh = [r.choice(EDGE[a]) if r.random() < .75 else r.randint(1, 4) for a in AXES.get(lay, [0, 1, 2, 3])]
        if prod(sh) <= lim:
            return sh


def ew(r, f, lay, sh, at=()):
    return dict(op="ew", f=f, lay=lay, sh=sh, par=r.randint(0, 1) if f == "softmax" else r.randint(0, 40), at=list(at))


def mm(r, kind, lims, lim):
    """A product whose inner dimension is within the limits, and so is a transposed operand."""
    while True:
        S = r.choice([1, 2, 3, 4, 5, 7]) if kind != "plain" else 1
        M, N, K = r.choice(EDGE[2]), r.choice(EDGE[3]), r.choice([1, 2, 3, 5, 34, 66] if r.random() < .3 else [1, 2, 3])
        ta = tb = 0
        if kind in ("plain", "stacked") and r.random() < .35:
            ta, tb = r.choice([(1, 0), (0, 1), (1, 1)])
        # A: (M, K) or (K, M); B: (K, N) or (N, K), in (E2, E1)
        if K > lims["E2"] or K > lims["E1"] or ta and (M > lims["E2"] or M > lims["E1"]) or tb and (N > lims["E2"] or N > lims["E1"]):
            continue
        if S * M * N <= lim and S * M * N * K <= 4 * lim:
            return dict(op="mm", kind=kind, d=[S, M, K, N], ta=ta, tb=tb, fn=r.randint(0, 6))


def run(ctx):
    r = ctx.rng
    # the machine, for every small tensor and cut, one to three workers
    for w, size in ((1, 9), (2, 6), (3, 6)) if ctx.thorough else ((1, 6), (2, 4)):
        vf.tlc(ctx, "Tiles", f"CONSTANTS Sticks = 1 Cells = 2 MaxDim = 3 MaxSize = {size} Workers = {w}\nSPECIFICATION MSpec\nINVARIANT MOK\nCHECK_DEADLOCK FALSE\n")
    Z = "src/Accelerators/NNPA/Runtime/zdnnx"
    src = [f"{vf.HARN}/tiles_h.cpp"] + [f"{Z}/{f}.c" for f in ("zdnnx", "utils", "seq_ops", "zdnnx_ops", "zdnnx_ops_private")]
    fl = [f"-I{vf.HARN}/zdnn", "-DVERIF_ZDNN_FUNCTIONS"]
    exes = {"one": vf.build(ctx, "tiles", src, cflags=fl, cxxflags=["-std=c++17"]),
            "many": vf.build(ctx, "tilesomp", src + [f"{Z}/omp_ops.c"], cflags=fl + ["-DZDNNX_WITH_OMP", "-fopenmp"], cxxflags=["-std=c++17"], ldflags=["-fopenmp"])}
    lims = [dict(E4=4, E3=4, E2=64, E1=128), dict(E4=2, E3=2, E2=32, E1=64), dict(E4=3, E3=1, E2=32, E1=128), dict(E4=1, E3=3, E2=96, E1=64),
            dict(E4=100, E3=100, E2=128, E1=256), dict(E4=64, E3=64, E2=64, E1=64, OLD=1)]
    runs = []
    k, cap = (40, 6000) if ctx.thorough else (6, 2600)
    for i, lm in enumerate(lims):
        runs.append(("one", lm, 1))
        runs.append(("one", dict(lm, SIZE=r.choice([2048, 5000, 8192])), 1))
        for n in ((2, 3, 4, 7) if ctx.thorough else (r.choice([2, 3]), r.choice([4, 5]))):
            runs.append(("many", lm, n))
    done = []
    for which, lm, n in runs:
        hs = []
        for lay in RANK:
            for _ in range(k):
                hs.append([ew(r, r.choice(UN + BIN), lay, shape(r, lay, cap))])
        for _ in range(2 * k):
            sh = shape(r, "3DS", cap)
            if sh[2] <= lm["E1"]:
                hs.append([ew(r, "softmax", "3DS", sh)])
        for kind in ("plain", "stacked", "bcast23", "bcast1"):
            for _ in range(2 * k):
                hs.append([mm(r, kind, lm, cap)])
        if which == "many" and lm["E4"] >= 64:     # large enough to be seen as a row of pages
            for lay, sh in ([("4D", [3, 2, 64, 64 * 64]), ("3D", [7, 32 * 11, 640]), ("2D", [70, 64 * 257]), ("4D", [5, 10, 100, 300]), ("3DS", [61, 128, 256])] if ctx.thorough
                            else [("3D", [7, 32 * 11, 640]), ("4D", [5, 10, 100, 300])]):
                if any(d > m for d, m in zip(sh[-2:], (lm["E2"], lm["E1"]))) and r.random() < .3:
                    pass
                q = prod(sh)
                hs.append([ew(r, r.choice(UN + BIN), lay, sh, sorted({r.randrange(q) for _ in range(500)} | {0, q - 1}))])
        if lm is lims[0]:
            for lay in RANK:
                for _ in range(3 * k):
                    sh = shape(r, lay, cap)
                    rq = [r.choice([0, 1, 1, 2, 3, 4, 8]), r.choice([0, 1, 1, 2, 3, 6]), r.choice([0, 0, 1, 20, 32, 32, 33, 64, 70]), r.choice([0, 0, 1, 50, 64, 64, 65, 100, 128, 200])]
                    hs.append([dict(op="split", lay=lay, sh=sh, rq=rq, order=r.choice(["on", "back"]), buf=r.choice(["own", "none"]))])
            hs += [[dict(op="per", sh=[r.choice(EDGE[a]) for a in range(4)], n=r.randint(1, 9))] for _ in range(30)]
        env = {"OM_NUM_ZAIU_THREADS": str(n), "OMP_NUM_THREADS": str(n)}
        env.update({"T_" + a: str(b) for a, b in lm.items()})
        env["OMP_MAX_ACTIVE_LEVELS"] = "3"
        for h in hs:
            for e in h:
                e["under"] = f"{which} n={n} {lm}"
        r.shuffle(hs)
        done += vf.record(ctx, exes[which], hs, cmd, env=env, key=None)

    def what(h, j):
        e = h[j - 2]
        o = {a: (b if not isinstance(b, list) else b[:12]) for a, b in e.get("obs", {}).items() if a != "t"}
        return f"[{e['under']}] {cmd(e)[:200]} -> observed {o}"
    vf.validate(ctx, "Tiles", done, consts=CONST, what=what)
    ctx.add("recorded_events", sum(len(h) for h in done))
    ctx.assumptions.append("IBM's zDNN library is not installed: a stand-in that does integer arithmetic on the cells and refuses what exceeds the limits takes its place")
