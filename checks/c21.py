"""C21: recorded histories of the option store, the configuration lists, the
JSON configuration and the start-up sequence, decided by CompOpts.tla."""
import itertools, json, os
import vf, gen

TRIPLE = "x86_64-vf-linux"
KEYS = ["A", "B"]


def hx(s):
    return s.encode().hex() or "="


def hl(v):
    return ",".join(hx(x) for x in v) if v else "-"


def V(s):
    n = int(s) if s in ("0", "1", "2", "3") else -1
    return dict(s=s, n=n, toks=s.split())


def cmd(e):
    op = e["op"]
    if op == "set":
        return f"set {e['k']} {e['v']['s'].encode().hex() or '-'}"
    if op == "clear":
        return f"clear {e['k']}"
    if op == "multi":
        return "multi " + " ".join(f"{x['k']} {x['v']['s'].encode().hex() or '-'}" for x in e["kvs"])
    if op == "add":
        return f"add {e['key']} {e['head']} {hl(e['vs'])}"
    if op == "del":
        return f"del {e['key']} {hl(e['vs'])}"
    if op == "init":
        return f"init {e['target']} {e['par']} {e['fast']} {hl(e['libs'])} {hl(e['paths'])}"
    if op == "env":
        return f"env {e['name'] or '-'}"
    if op == "file":
        return f"file {e['n']} " + ("rm" if e["c"]["kind"] == "missing" else e["text"].encode().hex() or "-")
    if op in ("load", "store"):
        return f"{op} {e['n']}"
    if op == "fresh":
        return "fresh"
    return f"cli {hl(e['envvars'])} {hl(e['args'])}"


VALS = {0: ["t-a", "t-b", TRIPLE], 1: ["arch13", "z16", "z17", "x86-64", "apple-m2", "apple-m9", "power"], 2: ["z14", "arch15", "skylake", "z99"], 3: ["NONE", "NNPA", "GPU", "nnpa"],
        4: ["0", "1", "2", "3", "4", "-1", "abc", "1x", "", "30", "99999999999999999999"], 5: ["--x", "a b", ""], 6: ["--y", "-z=1", "--x"], 7: ["-a", "-a  -b", "", " -c ", "--enable-unsafe-fp-math -q"],
        8: ["tag", "NONE", ""], 9: ["", "1"]}


def setev(rng, k=None):
    k = rng.randrange(10) if k is None else k
    return dict(op="set", k=k, v=V(rng.choice(VALS[k])))


def words(rng):
    return [rng.choice(["p", "q", "r", "p q", "", "pp"]) for _ in range(rng.randint(0, 3))]


def content(rng):
    kind = rng.choice(["obj"] * 6 + ["bad", "nonobj", "missing"])
    c = dict(kind=kind, opts="absent", list=[], s="<none>", extra=False)
    text = {"bad": rng.choice(["", "{", '{"compile_options": ["-O3"]', "{'a':1}", '{"compile_options": ["-O3"],}', "[1] x"]), "nonobj": rng.choice(["[]", '["-O3"]', "3", '"s"', "null"])}.get(kind, "")
    if kind == "obj":
        d = {}
        r = rng.random()
        if r < .6:
            c["opts"] = "list"
            for _ in range(rng.randint(0, 3)):
                if rng.random() < .8:
                    x = rng.choice(["-O3", "--mcpu=z15", "", "a \"b\"", "-o", "x", "é"])
                    c["list"].append(dict(t="str", x=x.encode().decode("latin1")))  # the harness reports bytes
                    d.setdefault("compile_options", []).append(x)
                else:
                    x = rng.choice([1, None, True, {"a": "b"}, ["q"]])
                    c["list"].append(dict(t="other", x=json.dumps(x)))
                    d.setdefault("compile_options", []).append(x)
            d.setdefault("compile_options", [])
        elif r < .7:
            c["opts"] = "other"
            d["compile_options"] = rng.choice(["-O3", 3, {"0": "-O3"}])
        if rng.random() < .3:
            c["s"] = rng.choice(["", "v", "w x"])
            d["s"] = c["s"]
        if rng.random() < .3:
            c["extra"] = True
            d["nnpa"] = {"device": [1, "a"]}
        items = list(d.items())
        rng.shuffle(items)
        text = json.dumps(dict(items), indent=rng.choice([None, 2]))
    return c, text


# command-line spellings: (words, tokens)
def spell(rng, joined=False):
    k = rng.choice([0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9, -1])
    def w(name, v):
        d = rng.choice(["-", "--"])
        if rng.random() < .7 or v == "" or v.startswith("-") or joined:
            return [f"{d}{name}={v}"]
        return [f"{d}{name}", v]
    if k == -1:
        v = rng.choice(["VF_FLAGS", "VF_OTHER"])
        return w("customEnvFlags", v), dict(k=-1, v=V(v))
    if k == 9:
        return ["-v"], dict(k=9, v=V("1"))
    if k == 4:
        v = rng.choice("0123")
        return ["-O" + v], dict(k=4, v=V(v))
    v = rng.choice({0: ["t-a", "t-b"], 1: ["arch13", "z16", "x86-64"], 2: ["z14", "skylake"], 3: ["NONE", "NNPA"], 5: ["--x", "y"], 6: ["--y", "w"], 7: ["-a", "-b"], 8: ["tag", "NONE"]}[k])
    name = ["mtriple", "march", "mcpu", "maccel", "", "Xopt", "Xllc", "mllvm", "tag"][k]
    return w(name, v), dict(k=k, v=V(v))


def cli(rng, n, d):
    """One start-up: environment, configuration file and command line."""
    ev, cw, ct, used = [], [], [], 0
    envs = {}
    for name in ("ONNX_MLIR_FLAGS", "VF_FLAGS", "VF_OTHER"):
        if rng.random() < .6:
            ws, ts = [], []
            for _ in range(rng.randint(0, 3)):
                w, t = spell(rng, True)
                if t["k"] == -1:
                    continue
                ws += w
                ts.append(t)
            envs[name] = ts
            ev += [name, " ".join(ws)]
    dirn = os.path.join(d, f"c{n}")
    os.makedirs(dirn, exist_ok=True)
    inp = os.path.join(dirn, "m.onnx")
    args, toks = [], []
    items = [spell(rng) for _ in range(rng.randint(0, 5))]
    seen = set()
    items = [i for i in items if i[1]["k"] != -1 or not ("c" in seen or seen.add("c"))]
    where = rng.choice(["none", "default", "explicit", "both", "missing"])
    def conf(path, used):
        nonlocal cw, ct
        its = [spell(rng) for _ in range(rng.randint(0, 3))]
        its = [i for i in its if i[1]["k"] != -1]
        ws = [w for i in its for w in i[0]]
        json.dump(dict(rng.sample([("compile_options", ws), ("other", ["-O3"])], 2)), open(path, "w"))
        if used:
            cw, ct = ws, [i[1] for i in its]
            return 1 if ws else 0
        return 0
    if where in ("default", "both"):
        used = conf(os.path.join(dirn, "omconfig.json"), where == "default")
    pre = []
    if where in ("explicit", "both"):
        p = os.path.join(dirn, "own.json")
        used = conf(p, True)
        pre = rng.choice([["--config-file=" + p], ["-config-file=" + p]])
    if where == "missing":
        pre = ["--config-file=" + os.path.join(dirn, "none.json")]
    parts = [i[0] for i in items] + ([pre] if pre else []) + [[inp]]
    # values given as separate words follow the input, so that the input is the first word without a dash
    one = [p for p in parts if len(p) == 1]
    two = [p for p in parts if len(p) == 2]
    rng.shuffle(one)
    order = one + two
    i0 = order.index([inp])
    args = [w for p in order for w in p]
    byp = {id(i[0]): i[1] for i in items}
    toks = [byp[id(p)] for p in order if id(p) in byp]
    names = [t["v"]["s"] for t in toks if t["k"] == -1]
    env = envs.get(names[-1] if names else "ONNX_MLIR_FLAGS", [])
    return dict(op="cli", env=env, config=ct, cli=toks, cfgused=used, configwords=cw, input=inp, envvars=ev, args=args)


def run(ctx):
    g = gen.headers(ctx, TRIPLE, "NNPA")
    exe = vf.build(ctx, "copt", [f"{vf.HARN}/copt_h.cpp", "src/Compiler/CompilerOptions.cpp", "src/Compiler/JsonConfigObject.cpp", "src/Accelerators/Accelerator.cpp"],
                   cflags=[f"-I{g}"], cxxflags=vf.MLIR_CXX, ldflags=vf.MLIR_LINK, san=False)
    rng = ctx.rng
    libdir = os.path.join(ctx.work, "lib")
    os.makedirs(libdir)
    jd = os.path.join(ctx.work, "j")
    os.makedirs(jd)
    env = dict(ONNX_MLIR_LIBRARY_PATH=libdir)
    consts = f'CONSTANT Triple = "{TRIPLE}"\nCONSTANT LibDir = "{libdir}"'
    hs = []
    # one option set (every value), and every pair of options
    for k, vs in VALS.items():
        for v in vs:
            if v == "" and k in (0, 1, 2, 3):
                continue
            hs.append([dict(op="set", k=k, v=V(v)), dict(op="clear", k=k)])
            for k2 in range(10):
                hs.append([dict(op="set", k=k, v=V(v)), setev(rng, k2), dict(op="clear", k=k), setev(rng, k), dict(op="clear", k=k2)])
    n = 0
    for i in range(3000 if ctx.thorough else 400):
        h = []
        for _ in range(rng.choice([3, 8, 20, 40])):
            r = rng.random()
            if r < .4:
                h.append(setev(rng))
            elif r < .55:
                h.append(dict(op="clear", k=rng.randrange(10)))
            elif r < .63:
                h.append(dict(op="multi", kvs=[dict(k=e["k"], v=e["v"]) for e in (setev(rng) for _ in range(rng.randint(0, 4)))]))
            elif r < .8:
                h.append(dict(op="add", key=rng.choice(KEYS), head=rng.randint(0, 1), vs=words(rng)))
            elif r < .9:
                h.append(dict(op="del", key=rng.choice(KEYS), vs=words(rng)))
            elif r < .95:
                h.append(dict(op="init", target=rng.choice(["lib", "jni", "mlir"]), par=rng.randint(0, 1), fast=rng.randint(0, 1), libs=words(rng), paths=words(rng)))
            else:
                h.append(dict(op="env", name=rng.choice(["", "E1", "E2"])))
        hs.append(h)
    for i in range(3000 if ctx.thorough else 500):
        names = [os.path.join(jd, f"{i}-{x}.json") for x in "ab"]
        h = []
        for _ in range(rng.choice([4, 8, 14])):
            r = rng.random()
            if r < .35:
                c, t = content(rng)
                h.append(dict(op="file", n=rng.choice(names), c=c, text=t))
            elif r < .75:
                h.append(dict(op="load", n=rng.choice(names)))
            elif r < .87:
                h.append(dict(op="store", n=rng.choice(names)))
            else:
                h.append(dict(op="fresh"))
        hs.append(h)
    vf.record_and_validate(ctx, exe, "CompOpts", hs, cmd, label="store: ", consts=consts, env=env)
    cd = os.path.join(ctx.work, "cli")
    os.makedirs(cd)
    hs = [[cli(rng, i, cd)] for i in range(6000 if ctx.thorough else 1200)]
    vf.record_and_validate(ctx, exe, "CompOpts", hs, cmd, label="start-up: ", consts=consts, env=env, what=lambda h, l: json.dumps(h)[:1500])
    ctx.assumptions.append("triple, architecture, CPU and accelerator values are non-empty (asserted); the input is the first word of the command line without a dash; the default triple is the configured one")
