"""C16 and C19: recorded histories of compilation sessions with a stand-in
compiler and stand-in container engines, decided by CompileDrv.tla."""
import concurrent.futures as cf
import itertools, os, shutil
import vf


def hx(s):
    return s.encode("latin1").hex() or "-"


ENV = dict(what=None)


def cmd(e):
    op = e["op"]
    if op == "env":
        w, kv = e["world"], []

        def put(k, v):
            kv.extend([k, hx(v)])
        put("PATH", e["PATH"])
        put("KID_DO", f"{w['what']} {w['n']}")
        for k, f in (("KID_PARTIAL", "partial"), ("KID_NOOUT", "noout"), ("KID_CONST", "const")):
            put(k, "1" if w[f] else "~")
        put("KID_VERSION", str(w["version"]))
        put("KID_PULL", str(w["pull"]))
        put("KID_RUN", str(w["run"]))
        for g in ("docker", "podman"):
            put("KID_BAD_" + g, e["badhow"] if g in w["bad"] else "~")
        put("OM_DIND_DISABLE", "~" if w["dind"] else "1")
        put("container", "oci" if w["dind"] else "~")
        put("OM_DOCKER_HOST_PATH_PREFIX", e["prefix"] or "~")
        put("KID_PREFIX", e["strip"] or "~")
        return "env " + " ".join(kv)
    if op == "images":
        return " ".join(["images"] + [hx(" ".join(x)) for x in e["images"]])
    if op == "cd":
        return f"cd {hx(e['to'])}"
    if op == "clean":
        return op
    if op == "local":
        return f"local {hx(e['path'])} {e['verbose']}"
    if op == "cont":
        return f"cont {hx(e['image'])} {hx(e['path'])} {e['engine']} {e['pull']} {e['verbose']}"
    return "compile " + " ".join(hx("".join(e[k])) for k in ("model", "flags", "dir", "ccpath", "log"))


DESC = ["Invalid compiler option", "Invalid input file format", "Cannot open input file", "Cannot open output file", "Cannot access temporary file", "Invalid ONNX format",
        "Failed to lower MLIR to LLVM", "Failed to optimize LLVM", "Failed to lower LLVM to object", "Failed to generate JNI object", "Failed to generate JNI",
        "Failed to link object to library", "Invalid compiler options", "Compilation failed", "Compiler failed to execute successfully",
        "Command executable not found (check PATH)", "Command not executable", "Command execution failed", "Input file is a hardlink, which is not allowed", "Unknown error code"]


def post(h):
    for e in h:
        o = e["obs"]
        rs = []
        for r in o.pop("recs", []):
            if r[0] == "eng":
                rs.append(dict(k="eng", by=r[1], a=r[2:]))
            elif r[0] == "cc":
                rs.append(dict(k="cc", nat=int(r[1] == "n"), ver=int(r[2:] == ["--version"]), w=[list(x) for x in r[2:]]))
            else:
                rs.append(dict(k=r[0], p=list(r[1])))
        o["recs"] = rs
        if "msg" in o:
            # the category the message names: the description in it that ends last
            o["why"] = max((d for d in DESC if d in o["msg"]), key=lambda d: (o["msg"].rfind(d) + len(d), len(d)), default="")
        for k in ("out", "cst", "tag", "cwd"):
            if k in o:
                o[k] = list(o[k])
        o.pop("msg", None)
        for k in ("PATH", "badhow", "prefix", "strip", "to"):
            e.pop(k, None)
    return h


MODELS = ["m.onnx", "d/m.onnx", "a b.onnx", "d/x.y.mlir", "it's.onnx", "q.onnxtext", "d/e/z.onnx", "$HOME.onnx"]
DIRS = ["", "d", "d/e", "out", "a dir", "out/deep"]
IMAGES = ["ghcr.io/onnxmlir/onnx-mlir", "ghcr.io/onnxmlir/onnx-mlir-dev", "onnxmlir/onnx-mlir-dev", "my/image:1"]
FLAGS = ["-O3", "-O0", "--mcpu=z16", "--maccel=NNPA", "-Xopt=-a -b", "-D=it's", "--x=$HOME", "--y=`id`", "--q=\"z\"", "--s=*", "--semi=a;b", "--b=a\\b", "--v=a&b", "--n=x|y", "--c=#1", "-w=(1)"]


def quote(rng, w):
    if not any(c in w for c in " \t\"'\\"):
        return w
    if '"' not in w and "\\" not in w and rng.random() < .6:
        return f'"{w}"'
    return "".join("\\" + c if c in " \t\"'\\" else c for c in w)


def run(ctx, container):
    kid = vf.build(ctx, "omckid", [f"{vf.HARN}/omc_kid.c"], san=False)
    exe = vf.build(ctx, "omc", [f"{vf.HARN}/omc_h.cpp", "src/Compiler/OMCompile.cpp", "src/Compiler/Command.cpp", "src/Compiler/CommandUtils.cpp"])
    rng = ctx.rng
    N = vf.NCPU

    def base(i):
        b = os.path.join(ctx.work, f"w{i}")
        os.makedirs(b)
        for d in DIRS:
            os.makedirs(os.path.join(b, "w", d), exist_ok=True)
        for m in MODELS:
            open(os.path.join(b, "w", m), "w").write("m")
        for p, names in dict(both=["docker", "podman", "onnx-mlir"], docker=["docker", "onnx-mlir"], podman=["podman", "onnx-mlir"], none=["onnx-mlir"], empty=[], own=["kid", "a kid"]).items():
            os.makedirs(os.path.join(b, "p", p))
            for n in names:
                shutil.copy(kid, os.path.join(b, "p", p, n))
                os.chmod(os.path.join(b, "p", p, n), 0o755)
        open(os.path.join(b, "p", "own", "noexec"), "w").write("x")
        os.chmod(os.path.join(b, "p", "own", "noexec"), 0o644)
        return b
    bases = [base(i) for i in range(N)]

    def history(b, n):
        W = b + "/w"
        models = [list(f"{W}/{m}") for m in MODELS]
        dirs = [list(f"{W}/{d}".rstrip("/")) for d in DIRS]
        cwd = [W]
        h = []
        cur = dict(kind="none", cmode=container)

        def world(**kw):
            P = rng.choice(["both"] * 7 + ["docker", "podman", "none", "empty"])
            if not container:
                P = rng.choice(["both", "both", "empty"])
            present = dict(both=["docker", "podman"], docker=["docker"], podman=["podman"]).get(P, [])
            w = dict(present=present, bad=[g for g in ("docker", "podman") if rng.random() < (.12 if container else 0)], what="exit", n=0, partial=0, noout=0, const=0,
                     version=rng.choice([0, 0, 0, 1]), pull=rng.choice([0, 0, 1]), run=0, dind=0)
            if rng.random() < .35:
                w["what"], w["n"] = rng.choice([("exit", rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 77, 139, 255])), ("sig", rng.choice([6, 9, 11, 15]))])
                if container and w["what"] == "sig":
                    w["n"] = 9
            w["partial"] = int(rng.random() < .3)
            w["noout"] = int(rng.random() < .2)
            w["const"] = int(rng.random() < .4)
            if container and rng.random() < .1:
                w["run"] = rng.choice([125, 126, 127, 1, 3, -9, -11])
            prefix = strip = ""
            if container and rng.random() < .3 and cur["kind"] == "cont":
                w["dind"] = 1
                prefix = rng.choice(["", "/host", b[:-1], b[:-1], "/host/deep", W + "x", b])
                # the caller's files keep their names on the host when they are below the prefix
                strip = "" if prefix == b else prefix
            w.update(kw)
            # in a container the driver may only be built outside another one here
            h.append(dict(op="env", world=w, PATH=f"{b}/p/{P}:{b}/p/own", badhow=rng.choice(["1", "sig"]), prefix=prefix, strip=strip))
            cur["P"] = P

        def construct():
            if container:
                if h[-1]["world"]["dind"] if h and h[-1]["op"] == "env" else cur.get("dind"):
                    world(dind=0)
                h.append(dict(op="images", images=[[g, im] for g in ("docker", "podman") for im in IMAGES if rng.random() < .65]))
                im = rng.choice(["", ""] + IMAGES)
                path = rng.choice(["", "", "/opt/cc/bin/om"]) if im != "my/image:1" or rng.random() < .2 else "/opt/cc/bin/om"
                h.append(dict(op="cont", image=im, path=path, engine=rng.choice(["Auto", "Auto", "Auto", "docker", "podman"]), pull=int(rng.random() < .7), verbose=int(rng.random() < .2)))
                cur["kind"] = "cont"
            else:
                p, k = rng.choice([("", "def"), ("", "def"), (b + "/p/own/kid", "kid"), (b + "/p/own/a kid", "kid"), (b + "/p/own/none", "missing"), (b + "/p/own/noexec", "noexec")])
                if k == "def":
                    k = "missing" if cur["P"] == "empty" else "kid"
                    if k == "missing":
                        # found when it runs, not when the session is made
                        p, k = b + "/p/own/none", "missing"
                h.append(dict(op="local", path=p, kind=k, verbose=int(rng.random() < .2)))
                cur["kind"] = "local"
                cur["default"] = p == ""

        def compile_():
            model = rng.choice(MODELS + ["none.onnx", "", ""])
            ws = []
            inflags = ""
            if model == "" and rng.random() < .9:
                inflags = rng.choice(MODELS + ["no/such.onnx"])

            def spell(m):
                p = f"{W}/{m}"
                r = rng.random()
                if r < .35:
                    return p
                rel = os.path.relpath(p, cwd[0])
                if r < .5:
                    return "./" + rel
                return rel
            model = spell(model) if model else ""
            parts = []
            if rng.random() < .6:
                o = rng.choice(["out", "r", "d/out", "d/r.s", "out/deep/r", "a dir/o o", "nodir/x", "it's", "$(id)"])
                o = rng.choice([o, os.path.relpath(f"{W}/{o}", cwd[0]), f"{W}/{o}"])
                parts.append(["-o", o] if rng.random() < .6 else ["-o=" + o])
            if rng.random() < .4:
                parts.append([rng.choice(["-Emit", "--Emit"]) + rng.choice(["Lib", "Lib", "Obj", "JNI", "MLIR", "LLVMIR"])])
            if rng.random() < .4:
                parts.append([rng.choice(["-tag=", "--tag="]) + rng.choice(["t", "NONE", "a b"])])
            for _ in range(rng.choice([0, 1, 2])):
                parts.append([rng.choice(FLAGS)])
            if inflags:
                parts.append([spell(inflags)])
            rng.shuffle(parts)
            ws = [w for p in parts for w in p]
            ccpath, cc = "", ""
            if rng.random() < .15:
                ccpath, cc = rng.choice([(b + "/p/own/kid", "kid"), (b + "/p/own/none", "missing"), (b + "/p/own/noexec", "noexec")])
            d = rng.choice(["", "", "", "out", W + "/d", "a dir", ".", "nodir", "d/"])
            h.append(dict(op="compile", model=list(model), flags=list(" ".join(quote(rng, w) for w in ws)), dir=list(d), ccpath=ccpath, cc=cc,
                          log=list(rng.choice(["", "", f"{b}/log"])), models=models, dirs=dirs))
        world()
        h.append(dict(op="cd", to=W))
        construct()
        for _ in range(rng.randint(2, 7)):
            r = rng.random()
            if r < .35:
                world()
                # a default compiler must stay where it was
                if not container and cur.get("default") and cur["P"] == "empty":
                    construct()
            elif r < .45:
                h.append(dict(op="clean"))
            elif r < .55:
                cwd[0] = rng.choice([W, W + "/d", W + "/out", W + "/a dir"])
                h.append(dict(op="cd", to=cwd[0]))
            elif r < .62:
                construct()
            compile_()
        # other histories start without outputs
        return [dict(op="clean")] + h

    total = (2400 if container else 3200) * (10 if ctx.thorough else 1)
    hists = [[history(bases[i], k) for k in range(total // N)] for i in range(N)]
    for hs in hists:
        for h in hs:
            for e in h:
                if e["op"] == "cd":
                    pass

    def rec(i):
        return vf.record(ctx, exe, hists[i], cmd, cwd=bases[i], env=dict(KID_SELF=kid), single=True)
    with cf.ThreadPoolExecutor(N) as ex:
        done = [post(h) for r in ex.map(rec, range(N)) for h in r]

    def what(h, l):
        def show(e):
            return e["op"] + " " + str({k: "".join(v) if isinstance(v, list) and v and isinstance(v[0], str) else v for k, v in e.items() if k not in ("op", "obs", "models", "dirs")})

        def flat(o):
            return {k: "".join(v) if isinstance(v, list) and k != "recs" else [{a: (["".join(x) for x in b] if a == "w" else "".join(b) if a == "p" else b) for a, b in r.items()} for r in v] if k == "recs" else v for k, v in o.items()}
        return "; ".join(show(e) for e in h[max(0, l - 5):l - 1]) + " -> " + str(flat(h[l - 2]["obs"]))[:900]
    vf.validate(ctx, "CompileDrv", done, what=what)
    ctx.add("compilations", sum(e["op"] == "compile" for h in done for e in h))
    ctx.add("successful", sum(e["op"] == "compile" and e["obs"].get("succ") == 1 for h in done for e in h))
    ctx.assumptions.append("an output present before a compilation counts as existing; paths without symbolic links or colons; the compiler and the engines are stand-ins following the documented command lines")
