"""C10: the Python session: views shown to a stand-in model decided by
PySess.tla, and every order of keeping and releasing outputs by PyOwn.tla."""
import itertools, json, os, shutil, subprocess
import vf

DTS = ["f2", "f4", "f8", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "?", "c8", "c16", "O"]
UNSUP = [">f4", ">i8", "g", "U3", "S2", "M8[s]", "rec", "Oint", "Omix"]
SIGN = {"f4": "f32", "f8": "f64", "i8": "i64", "i4": "i32", "i2": "i16", "i1": "i8", "u1": "ui8", "u2": "ui16", "u4": "ui32", "u8": "ui64", "?": "i1", "f2": "f16", "O": "string"}


class H:
    """A history under construction, with the layout of its views."""

    def __init__(self, rng):
        self.ev, self.v, self.nb, self.rng, self.keep, self.stamp = [], [], 0, rng, 0, 0

    def base(self, dt, n, mis=0):
        self.nb += 1
        self.v.append(([n], dt, [1]))
        self.ev.append(dict(op="base", id=len(self.v), dt=dt, mis=mis, vals=[(i * 7 + 3 * self.nb) % 61 for i in range(n)]))
        return len(self.v)

    def view(self, of, f, x):
        s, dt, _ = self.v[of - 1]
        s = list(s)
        if f in ("shape", "shapeF"):
            s = list(x)
        elif f == "perm":
            s = [s[i - 1] for i in x]
        elif f == "slice":
            s[x[0] - 1] = x[3]
        elif f == "new":
            s.insert(x[0] - 1, 1)
        elif f == "index":
            del s[x[0] - 1]
        elif f == "bcast":
            s[x[0] - 1] = x[1]
        self.v.append((s, dt, None))
        self.ev.append(dict(op="view", id=len(self.v), of=of, f=f, x=list(x), dt=dt))
        return len(self.v)

    def shape(self, i):
        return self.v[i - 1][0]

    def run(self, ins, outs, mode="plain", fail="", noentry=0, keep=True):
        self.stamp += 1
        k = []
        if keep:
            k = list(range(self.keep + 1, self.keep + 1 + len(outs)))
            self.keep += len(outs)
        self.ev.append(dict(op="run", ins=ins, outs=outs, mode=mode, fail=fail, noentry=noentry, keep=k, stamp=self.stamp))
        return k

    def op(self, op, **kw):
        self.ev.append(dict(op=op, **kw))

    def scratch(self, forget=0):
        self.op("scratch", forget=forget, dts=[e["dt"] for e in self.ev if e["op"] == "base"])

    def twist(self, i):
        """One more random view operation."""
        rng, s = self.rng, self.shape(i)
        f = rng.choice(["perm", "slice", "slice", "new", "index", "bcast", "ro"])
        r = len(s)
        if f == "perm" and r > 1:
            p = list(range(1, r + 1))
            rng.shuffle(p)
            return self.view(i, "perm", p)
        if f == "slice" and r:
            ax = rng.randrange(r)
            n = s[ax]
            if n == 0 or rng.random() < .1:
                return self.view(i, "slice", [ax + 1, 0, 1, 0])
            k = rng.randint(1, n)
            step = rng.choice([1, -1, 2, -2])
            while (k - 1) * abs(step) >= n:
                k -= 1
            lo = rng.randint(0, n - 1 - (k - 1) * abs(step))
            return self.view(i, "slice", [ax + 1, lo if step > 0 else lo + (k - 1) * abs(step), step, k])
        if f == "new" and r < 4:
            return self.view(i, "new", [rng.randint(1, r + 1)])
        if f == "index" and r and min(s) > 0:
            ax = rng.randrange(r)
            return self.view(i, "index", [ax + 1, rng.randrange(s[ax])])
        if f == "bcast" and 1 in s:
            ax = s.index(1)
            return self.view(i, "bcast", [ax + 1, rng.choice([0, 2, 3])])
        if f == "ro":
            return self.view(i, "ro", [])
        return i


def outs_for(rng, nin, n, objs):
    os_ = []
    for p in range(n):
        k = rng.choice(["echo", "echo", "aligned", "alias", "dup", "const", "val", "str"])
        if k in ("echo", "aligned", "alias") and nin:
            os_.append(dict(k=k, a=rng.randrange(nin)))
        elif k == "dup" and [j for j in range(p) if os_[j]["k"] in ("echo", "aligned", "val", "valal")]:
            os_.append(dict(k=k, a=rng.choice([j for j in range(p) if os_[j]["k"] in ("echo", "aligned", "val", "valal")])))
        else:
            os_.append(dict(k=k if k in ("const", "val", "str") else "valal", a=rng.randint(1, 50)))
    return os_


def histories(ctx, rng):
    hs = []
    # every layout of a small array, for every element type
    shapes = [[6], [2, 3], [3, 2, 2], [1, 4], [0, 3], [1]]
    tw = [None]
    for s in shapes:
        r = len(s)
        cands = [("perm", list(p)) for p in itertools.permutations(range(1, r + 1))]
        for ax in range(r):
            n = s[ax]
            for step in (1, -1, 2):
                for k in range(0, n + 1):
                    if (k - 1) * abs(step) < n:
                        cands.append(("slice", [ax + 1, (0 if step > 0 else max(0, (k - 1) * abs(step))), step, k]))
                        if k and (k - 1) * abs(step) + 1 < n:
                            cands.append(("slice", [ax + 1, 1 if step > 0 else 1 + (k - 1) * abs(step), step, k]))
            if n:
                cands.append(("index", [ax + 1, n - 1]))
            if n == 1:
                cands.append(("bcast", [ax + 1, 3]))
        cands += [("new", [i]) for i in range(1, r + 2)] + [("ro", [])]
        for dt in (DTS if ctx.thorough else rng.sample(DTS, 8)):
            h = H(rng)
            n = 1
            for d in s:
                n *= d
            b = h.base(dt, n, mis=rng.choice([0, 0, 1]) if dt != "O" else 0)
            for order in ("shape", "shapeF"):
                v = h.view(b, order, s)
                h.run([v], [dict(k="echo", a=0)], rng.choice(["plain", "c"]), keep=False)
                for f, x in (cands if order == "shape" or ctx.thorough else rng.sample(cands, len(cands) // 3)):
                    w = h.view(v, f, x)
                    h.run([w], [dict(k=rng.choice(["echo", "aligned", "alias"]), a=0)], rng.choice(["plain", "plain", "c", "s"]), keep=False)
                    if rng.random() < .3:
                        w = h.view(w, "ro", [])
                        h.run([w], [dict(k=rng.choice(["echo", "alias"]), a=0)], "plain", keep=False)
            hs.append(h.ev)
    # unsupported inputs, alone and behind good ones
    for dt in UNSUP:
        h = H(rng)
        g = h.base("f4", 4)
        gr = h.view(g, "ro", [])
        b = h.base(dt, 5)
        br = h.view(b, "ro", [])
        for ins in ([b], [g, b], [gr, b], [gr, g, br], [br, gr], [g]):
            h.run(ins, [dict(k="const", a=2)])
        h.op("look")
        hs.append(h.ev)
    # random chains of views, several inputs and outputs, kept for long
    for _ in range(300 if not ctx.thorough else 3000):
        h = H(rng)
        tops = []
        for _ in range(rng.randint(1, 3)):
            s = [rng.choice([1, 2, 3, 2, 0 if rng.random() < .2 else 2]) for _ in range(rng.randint(0, 3))]
            n = 1
            for d in s:
                n *= d
            dt = rng.choice(DTS)
            b = h.base(dt, n, mis=rng.choice([0, 0, 3]) if dt != "O" else 0)
            i = h.view(b, rng.choice(["shape", "shapeF"]), s)
            for _ in range(rng.randint(0, 4)):
                i = h.twist(i)
                if rng.random() < .3:
                    tops.append(i)
            tops.append(i)
        kept = []
        for _ in range(rng.randint(1, 6)):
            ins = [rng.choice(tops) for _ in range(rng.randint(0, 3))]
            o = outs_for(rng, len(ins), rng.randint(0, 4), None)
            fail, noentry = "", 0
            mode = rng.choice(["plain", "plain", "plain", "c", "s", "sc"])
            q = rng.random()
            if q < .08:
                o.append(dict(k=rng.choice(["fp8", "bf16", "nullt", "behind"]), a=0))
            elif q < .12:
                fail = "null"
            elif q < .15:
                mode, fail = rng.choice(["s", "sc"]), rng.choice(["segv", "abrt"])
            elif q < .18:
                noentry = 1
            k = h.run(ins, o, mode, fail, noentry)
            if not (fail or noentry or o and o[-1]["k"] in ("fp8", "bf16", "nullt", "behind")):
                kept += k
            h.op("look")
            while kept and rng.random() < .4:
                h.op("drop", outs=[kept.pop(rng.randrange(len(kept)))])
                h.op("look")
        if rng.random() < .6:
            h.scratch(rng.choice([0, 0, 1]))
            h.op("look")
        if rng.random() < .6:
            h.op("close")
            h.op("look")
        if rng.random() < .3:
            h.scratch(1)
            h.op("look")
        rng.shuffle(kept)
        for k in kept[:rng.randint(0, len(kept))]:
            h.op("drop", outs=[k])
            h.op("look")
        hs.append(h.ev)
    # generated inputs come as arrays of the right kind
    for dt, t in SIGN.items():
        h = H(rng)
        for s in ([3], [2, 2], []):
            sig = [dict(type=t, dims=s, name="x"), dict(type="i64", dims=[2], name="y")]
            txt = "[ " + " , ".join('{ "type" : "%s" , "dims" : [%s] , "name" : "%s" }' % (x["type"], " , ".join(map(str, x["dims"])), x["name"]) for x in sig) + " ]\n"
            h.op("fill", sig=txt, seed=rng.randint(0, 99), vi="0:val1,1:val1", val=1, bad=0, want=[dict(dt=dt, shape=s), dict(dt="i8", shape=[2])])
        hs.append(h.ev)
    h = H(rng)
    h.op("fill", sig='[ { "type" : "i64" , "dims" : [2] , "name" : "y" } , { "type" : "f32" , "dims" : [-1] , "name" : "x" } ]\n', seed=3, vi="", val=0, bad=1, want=[])
    hs.append(h.ev)
    return hs


def headers():
    """The installed pybind11 predates numpy 2: give its view of a dtype the
    layout of the installed numpy."""
    d = os.path.join(vf.BUILD, "pybind")
    dst = os.path.join(d, "pybind11")
    for root, _, fs in os.walk("/usr/include/pybind11"):
        to = os.path.join(dst, os.path.relpath(root, "/usr/include/pybind11"))
        os.makedirs(to, exist_ok=True)
        for f in fs:
            t = open(os.path.join(root, f)).read()
            if f == "numpy.h":
                old = "    char flags;\n    int type_num;\n    int elsize;\n    int alignment;\n    char *subarray;\n"
                if old not in t:
                    raise vf.CheckError("unexpected pybind11")
                t = t.replace(old, "    char former_flags;\n    int type_num;\n    std::uint64_t flags;\n    ssize_t elsize;\n    ssize_t alignment;\n    PyObject *metadata;\n    Py_hash_t hash;\n    void *reserved[2];\n    char *subarray;\n")
            q = os.path.join(to, f)
            if not os.path.exists(q) or open(q).read() != t:
                open(q, "w").write(t)
    return d


def build(ctx):
    inc = ["-I" + headers(), "-isystem", "/usr/include/python3.12"]
    trk = vf.build(ctx, "trk", [f"{vf.HARN}/trk.c"], shared=True, san=False)
    wrap = ["-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc", trk]
    rt = ["src/Runtime/OMTensor.c", "src/Runtime/OMTensorList.c", "src/Runtime/OnnxDataType.c", "src/Support/SmallFPConversion.c", "src/Runtime/OMInstrument.c"]
    ext = vf.build(ctx, "PyRuntimeC", ["src/Runtime/python/PyExecutionSession.cpp", "src/Runtime/ExecutionSession.cpp", "src/Runtime/OMTensorHelper.cpp", "src/Runtime/OMTensorListHelper.cpp"] + rt,
                   cflags=["-fvisibility=hidden", "-U_FORTIFY_SOURCE"] + inc, ldflags=["-Wl,-Bsymbolic"] + wrap, shared=True, san=False)
    mdl = vf.build(ctx, "model", [f"{vf.HARN}/pymodel.c"] + rt, cflags=["-U_FORTIFY_SOURCE"], ldflags=["-Wl,-Bsymbolic"] + wrap, shared=True, san=False)
    return trk, ext, mdl


def run(ctx):
    trk, ext, mdl = build(ctx)
    exe = f"{vf.HARN}/pysess_h.py"
    args = [os.path.dirname(ext), f"{vf.REPO}/src/Runtime/python", mdl, trk]
    env = dict(PYTHONHASHSEED="0", PYTHONMALLOC="malloc" if ctx.thorough else "")
    if not env["PYTHONMALLOC"]:
        del env["PYTHONMALLOC"]
    rng = ctx.rng
    hs = histories(ctx, rng)
    vf.record_and_validate(ctx, exe, "PySess", hs, lambda e: e["op"] + " " + json.dumps(e), args=args, env=env)
    # ownership
    cfg = vf.tour_cfg("CONSTANTS NSlots = %d MaxOut = 2\nINVARIANT Bounded\nPROPERTY Stable" % (3 if ctx.thorough else 2))
    t = vf.Tour(vf.tlc(ctx, "PyOwn", cfg))

    def encode(a, to):
        op = a["op"]
        d = dict(orun=lambda: dict(outs=a["outs"], fail=a["fail"], mode=a["mode"]), odel=lambda: dict(i=a["i"]), oview=lambda: dict(i=a["i"]),
                 owrite=lambda: dict(i=a["i"]), oin=lambda: dict(how=a["mode"], v=a["i"]), oclose=dict, oopen=dict)[op]()
        return op + " " + json.dumps(d)

    def compare(a, to, o):
        if "exc" in o:
            return o["exc"]
        if a["op"] == "RESET":
            return None
        want = dict(vals={str(i + 1): x["v"] for i, x in enumerate(to["hs"]) if x["v"] != -1}, inp=to["ver"], named=a["named"], leak=0, bad=0)
        if a["op"] == "orun":
            want["err"] = a["err"]
        bad = {k: (v, o.get(k)) for k, v in want.items() if o.get(k) != v}
        return f"(expected, observed): {bad}" + (" " + o.get("msg", "")) if bad else None
    ctx.add("edges", t.nedges)
    vf.replay_walks(ctx, exe, t.walks(rng, limit=60000 if ctx.thorough else 12000), encode, compare, args=args, env=env)
    ctx.assumptions += ["the model does not write to its inputs, and returns contiguous outputs whose strings are UTF-8 without NUL", "writes through one of two outputs sharing a buffer are not exercised"]
