"""Random models of the ONNX dialect: nodes for the specification (OnnxOps.tla)
and the same model as MLIR text, in any of its forms (static or dynamic
dimensions, operands as inputs or constants). Shapes computed here only steer
the generation; the specification computes its own."""
import math
import random

FLOATS = {"f64", "f32", "f16", "bf16"}
MT = {"u8": "ui8", "u16": "ui16", "u32": "ui32", "u64": "ui64"}
BIG = 2000000000
NAN, INF, NINF = 2000000001, 2000000002, 2000000003


def mt(ty):
    return MT.get(ty, ty)


def fnum(c):
    """MLIR text of a float coded as four times its value."""
    return f"{c/4:.6e}"


class T:
    def __init__(s, id, ty, sh, mx, frac=False, lo=None):
        s.id, s.ty, s.sh, s.mx, s.frac, s.isap = id, ty, sh, mx, frac, False

    @property
    def r(s):
        return len(s.sh)


def prod(s):
    return math.prod(s)


def bshape(*shs):
    n = max(map(len, shs))
    o = []
    for i in range(n):
        d = [s[i - (n - len(s))] for s in shs if i >= n - len(s)]
        o.append(next((x for x in d if x != 1), 1))
    return o


class Model:
    """kind of a leaf: 'data' (usually an input), 'par' (weights, shapes: input or
    constant), 'const' (always a constant)."""

    def __init__(s, rng, chain=0.0):
        s.rng, s.chain = rng, chain
        s.ev, s.lines, s.leaves, s.ts = [], [], [], []
        s.aps = []                # results known approximately
        s.spell = {}              # constants whose text differs from what the specification is told
        s.n = 0
        s.outs = []
        s.bar = set()             # forms left out: 'dyn' dynamic shapes, 'run' anything computed at run time
        s.fixed = set()           # leaves whose shape every form gives
        s.ops = []
        s.isleaf = set()
        s.none = False            # the NoValue constant is needed inside a body

    def leaf(s, ty, sh, v, kind="data"):
        s.n += 1
        s.ev.append(dict(op="in", ty=ty, sh=list(sh), v=list(v)))
        s.leaves.append((s.n, ty, list(sh), list(v), kind))
        s.isleaf.add(s.n)
        t = T(s.n, ty, list(sh), max([abs(x) for x in v] + [0]),
              ty in FLOATS and any(x % 4 for x in v))
        if kind == "data":
            s.ts.append(t)
        return t

    def vals(s, ty, n, lo=-4, hi=4, frac=False):
        if ty == "i1":
            return [s.rng.randint(0, 1) for _ in range(n)]
        if ty.startswith("u"):
            lo = max(lo, 0)
        if ty in FLOATS:
            return [s.rng.randint(lo * 4, hi * 4) if frac else 4 * s.rng.randint(lo, hi) for _ in range(n)]
        return [s.rng.randint(lo, hi) for _ in range(n)]

    def data(s, ty, sh, lo=-4, hi=4, frac=False, mx=400, v=None, kind="data"):
        """A tensor of this type and shape: an earlier one, or a new leaf."""
        if v is None and s.chain and s.rng.random() < s.chain:
            c = [t for t in s.ts if t.ty == ty and t.sh is not None and t.sh == list(sh) and t.mx <= mx
                 and (frac or not t.frac)]
            if c:
                return s.rng.choice(c[-3:])
        return s.leaf(ty, sh, s.vals(ty, prod(sh), lo, hi, frac) if v is None else v, kind)

    def any(s, ty=None, rank=None, minr=0, maxr=4, mx=400, frac=True, dims=(1, 2, 3, 4), tys=("f32",), lo=-4, hi=4):
        """A tensor of any shape of suitable rank."""
        r = s.rng
        if s.chain and r.random() < s.chain:
            c = [t for t in s.ts if t.sh is not None and t.ty in ([ty] if ty else tys) and t.mx <= mx and (frac or not t.frac)
                 and (t.r == rank if rank is not None else minr <= t.r <= maxr) and prod(t.sh) > 0]
            if c:
                return r.choice(c[-3:])
        k = rank if rank is not None else r.randint(minr, maxr)
        return s.data(ty or r.choice(tys), s.shape(k, dims), lo, hi, frac and r.random() < .3, mx)

    def shape(s, k, dims=(1, 2, 3, 4)):
        while True:
            sh = [s.rng.choice(dims) for _ in range(k)]
            if prod(sh) <= 72:
                return sh

    def par(s, ty, sh, v, kind="par"):
        return s.leaf(ty, sh, v, kind)

    def ints(s, v, ty="i64", kind="par", scalar=False):
        t = s.leaf(ty, [] if scalar else [len(v)], v, kind)
        s.fixed.add(t.id)
        return t

    def stat(s, *ts):
        """The shapes of these are known in every form."""
        for t in ts:
            if t.id in s.isleaf:
                s.fixed.add(t.id)
            else:
                s.bar.add("dyn")

    def node(s, op, ins, outs, attrs="", mlir=None, mx=None, frac=None, names=None, keep=None, ap=None, **fields):
        """ap: shape and bound of an approximate result. outs: (type, shape or None) each. attrs: MLIR attribute text."""
        ids = [t.id if t else 0 for t in ins]
        s.ev.append(dict(op=op, ins=ids, **fields))
        res = []
        known = [t.mx for t in ins if t]
        for k, (ty, sh) in enumerate(outs):
            s.n += 1
            t = T(s.n, ty, None if sh is None else list(sh), (mx if mx is not None else max(known + [1])),
                  (any(t.frac for t in ins if t) if frac is None else frac) and ty in FLOATS)
            if ty == "seq":
                t.sh = None
            res.append(t)
        s.lines.append((mlir or "onnx." + op, ids, [t.id for t in res], [ty for ty, _ in outs], attrs, names))
        s.ops.append(op)
        known = [t for t in ins if t]
        if op in EW and (len(known) > 2 or any(t.id not in s.isleaf for t in known)):
            # known finding: fused operations do not broadcast a last dimension that turns out to be one
            for t in known:
                if t.id in s.isleaf and t.sh and t.sh[-1] == 1 and any(u.sh is None or u.sh and u.sh[-1] != 1 for u in known):
                    s.fixed.add(t.id)
        for k, t in enumerate(res):
            if keep is None or k in keep:
                s.outs.append(t)
                if ap or any(u.isap for u in ins if u):
                    t.isap, t.frac = True, False
                    if ap and ap[0] is not None:
                        t.sh, t.mx = list(ap[0]), 4 * ap[1]
                    if t.sh is not None:
                        s.aps.append(t)
                else:
                    s.ts.append(t)
        return res

    def opt(s, name, val, default, text):
        """Attribute text, left out at random when it has its default."""
        if val == default and s.rng.random() < .5:
            return []
        return [f"{name} = {text}"]


EW = {"Add", "Sub", "Mul", "Max", "Min", "Sum", "Mean", "Div", "DivF", "Mod", "Pow", "PRelu", "And", "Or", "Xor",
      "BitwiseAnd", "BitwiseOr", "BitwiseXor", "BitShift", "Equal", "Greater", "GreaterOrEqual", "Less",
      "LessOrEqual", "Where", "Clip"}


def si(x):
    return f"{x} : si64"


def ia(v):
    return "[" + ", ".join(map(str, v)) + "]"


def fa(c):
    return f"{fnum(c)} : f32"


def lit(ty, v):
    if ty == "i1":
        return "true" if v else "false"
    if ty in FLOATS:
        if v == NAN:
            return {"f32": "0x7FC00000", "f64": "0x7FF8000000000000"}[ty]
        if v == INF:
            return {"f32": "0x7F800000", "f64": "0x7FF0000000000000"}[ty]
        if v == NINF:
            return {"f32": "0xFF800000", "f64": "0xFFF0000000000000"}[ty]
        return fnum(v)
    return str(v)


def ttype(ty, sh):
    return "tensor<" + "".join(f"{d}x" for d in sh) + mt(ty) + ">"


def dense(ty, sh, v):
    if not v or len(set(v)) == 1 and len(v) > 1:
        return f"dense<{lit(ty, v[0]) if v else ''}> : {ttype(ty, sh)}"

    def nest(sh, v):
        if not sh:
            return lit(ty, v[0])
        k = len(v) // sh[0] if sh[0] else 0
        return "[" + ", ".join(nest(sh[1:], v[i * k:(i + 1) * k]) for i in range(sh[0])) + "]"
    return f"dense<{nest(sh, v)}> : {ttype(ty, sh)}"


def line(L, ty, form, rng):
    name, ids, outs, otys, attrs, special = L
    if special:
        b = special(ty, form, rng, ids, outs).split("\n")
        for o, t in zip(outs, otys):
            ty[o] = f"tensor<*x{mt(t)}>"
        return b
    for o, t in zip(outs, otys):
        ty[o] = f"tensor<*x{mt(t)}>" if t != "none" else "none"
    lhs = ", ".join(f"%v{o}" for o in outs)
    a = ", ".join(attrs) if isinstance(attrs, list) else attrs
    return [f'    {lhs} = "{name}"({", ".join(f"%v{i}" for i in ids)})' + (f" {{{a}}}" if a else "") +
            f' : ({", ".join(ty[i] for i in ids)}) -> ({", ".join(ty[o] for o in outs)})']


def text(m, form, rng):
    """MLIR text of the model and the leaves that are inputs. form: dict with
    dyn in {'static','dynamic','some'}, const in {'none','par','some','all'}."""
    args, body, ins = [], [], []
    ty = {0: "none"}
    form = dict(form)
    if "dyn" in m.bar:
        form["dyn"] = "static"
    if "run" in m.bar:
        form["const"] = "all"
    for id, t, sh, v, kind in m.leaves:
        c = dict(none=False, par=kind == "par", some=rng.random() < .5, all=True)[form["const"]] or kind == "const"
        if form["const"] in ("none", "some") and kind == "par":
            c = form.get("parconst", True) if form["const"] == "none" else rng.random() < .6
            c = c or bool(m.chain and "dyn" in m.bar)
        if 0 in sh and c:
            c = kind == "const"
        if c:
            ty[id] = ttype(t, sh)
            body.append(f'    %v{id} = "onnx.Constant"() {{value = {f"dense<{m.spell[id]}> : {ty[id]}" if id in m.spell else dense(t, sh, v)}}} : () -> {ty[id]}')
        else:
            d = form["dyn"]
            ds = ["?" if kind != "fixed" and id not in m.fixed and (d == "dynamic" or d == "some" and rng.random() < .5) else str(x) for x in sh]
            ty[id] = "tensor<" + "".join(x + "x" for x in ds) + mt(t) + ">"
            args.append(f'%v{id}: {ty[id]} {{onnx.name = "i{id}"}}')
            ins.append((id, t, sh, v))
    if m.none or any(0 in L[1] and not L[5] for L in m.lines):
        body.insert(0, '    %v0 = "onnx.NoValue"() {value} : () -> none')
    for L in m.lines:
        body += line(L, ty, form, rng)
    outs = [t.id for t in m.outs]
    res = ", ".join(f'{ty[o]} {{onnx.name = "o{o}"}}' for o in outs)
    L = ["module {", f"  func.func @main_graph({', '.join(args)}) -> ({res}) {{"] + body
    L += [f'    onnx.Return {", ".join(f"%v{o}" for o in outs)} : {", ".join(ty[o] for o in outs)}', "  }",
          '  "onnx.EntryPoint"() {func = @main_graph} : () -> ()', "}"]
    return L, ins


# ------------------------------------------------------------------ operators
G = {}


def gen(*names):
    def d(f):
        for n in names:
            G[n] = f
        return f
    return d


FT = ("f32", "f32", "f32", "f64")
NT = ("f32", "f32", "f64", "i32", "i64")


def bpair(m, ty, n=2, **k):
    """n tensors with shapes that broadcast together."""
    return [m.data(ty, sh, **k) for sh in bshapes(m, n)]


def bshapes(m, n=2):
    r = m.rng
    full = m.shape(r.randint(0, 4))
    if r.random() < .15:
        full = full[:-1] + [r.choice([8, 17, 20])] if full and prod(full[:-1]) <= 6 else full
    ts = []
    for i in range(n):
        sh = list(full)
        c = r.random()
        if c < .45:
            pass
        else:
            sh = sh[r.randint(0, len(sh)):]
            sh = [1 if r.random() < .3 else d for d in sh]
        ts.append(sh)
    return ts


@gen("Add", "Sub", "Mul", "Max", "Min", "Sum")
def g_arith(m, op):
    r = m.rng
    ty = r.choice(NT if op not in ("Sum",) else FT)
    n = 2 if op in ("Add", "Sub", "Mul") else r.randint(1, 4)
    ts = bpair(m, ty, n, frac=op != "Mul", mx=100 if op == "Mul" else 4000)
    sh = bshape(*[t.sh for t in ts])
    mx = dict(Add=sum(t.mx for t in ts), Sub=sum(t.mx for t in ts), Sum=sum(t.mx for t in ts),
              Mul=math.prod(max(1, t.mx) for t in ts)).get(op, max(t.mx for t in ts))
    m.node(op, ts, [(ty, sh)], mx=mx)


@gen("Mean")
def g_mean(m, op):
    ts = bpair(m, "f32", m.rng.randint(1, 3))
    m.node(op, ts, [("f32", None)], ap=(bshape(*[t.sh for t in ts]), max(t.mx for t in ts) / 4))


@gen("Div")
def g_div(m, op):
    r = m.rng
    a, b = bshapes(m)
    ty = r.choice(["f32", "f64", "i32", "i64"])
    x = m.leaf(ty, a, m.vals(ty, prod(a), -9, 9))
    y = m.leaf(ty, b, [v if v else 4 for v in m.vals(ty, prod(b), -5, 5)])
    sh = bshape(a, b)
    if ty in FLOATS:
        m.node("DivF", [x, y], [(ty, None)], mlir="onnx.Div", ap=(sh, 9))
    else:
        m.node("Div", [x, y], [(ty, sh)], frac=False)


@gen("Mod")
def g_mod(m, op):
    r = m.rng
    ty = r.choice(["i32", "i64", "f32"])
    fm = 1 if ty in FLOATS else 0
    s1 = m.shape(r.randint(1, 3))
    s2 = r.choice([s1, [1], s1[-1:]])
    x = m.leaf(ty, s1, m.vals(ty, prod(s1), -9, 9))
    y = m.leaf(ty, s2, [v if v else 4 for v in m.vals(ty, prod(s2), -5, 5)])
    m.node(op, [x, y], [(ty, s1)], attrs=m.opt("fmod", fm, 0, si(fm)), fmod=fm)


@gen("Pow")
def g_pow(m, op):
    r = m.rng
    s1 = m.shape(r.randint(1, 3))
    x = m.leaf("f32", s1, m.vals("f32", prod(s1), -3, 3))
    s2 = r.choice([[], [1], s1])
    y = m.leaf("f32", s2, [4 * r.randint(0, 4) for _ in range(prod(s2))], r.choice(["par", "data"]))
    m.node(op, [x, y], [("f32", s1)], mx=400)


@gen("PRelu")
def g_prelu(m, op):
    r = m.rng
    x = m.any("f32", minr=1, frac=False)
    s2 = x.sh[r.randint(0, x.r):]
    s2 = [1 if r.random() < .3 else d for d in s2]
    y = m.par("f32", s2, m.vals("f32", prod(s2), -3, 3, True))
    m.node(op, [x, y], [("f32", x.sh)], mx=x.mx * 4, frac=True)


@gen("And", "Or", "Xor")
def g_bool2(m, op):
    ts = bpair(m, "i1")
    m.node(op, ts, [("i1", bshape(*[t.sh for t in ts]))])


@gen("BitwiseAnd", "BitwiseOr", "BitwiseXor")
def g_bitw(m, op):
    r = m.rng
    ty = r.choice(["i32", "i64", "i16", "i8"])
    ts = bpair(m, ty, lo=-100, hi=100)
    m.node(op, ts, [(ty, bshape(*[t.sh for t in ts]))], mx=256)


@gen("BitwiseNot")
def g_bnot(m, op):
    x = m.any(m.rng.choice(["i32", "i64", "i16", "i8"]), lo=-100, hi=100)
    m.node(op, [x], [(x.ty, x.sh)], mx=256)


@gen("BitShift")
def g_shift(m, op):
    r = m.rng
    ty = r.choice(["u8", "u16", "u32", "u64"])
    d = r.choice(["LEFT", "RIGHT"])
    sh = m.shape(r.randint(1, 3))
    x = m.leaf(ty, sh, [r.randint(0, 15 if d == "LEFT" else 200) for _ in range(prod(sh))])
    y = m.leaf(ty, r.choice([sh, [1]]), [])
    y.sh and None
    n = prod(y.sh)
    v = [r.randint(0, 4) for _ in range(n)]
    m.ev[-1]["v"] = v
    m.leaves[-1] = m.leaves[-1][:3] + (v,) + m.leaves[-1][4:]
    m.node(op, [x, y], [(ty, sh)], attrs=f'direction = "{d}"', direction=d, mx=256)


@gen("Equal", "Less", "Greater", "LessOrEqual", "GreaterOrEqual")
def g_cmp(m, op):
    r = m.rng
    ty = r.choice(("f32", "f64", "i32", "i64") + (("i1",) if op == "Equal" else ()))
    ts = bpair(m, ty, frac=True, lo=-2, hi=2)
    m.node(op, ts, [("i1", bshape(*[t.sh for t in ts]))], mx=1)


@gen("Where")
def g_where(m, op):
    r = m.rng
    ty = r.choice(NT)
    full = m.shape(r.randint(0, 3))
    cut = lambda: [1 if r.random() < .25 else d for d in full[r.choice([0, 0, r.randint(0, len(full))]):]]
    c = m.data("i1", cut())
    a, b = m.data(ty, cut(), frac=True), m.data(ty, cut(), frac=True)
    m.node(op, [c, a, b], [(ty, bshape(c.sh, a.sh, b.sh))])


@gen("Abs", "Neg", "Relu", "Floor", "Ceil", "Round", "Sign", "Identity", "Not")
def g_unary(m, op):
    r = m.rng
    if op == "Not":
        x = m.any("i1")
    else:
        x = m.any(r.choice(FT if op in ("Floor", "Ceil", "Round") else NT if op != "Relu" else ("f32", "f64", "i32")), frac=True)
        if r.random() < .2 and x.ty in ("f32", "f64") and op in ("Abs", "Neg", "Floor", "Ceil", "Round") and not m.chain:
            v = [r.choice([NAN, INF, NINF, 2, -2, 6, -6, 3, -1]) for _ in range(prod(x.sh))]
            x = m.leaf(x.ty, x.sh, v)
    m.node(op, [x], [(x.ty, x.sh)], frac=False if op in ("Floor", "Ceil", "Round", "Sign") else None)


@gen("Dropout")
def g_dropout(m, op):
    x = m.any(m.rng.choice(FT))
    m.node("Dropout", [x, None, None], [(x.ty, x.sh), ("i1", None)], keep=[0])
    m.n -= 1
    m.lines[-1] = m.lines[-1][:2] + ([m.n, 900 + 4 * m.n],) + m.lines[-1][3:]


@gen("IsNaN", "IsInf")
def g_isnan(m, op):
    r = m.rng
    ty = r.choice(["f32", "f64"])
    sh = m.shape(r.randint(0, 3))
    x = m.leaf(ty, sh, [r.choice([NAN, INF, NINF, 0, 4, -6]) for _ in range(prod(sh))])
    p = n = 1
    a = m.opt("detect_positive", p, 1, si(p)) + m.opt("detect_negative", n, 1, si(n)) if op == "IsInf" else []
    m.node(op, [x], [("i1", sh)], attrs=a, detect_positive=p, detect_negative=n, mx=1)


@gen("LeakyRelu", "ThresholdedRelu", "HardSigmoid", "Shrink", "Binarizer")
def g_param(m, op):
    r = m.rng
    x = m.any("f32" if op != "Binarizer" else "f32", frac=op != "LeakyRelu" and op != "HardSigmoid")
    f = dict(alpha=r.choice([1, 2, 4, 8]), beta=r.choice([0, 2, 4]), bias=r.choice([0, 2, 4]), lambd=r.choice([1, 2, 6]),
             threshold=r.choice([0, 2, -2]))
    n = dict(LeakyRelu=["alpha"], ThresholdedRelu=["alpha"], HardSigmoid=["alpha", "beta"], Shrink=["bias", "lambd"],
             Binarizer=["threshold"])[op]
    d = dict(Shrink=dict(bias=0, lambd=2), ThresholdedRelu=dict(alpha=4), Binarizer=dict(threshold=0)).get(op, {})
    a = []
    for k in n:
        a += m.opt(k, f[k], d.get(k, None), fa(f[k]))
    m.node(op, [x], [(x.ty, x.sh)], attrs=a, mx=x.mx * 2 + 4, frac=True, **f)


TABLED = dict(Exp=(-16, 16), Log=(1, 100), Sqrt=(0, 100), Sin=(-16, 16), Cos=(-16, 16), Tan=(-5, 5), Sinh=(-16, 16),
              Cosh=(-16, 16), Asin=(-4, 4), Acos=(-4, 4), Atan=(-16, 16), Asinh=(-16, 16), Acosh=(4, 32), Atanh=(-3, 3),
              Sigmoid=(-16, 16), Tanh=(-16, 16), Erf=(-16, 16), Softplus=(-16, 16), Softsign=(-16, 16), Elu=(-16, 16),
              Celu=(-16, 16), Selu=(-16, 16), Gelu=(-16, 16), GeluTanh=(-16, 16), Mish=(-16, 16), HardSwish=(-16, 16))


@gen(*TABLED)
def g_tabled(m, op):
    r = m.rng
    lo, hi = TABLED[op]
    sh = m.shape(r.randint(0, 3)) if r.random() < .8 else [r.choice([9, 16, 33])]
    ty = "f64" if r.random() < .2 and op not in ("Celu", "Gelu", "GeluTanh", "Mish", "HardSwish", "Selu", "Elu", "Softplus", "Softsign", "Tanh", "Erf") else "f32"
    x = m.leaf(ty, sh, [r.randint(lo, hi) for _ in range(prod(sh))])
    m.node(op, [x], [(ty, None)], mlir="onnx." + op.replace("GeluTanh", "Gelu"), ap=(sh, 60),
           attrs='approximate = "tanh"' if op == "GeluTanh" else "")


@gen("Reciprocal")
def g_recip(m, op):
    r = m.rng
    sh = m.shape(r.randint(0, 3))
    x = m.leaf("f32", sh, [r.choice([-16, -7, -4, -1, 1, 2, 3, 9]) for _ in range(prod(sh))])
    m.node(op, [x], [("f32", None)], ap=(sh, 4))


@gen("Clip")
def g_clip(m, op):
    r = m.rng
    x = m.any(r.choice(["f32", "f64", "i32", "i64"]))
    one = 4 if x.ty in FLOATS else 1
    lo = m.par(x.ty, [], [one * r.randint(-3, 1)]) if r.random() < .7 else None
    hi = m.par(x.ty, [], [one * r.randint(-1, 3)]) if r.random() < .7 else None
    if lo and hi and lo.mx > hi.mx and False:
        return
    m.node(op, [x, lo, hi], [(x.ty, x.sh)], mx=max(x.mx, 12))


@gen("Cast")
def g_cast(m, op):
    r = m.rng
    tys = ["f32", "f64", "i8", "i16", "i32", "i64", "i1"]
    a, b = r.choice(tys), r.choice(tys)
    x = m.any(a, frac=True, lo=0 if b.startswith("u") else -4)
    m.node(op, [x], [(b, x.sh)], attrs=f"to = {mt(b)}" + (", saturate = 1 : si64" if r.random() < .3 else ""), to=b,
           mx=4 * x.mx + 4)


RED = ["ReduceSum", "ReduceProd", "ReduceMax", "ReduceMin", "ReduceL1", "ReduceSumSquare", "ReduceMean", "ReduceL2", "ReduceLogSum"]


@gen(*RED)
def g_red(m, op):
    r = m.rng
    ty = r.choice(("f32", "f32", "f32", "f64", "i32", "i64")) if op not in ("ReduceMean", "ReduceL2", "ReduceLogSum") else "f32"
    if op == "ReduceLogSum":
        sh = m.shape(r.randint(1, 3), (1, 2, 3))
        x = m.leaf(ty, sh, [r.randint(1, 4) for _ in range(prod(sh))])
    else:
        x = m.any(ty, minr=0 if r.random() < .1 else 1, frac=op in ("ReduceSum", "ReduceMax", "ReduceMin", "ReduceL1"),
                  lo=-2 if op == "ReduceProd" else -4, hi=2 if op == "ReduceProd" else 4, mx=8 if op == "ReduceProd" else 16 if op == "ReduceSumSquare" else 400,
                  dims=(1, 2, 3, 4, 8) if op != "ReduceProd" else (1, 2, 3))
        if op == "ReduceProd" and (prod(x.sh) > 9 or r.random() < .6):
            sh = m.shape(r.randint(1, 3), (1, 2, 2))
            x = m.leaf(ty, sh, m.vals(ty, prod(sh), 1, 2))
    axes = sorted(r.sample(range(x.r), r.randint(0, x.r))) if x.r else []
    if r.random() < .3:
        r.shuffle(axes)
    keep = r.randint(0, 1)
    noop = r.randint(0, 1) if not axes else r.choice([0, 0, 1])
    if noop and not axes:
        keep = 1
    sax = [a - x.r if r.random() < .4 else a for a in axes]
    old = r.random() < .3
    a = m.opt("keepdims", keep, 1, si(keep))
    eff = axes if axes else ([] if noop and not old else list(range(x.r)))
    osh = [1 if i in eff else d for i, d in enumerate(x.sh) if keep or i not in eff]
    n = prod([x.sh[i] for i in eff])
    mx = dict(ReduceProd=16000, ReduceSumSquare=x.mx * x.mx * n).get(op, x.mx * n)
    out = [(ty, None if op in ("ReduceMean", "ReduceL2", "ReduceLogSum") else osh)]
    ap = op in ("ReduceMean", "ReduceL2", "ReduceLogSum")
    if old:
        v = "V11" if op == "ReduceSum" else r.choice(["V13", "V18"]) if op in ("ReduceMax", "ReduceMin") else "V13"
        if v == "V18":
            ax = m.ints(sax, kind="par" if keep else "const") if sax else None
            eff = axes if axes else ([] if noop else list(range(x.r)))
            osh = [1 if i in eff else d for i, d in enumerate(x.sh) if keep or i not in eff]
            m.node(op, [x, ax], [(ty, osh)], mlir=f"onnx.{op}V18", attrs=a + m.opt("noop_with_empty_axes", noop, 0, si(noop)),
                   axes=[], keepdims=keep, noop_with_empty_axes=noop, mx=mx)
            return
        if sax:
            a.append(f"axes = {ia(sax)}")
        m.ev_fields = None
        m.node(op, [x], out, mlir=f"onnx.{op}{v}", attrs=a, axes=sax, keepdims=keep, noop_with_empty_axes=0, mx=mx)
    else:
        ax = m.ints(sax, kind="par" if keep else "const") if sax else None
        a += m.opt("noop_with_empty_axes", noop, 0, si(noop))
        m.node(op, [x, ax], out, attrs=a, axes=[], keepdims=keep, noop_with_empty_axes=noop, mx=mx)


@gen("ArgMax", "ArgMin")
def g_arg(m, op):
    r = m.rng
    x = m.any(r.choice(["f32", "i32", "i64"]), minr=1, lo=-2, hi=2)
    ax, keep, last = r.randrange(-x.r, x.r), r.randint(0, 1), 0
    osh = [1 if i == ax % x.r else d for i, d in enumerate(x.sh) if keep or i != ax % x.r]
    m.node(op, [x], [("i64", osh)], attrs=m.opt("axis", ax, 0, si(ax)) + m.opt("keepdims", keep, 1, si(keep)) +
           m.opt("select_last_index", last, 0, si(last)), axis=ax, keepdims=keep, select_last_index=last, mx=8)


@gen("TopK")
def g_topk(m, op):
    r = m.rng
    x = m.any(r.choice(["f32", "i32", "i64"]), minr=1, maxr=3, lo=-3, hi=3, dims=(1, 2, 3, 4, 6))
    ax = r.choice([-1, x.r - 1])
    k = r.randint(1, x.sh[ax])
    kt = m.ints([k])
    big = r.randint(0, 1)
    osh = list(x.sh)
    osh[ax] = k
    m.node(op, [x, kt], [(x.ty, osh), ("i64", osh)], attrs=m.opt("axis", ax, -1, si(ax)) + m.opt("largest", big, 1, si(big)) +
           m.opt("sorted", 1, 1, si(1)), axis=ax, largest=big)


@gen("CumSum")
def g_cumsum(m, op):
    r = m.rng
    x = m.any(r.choice(["f32", "f64", "i32", "i64"]), minr=1, maxr=3)
    ax = r.randrange(-x.r, x.r)
    a = m.par("i64" if r.random() < .6 else "i32", [], [ax])
    e, v = r.randint(0, 1), r.randint(0, 1)
    m.node(op, [x, a], [(x.ty, x.sh)], attrs=m.opt("exclusive", e, 0, si(e)) + m.opt("reverse", v, 0, si(v)), exclusive=e, reverse=v, mx=x.mx * 6)


@gen("Hardmax")
def g_hardmax(m, op):
    r = m.rng
    x = m.any("f32", minr=1, lo=-2, hi=2)
    ax = r.randrange(-x.r, x.r)
    m.node(op, [x], [("f32", x.sh)], attrs=m.opt("axis", ax, -1, si(ax)), axis=ax, mx=4, frac=False)


@gen("Softmax")
def g_softmax(m, op):
    r = m.rng
    sh = m.shape(r.randint(1, 3), (1, 2, 3, 4))
    x = m.leaf("f32", sh, [r.randint(-12, 12) for _ in range(prod(sh))])
    ax = r.randrange(-len(sh), len(sh))
    m.node(op, [x], [("f32", None)], attrs=m.opt("axis", ax, -1, si(ax)), axis=ax, ap=(sh, 1))


# -- moving data
MOVE = ("f32", "f32", "i64", "i32", "f64", "i8", "u8", "i1")


@gen("Transpose")
def g_tr(m, op):
    r = m.rng
    x = m.any(r.choice(MOVE), minr=0 if r.random() < .05 else 1, maxr=5 if r.random() < .1 else 4)
    p = list(range(x.r))
    r.shuffle(p)
    a = f"perm = {ia(p)}"
    if r.random() < .15:
        p, a = list(range(x.r))[::-1], ""
    m.node(op, [x], [(x.ty, [x.sh[i] for i in p])], attrs=a, perm=p)


def factor(r, n, k):
    """k positive dimensions with product n."""
    d = []
    for _ in range(k - 1):
        f = r.choice([f for f in range(1, n + 1) if n % f == 0])
        d.append(f)
        n //= f
    d.append(n)
    r.shuffle(d)
    return d


@gen("Reshape")
def g_reshape(m, op):
    r = m.rng
    x = m.any(r.choice(MOVE), maxr=4)
    k = r.randint(1, 4)
    osh = factor(r, prod(x.sh), k)
    if r.random() < .1 and prod(x.sh) == 1:
        osh = []
    s = list(osh)
    if s and r.random() < .5:
        s[r.randrange(len(s))] = -1
    az = r.choice([0, 0, 0, 1])
    if not az:
        for i in range(min(len(s), x.r)):
            if s[i] == x.sh[i] and s[i] != -1 and r.random() < .4:
                s[i] = 0
    st = m.ints(s)
    m.node(op, [x, st], [(x.ty, osh)], attrs=m.opt("allowzero", az, 0, si(az)), allowzero=az, mx=x.mx)


@gen("Flatten")
def g_flat(m, op):
    r = m.rng
    x = m.any(r.choice(MOVE), minr=1)
    ax = r.randint(-x.r, x.r)
    a = ax % x.r if ax < 0 else ax
    m.node(op, [x], [(x.ty, [prod(x.sh[:a]), prod(x.sh[a:])])], attrs=m.opt("axis", ax, 1, si(ax)), axis=ax)


@gen("Squeeze", "SqueezeV11")
def g_squeeze(m, op):
    r = m.rng
    x = m.any(r.choice(MOVE), minr=1, dims=(1, 1, 2, 3))
    ones = [i for i, d in enumerate(x.sh) if d == 1]
    axes = r.sample(ones, r.randint(0, len(ones)))
    sax = [a - x.r if r.random() < .4 else a for a in axes]
    if not axes:
        axes = ones
        m.bar.add("dyn")          # the rank depends on the dimensions
    osh = [d for i, d in enumerate(x.sh) if i not in axes]
    if op == "Squeeze":
        m.node("Squeeze", [x, m.ints(sax, kind="const") if sax else None], [(x.ty, osh)], axes=[], mx=x.mx)
    else:
        m.node("Squeeze", [x], [(x.ty, osh)], mlir="onnx.SqueezeV11", attrs=f"axes = {ia(sax)}" if sax else "", axes=sax)


@gen("Unsqueeze", "UnsqueezeV11")
def g_unsqueeze(m, op):
    r = m.rng
    x = m.any(r.choice(MOVE), maxr=3)
    k = r.randint(1, 2)
    n = x.r + k
    axes = r.sample(range(n), k)
    sax = [a - n if r.random() < .4 else a for a in axes]
    it = iter(x.sh)
    osh = [1 if i in axes else next(it) for i in range(n)]
    if op == "Unsqueeze":
        m.node("Unsqueeze", [x, m.ints(sax, kind="const")], [(x.ty, osh)], axes=[], mx=x.mx)
    else:
        m.node("Unsqueeze", [x], [(x.ty, osh)], mlir="onnx.UnsqueezeV11", attrs=f"axes = {ia(sax)}", axes=sax)


@gen("Expand")
def g_expand(m, op):
    r = m.rng
    x = m.any(r.choice(MOVE), maxr=3, dims=(1, 1, 2, 3))
    s = [r.randint(1, 3) for _ in range(r.randint(0, 1))] + [r.randint(1, 3) if d == 1 else r.choice([d, d, 1]) for d in x.sh]
    if r.random() < .2:
        s = s[r.randint(0, len(s)):]
    if not s:
        s = [1]
    m.node(op, [x, m.ints(s)], [(x.ty, bshape(x.sh, s))], mx=x.mx)


@gen("Tile")
def g_tile(m, op):
    r = m.rng
    x = m.any(r.choice(MOVE), minr=1, maxr=3)
    reps = [r.choice([1, 1, 2, 3]) for _ in x.sh]
    m.node(op, [x, m.ints(reps)], [(x.ty, [a * b for a, b in zip(x.sh, reps)])], mx=x.mx)


@gen("Concat")
def g_concat(m, op):
    r = m.rng
    x = m.any(r.choice(MOVE), minr=1, maxr=3)
    ax = r.randrange(-x.r, x.r)
    ts = [x]
    for _ in range(r.randint(0, 3)):
        sh = list(x.sh)
        sh[ax] = r.randint(1, 3)
        ts.append(m.data(x.ty, sh, frac=True))
    r.shuffle(ts)
    osh = list(x.sh)
    osh[ax] = sum(t.sh[ax] for t in ts)
    m.node(op, ts, [(x.ty, osh)], attrs=f"axis = {si(ax)}", axis=ax)


@gen("Split", "SplitV13", "SplitV11")
def g_split(m, op):
    r = m.rng
    x = m.any(r.choice(MOVE), minr=1, maxr=3, dims=(2, 3, 4, 6))
    ax = r.randrange(-x.r, x.r)
    d = x.sh[ax]
    n = r.randint(1, min(3, d))
    if r.random() < .5:
        cuts = sorted(r.sample(range(1, d), n - 1))
        sizes = [b - a for a, b in zip([0] + cuts, cuts + [d])]
        given = True
    else:
        if op != "Split":
            n = r.choice([k for k in (1, 2, 3) if d % k == 0])
        else:
            n = r.choice([k for k in (1, 2, 3) if d > (k - 1) * -(-d // k)])
        c = -(-d // n)
        sizes = [c] * (n - 1) + [d - c * (n - 1)]
        given = False
    outs = []
    for z in sizes:
        sh = list(x.sh)
        sh[ax] = z
        outs.append((x.ty, sh))
    a = m.opt("axis", ax, 0, si(ax))
    if op == "SplitV11":
        if given:
            a.append(f"split = {ia(sizes)}")
            # the specification takes the sizes as an operand
            s = m.par("i64", [len(sizes)], sizes, "const")
            m.node("Split", [x, s], outs, mlir="onnx.SplitV11", attrs=a, axis=ax, num_outputs=n, mx=x.mx)
            L = m.lines[-1]
            m.lines[-1] = (L[0], [x.id]) + L[2:]
        else:
            m.node("Split", [x], outs, mlir="onnx.SplitV11", attrs=a, axis=ax, num_outputs=n)
        return
    if op == "Split" and not given:
        a.append(f"num_outputs = {si(n)}")
    m.bar |= {"dyn"} if not given and d % n else set()
    m.node("Split", [x, m.ints(sizes, kind="const") if given else None], outs, mlir="onnx." + op, attrs=a, axis=ax, num_outputs=n, mx=x.mx)


@gen("Slice")
def g_slice(m, op):
    r = m.rng
    x = m.any(r.choice(MOVE), minr=1, maxr=3, dims=(1, 2, 3, 4, 5))
    k = r.randint(1, x.r)
    axes = r.sample(range(x.r), k)
    if r.random() < .25:
        axes = list(range(k))
    steps, starts, ends = [], [], []
    osh = list(x.sh)
    for a in axes:
        d = x.sh[a]
        for _ in range(50):
            st = r.choice([1, 1, 1, 2, 3, -1, -1, -2])
            s, e = r.randint(-d - 1, d + 1), r.choice([r.randint(-d - 1, d + 1), 1 << 30, -(1 << 30)])
            n = len(range(d)[slice(s, e, st)]) if not (e < -d and st < 0) else len(range(d)[slice(s, None if e < -d else e, st)])
            if n > 0:
                break
        else:
            s, e, st, n = 0, d, 1, d
        osh[a] = n
        starts.append(s)
        ends.append(e)
        steps.append(st)
    tt = r.choice(["i64", "i64", "i32"])
    sax = [a - x.r if r.random() < .4 else a for a in axes]
    ins = [x, m.ints(starts, tt), m.ints(ends, tt)]
    noax = axes == list(range(k)) and r.random() < .5
    nost = all(s == 1 for s in steps) and r.random() < .5
    ins.append(None if noax else m.ints(sax, tt, "const"))
    ins.append(None if nost else m.ints(steps, tt))
    m.node(op, ins, [(x.ty, osh)], mx=x.mx)


@gen("Pad", "PadV13")
def g_pad(m, op):
    r = m.rng
    mode = r.choice(["constant", "constant", "reflect", "edge"] if op == "Pad" else ["constant", "reflect", "edge"])
    x = m.any(r.choice(["f32", "f32", "i32", "i64", "f64"]), minr=1, maxr=3, dims=(2, 3, 4))
    axes = list(range(x.r))
    useax = False
    if useax:
        axes = r.sample(axes, r.randint(1, x.r))
    lim = lambda d: d - 1 if mode == "reflect" else d if mode == "wrap" else 3
    lo = [r.randint(0, min(3, lim(x.sh[a]))) for a in axes]
    hi = [r.randint(0, min(3, lim(x.sh[a]))) for a in axes]
    if mode == "constant" and r.random() < .2 and x.id in m.isleaf:
        i = r.randrange(len(axes))
        lo[i] = -1
        m.bar.add("run")
    osh = list(x.sh)
    for i, a in enumerate(axes):
        osh[a] += lo[i] + hi[i]
    if min(osh) <= 0:
        return g_pad(m, op)
    val = m.par(x.ty, [], m.vals(x.ty, 1)) if mode == "constant" and r.random() < .7 else None
    ins = [x, m.ints(lo + hi), val]
    sax = [a - x.r if r.random() < .4 else a for a in axes]
    if op == "Pad":
        ins.append(m.ints(sax, kind="const") if useax else None)
    m.node("Pad", ins, [(x.ty, osh)], mlir="onnx." + op, attrs=m.opt("mode", mode, "constant", f'"{mode}"'), mode=mode,
           mx=max(x.mx, 16))


@gen("Shape")
def g_shape(m, op):
    r = m.rng
    x = m.any(r.choice(MOVE), minr=0)
    s, e = (r.randint(-x.r - 1, x.r + 1), r.randint(-x.r - 1, x.r + 1)) if r.random() < .5 else (0, x.r)
    clip = lambda a: max(0, min(x.r, a + x.r if a < 0 else a))
    if clip(s) >= clip(e):
        s, e = 0, x.r
    full = list(x.sh)
    n = len(full[max(0, min(x.r, s + x.r if s < 0 else s)):max(0, min(x.r, e + x.r if e < 0 else e))])
    a = m.opt("start", s, 0, si(s))
    if e != x.r or r.random() < .3:
        a.append(f"end = {si(e)}")
    m.node(op, [x], [("i64", [n])], attrs=a, start=s, end=e, mx=8)


@gen("Size")
def g_size(m, op):
    x = m.any(m.rng.choice(MOVE))
    m.node(op, [x], [("i64", [])], mx=100)


@gen("Gather")
def g_gather(m, op):
    r = m.rng
    x = m.any(r.choice(MOVE), minr=1, maxr=3)
    ax = r.randrange(-x.r, x.r)
    sh = m.shape(r.randint(0, 2), (1, 2, 3))
    d = x.sh[ax]
    ind = m.par(r.choice(["i64", "i64", "i32"]), sh, [r.randint(-d, d - 1) for _ in range(prod(sh))], r.choice(["par", "data"]))
    a = ax % x.r
    m.node(op, [x, ind], [(x.ty, x.sh[:a] + sh + x.sh[a + 1:])], attrs=m.opt("axis", ax, 0, si(ax)), axis=ax, mx=x.mx)


@gen("GatherElements")
def g_gel(m, op):
    r = m.rng
    x = m.any(r.choice(MOVE), minr=1, maxr=3)
    ax = r.randrange(-x.r, x.r)
    sh = [r.randint(1, d) if i != ax % x.r else r.randint(1, 3) for i, d in enumerate(x.sh)]
    d = x.sh[ax]
    ind = m.par(r.choice(["i64", "i32"]), sh, [r.randint(-d, d - 1) for _ in range(prod(sh))], r.choice(["par", "data"]))
    m.node(op, [x, ind], [(x.ty, sh)], attrs=m.opt("axis", ax, 0, si(ax)), axis=ax, mx=x.mx)


@gen("GatherND")
def g_gnd(m, op):
    r = m.rng
    x = m.any(r.choice(MOVE), minr=1, maxr=4)
    b = r.choice([0, 0, r.randint(0, min(2, x.r - 1))])
    k = r.randint(1, x.r - b)
    pre = x.sh[:b] + m.shape(r.randint(0 if b else 0, 2), (1, 2, 3))
    v = []
    for _ in range(prod(pre)):
        v += [r.randint(0, d - 1) for d in x.sh[b:b + k]]
    ind = m.par("i64", pre + [k], v, r.choice(["par", "data"]))
    m.fixed.add(ind.id)
    m.node(op, [x, ind], [(x.ty, pre + x.sh[b + k:])], attrs=m.opt("batch_dims", b, 0, si(b)), batch_dims=b, mx=x.mx)


@gen("ScatterElements")
def g_sel(m, op):
    r = m.rng
    x = m.any(r.choice(("f32", "f32", "i64", "i32", "f64")), minr=1, maxr=3)
    ax = r.randrange(-x.r, x.r)
    sh = [r.randint(1, d) for i, d in enumerate(x.sh)]
    d = x.sh[ax]
    v = [0] * prod(sh)
    # no two updates of one place
    lines = {}
    for k in range(prod(sh)):
        u, q = [], k
        for n in sh[::-1]:
            u.append(q % n)
            q //= n
        u = u[::-1]
        key = tuple(u[:ax % x.r] + u[ax % x.r + 1:])
        if key not in lines:
            lines[key] = r.sample(range(d), d)
        v[k] = lines[key].pop()
        if r.random() < .3:
            v[k] -= d
    ind = m.par(r.choice(["i64", "i64", "i32"]), sh, v, r.choice(["par", "data"]))
    up = m.data(x.ty, sh, frac=True)
    m.node(op, [x, ind, up], [(x.ty, x.sh)], attrs=m.opt("axis", ax, 0, si(ax)), axis=ax, reduction="none")


@gen("ScatterND")
def g_snd(m, op):
    r = m.rng
    x = m.any(r.choice(("f32", "f32", "i64", "i32", "f64")), minr=1, maxr=3)
    k = r.randint(1, x.r)
    cap = prod(x.sh[:k])
    outer = m.shape(k if m.chain or r.random() < .6 else r.randint(0, 2), (1, 2))
    while prod(outer) > cap:
        outer[outer.index(2)] = 1
    if len(outer) != k:
        m.bar.add("run")          # known finding: scattered to the wrong places
    ks = r.sample(range(cap), prod(outer))
    v = []
    for q in ks:
        u = []
        for n in x.sh[:k][::-1]:
            u.append(q % n)
            q //= n
        v += [a - n if r.random() < .1 and not m.chain else a for a, n in zip(u[::-1], x.sh[:k])]
    if min(v) < 0:
        m.bar.add("run")
    ind = m.par("i64", outer + [k], v, r.choice(["par", "data"]))
    m.fixed.add(ind.id)
    up = m.data(x.ty, outer + x.sh[k:], frac=True)
    m.node(op, [x, ind, up], [(x.ty, x.sh)])


@gen("ConstantOfShape")
def g_cos(m, op):
    r = m.rng
    ty = r.choice(["f32", "i64", "i32", "i1"])
    sh = m.shape(r.randint(0, 3))
    v = m.vals(ty, 1)[0]
    st = m.ints(sh) if sh else m.ints([], kind="const")
    if not sh:
        return g_cos(m, op)
    a = f"value = {dense(ty, [1], [v])}"
    m.node(op, [st], [(ty, sh)], attrs=a, ty=ty, value=v, mx=16)


@gen("Range")
def g_range(m, op):
    r = m.rng
    ty = r.choice(["i64", "i32", "f32"])
    one = 4 if ty in FLOATS else 1
    d = r.choice([-3, -2, -1, 1, 2, 3]) * one
    s = r.randint(-4, 4) * one
    n = r.randint(1, 6)
    e = s + d * (n - 1) + (1 if d > 0 else -1) * r.randint(1, abs(d))
    if ty in FLOATS:
        e = s + d * n
    sc = lambda v: m.par(ty, [], [v])
    m.node(op, [sc(s), sc(e), sc(d)], [(ty, [n])], mx=100)


@gen("OneHot")
def g_onehot(m, op):
    r = m.rng
    it = r.choice(["i64", "i32"])
    sh = m.shape(r.randint(1, 2), (1, 2, 3))
    dep = r.randint(2, 4)
    ind = m.leaf(it, sh, [r.randint(-dep, dep - 1) for _ in range(prod(sh))])
    ty = r.choice(["f32", "i64", "i32"])
    d = m.par(r.choice(["i64", "i32"]), [], [dep])
    vals = m.par(ty, [2], m.vals(ty, 2))
    ax = r.randint(-len(sh) - 1, len(sh))
    a = ax % (len(sh) + 1)
    m.node(op, [ind, d, vals], [(ty, sh[:a] + [dep] + sh[a:])], attrs=m.opt("axis", ax, -1, si(ax)), axis=ax, mx=16)


@gen("NonZero")
def g_nz(m, op):
    r = m.rng
    x = m.any(r.choice(["f32", "i64", "i1", "i32"]), minr=1, maxr=3, lo=-1, hi=1, frac=False)
    if x.r > 1 and x.id not in m.isleaf:
        return
    if x.r > 1:
        m.bar.add("run")
    m.node(op, [x], [("i64", None)])


@gen("Compress")
def g_compress(m, op):
    r = m.rng
    x = m.any(r.choice(["f32", "i64", "i32"]), minr=1, maxr=3)
    has = r.random() < .7
    ax = r.randrange(-x.r, x.r)
    n = x.sh[ax] if has else prod(x.sh)
    n = max(1, n - r.choice([0, 0, 0, 1]))
    c = m.data("i1", [n])
    m.node(op, [x, c], [(x.ty, None)], attrs=f"axis = {si(ax)}" if has else "", axis=ax, hasaxis=int(has))


@gen("ReverseSequence")
def g_revseq(m, op):
    r = m.rng
    x = m.any(r.choice(["f32", "i64", "i32"]), minr=2, maxr=3)
    ta = r.randint(0, 1)
    n = x.sh[1 - ta]
    lens = m.leaf("i64", [n], [r.randint(1, x.sh[ta]) for _ in range(n)], r.choice(["par", "data"]))
    m.node(op, [x, lens], [(x.ty, x.sh)], attrs=m.opt("time_axis", ta, 0, si(ta)) + m.opt("batch_axis", 1 - ta, 1, si(1 - ta)),
           time_axis=ta, batch_axis=1 - ta)


@gen("Trilu")
def g_trilu(m, op):
    r = m.rng
    x = m.any(r.choice(["f32", "i64", "i32"]), minr=2, maxr=3)
    k = m.par("i64", [], [r.randint(-4, 4)]) if r.random() < .7 else None
    u = r.randint(0, 1)
    m.node(op, [x, k], [(x.ty, x.sh)], attrs=m.opt("upper", u, 1, si(u)), upper=u, mx=x.mx)


@gen("Unique")
def g_unique(m, op):
    r = m.rng
    x = m.any(r.choice(["f32", "i64"]), minr=1, maxr=2, lo=-2, hi=2)
    srt = r.randint(0, 1)
    m.node(op, [x], [(x.ty, None), ("i64", None), ("i64", None), ("i64", None)], attrs=m.opt("sorted", srt, 1, si(srt)), sorted=srt)


@gen("DepthToSpace", "SpaceToDepth")
def g_d2s(m, op):
    r = m.rng
    b = r.choice([1, 2, 2, 3])
    n, c, h, w = r.randint(1, 2), r.randint(1, 2), r.randint(1, 2), r.randint(1, 2)
    m.bar.add("dyn")
    if op[0] == "S" and b > 1:
        c = 1
    mode = r.choice(["DCR", "CRD"])
    sh = [n, c * b * b, h, w] if op[0] == "D" else [n, c, h * b, w * b]
    osh = [n, c, h * b, w * b] if op[0] == "D" else [n, c * b * b, h, w]
    x = m.data(r.choice(["f32", "i64"]), sh)
    m.node(op, [x], [(x.ty, osh)], attrs=[f"blocksize = {si(b)}"] + (m.opt("mode", mode, "DCR", f'"{mode}"') if op[0] == "D" else []),
           blocksize=b, mode=mode)


EIN = [("ij,jk->ik", 2), ("ij->ji", 1), ("ij,ij->ij", 2), ("ij->i", 1), ("ij->", 1), ("bij,bjk->bik", 2), ("i,i->", 2), ("i,j->ij", 2),
       ("ij,jk,kl->il", 3), ("bhid,bhjd->bhij", 2), ("ii->i", 1), ("ijk->kj", 1), ("ij,j->i", 2), ("ij,kj->ik", 2), ("abc,cd->abd", 2)]


@gen("Einsum")
def g_einsum(m, op):
    r = m.rng
    eq, n = r.choice(EIN)
    lhs, out = eq.split("->")
    size = {}
    ts = []
    for t in lhs.split(","):
        ts.append(m.data("f32" if r.random() < .8 else "f64", [size.setdefault(c, r.randint(1, 3)) for c in t]) if not ts else
                  m.data(ts[0].ty, [size.setdefault(c, r.randint(1, 3)) for c in t]))
    m.bar.add("dyn")
    num = lambda s: [ord(c) - 96 for c in s]
    m.node(op, ts, [(ts[0].ty, [size[c] for c in out])], attrs=f'equation = "{eq}"', labels=[num(t) for t in lhs.split(",")], out=num(out),
           mx=2000, frac=False)


@gen("MatMul")
def g_matmul(m, op):
    r = m.rng
    ty = r.choice(["f32", "f32", "f64", "i32", "i64"])
    big = r.random() < .25
    M, K, N = (r.choice([4, 5, 8, 9]), r.choice([3, 8, 9]), r.choice([1, 4, 8, 17])) if big else (r.randint(1, 4), r.randint(1, 4), r.randint(1, 4))
    c = r.random()
    b = [] if big or r.random() < .4 else m.shape(r.randint(1, 2), (1, 2, 3))
    bb = [1 if r.random() < .25 else d for d in b[r.choice([0, 0, r.randint(0, len(b))]):]]
    sa, sb = b + [M, K], bb + [K, N]
    if r.random() < .15:
        sa = [K]
    elif r.random() < .15:
        sb = [K]
    if r.random() < .3 and len(sa) > 1 and len(sb) > 1:
        sa, sb = sa[-2:], b + [K, N]
    A = m.data(ty, sa, mx=40)
    C = m.data(ty, sb, mx=40) if r.random() < .5 else m.par(ty, sb, m.vals(ty, prod(sb)))
    o = bshape(sa[:-2], sb[:-2]) if len(sa) > 1 and len(sb) > 1 else (sa[:-2] if len(sb) == 1 else sb[:-2])
    o = list(o) + ([M] if len(sa) > 1 else []) + ([N] if len(sb) > 1 else [])
    if any(x != y for x, y in zip(reversed(sa[:-2]), reversed(sb[:-2]))):
        m.stat(A, C)                # a batch size that turns out to be one at run time is a known finding
    m.node(op, [A, C], [(ty, o)], mx=A.mx * C.mx * K, frac=False)


@gen("Gemm")
def g_gemm(m, op):
    r = m.rng
    big = r.random() < .25
    M, K, N = (r.choice([4, 5, 8]), r.choice([3, 8]), r.choice([4, 8, 17])) if big else (r.randint(1, 4), r.randint(1, 4), r.randint(1, 4))
    ta, tb = r.randint(0, 1), r.randint(0, 1)
    ty = r.choice(["f32", "f32", "f64"])
    A = m.data(ty, [K, M] if ta else [M, K], mx=40)
    sb = [N, K] if tb else [K, N]
    C = m.data(ty, sb, mx=40) if r.random() < .5 else m.par(ty, sb, m.vals(ty, prod(sb)))
    b = None
    if r.random() < .75:
        sh = r.choice([[M, N], [1, N], [M, 1], [N], [1], [], [1, 1]])
        b = m.par(ty, sh, m.vals(ty, prod(sh)), r.choice(["par", "data"]))
    al, be = r.choice([4, 4, 2, 8]), r.choice([4, 4, 2, 8])
    a = m.opt("alpha", al, 4, fa(al)) + m.opt("beta", be, 4, fa(be)) + m.opt("transA", ta, 0, si(ta)) + m.opt("transB", tb, 0, si(tb))
    m.node(op, [A, C, b], [(ty, [M, N])], attrs=a, alpha=al, beta=be, transA=ta, transB=tb, mx=2 * A.mx * C.mx * K + 100, frac=True)


@gen("MatMulInteger")
def g_mmi(m, op):
    r = m.rng
    M, K, N = r.randint(1, 4), r.randint(1, 4), r.randint(1, 4)
    ta, tb = r.choice(["u8", "i8"]), r.choice(["u8", "i8"])
    b = m.shape(r.randint(0, 1), (1, 2))
    sa, sb = b + [M, K], r.choice([[K, N], b + [K, N]])
    row = r.random() < .3
    if row:                         # zero points of every column: refused unless the operands are matrices
        sa, sb = [M, K], [K, N]
    A = m.leaf(ta, sa, m.vals(ta, prod(sa), -9, 9))
    C = m.leaf(tb, sb, m.vals(tb, prod(sb), -9, 9))
    za = m.par(ta, [], m.vals(ta, 1)) if r.random() < .7 else None
    zb = None
    if r.random() < .7:
        zb = m.par(tb, [N], m.vals(tb, N)) if row else m.par(tb, [], m.vals(tb, 1))
    m.node(op, [A, C, za, zb], [("i32", sa[:-2] + [M, N])], mx=4000)


def window(m, nd, ind, kmax=3, pool=False):
    """kernel and window attributes valid for spatial dims ind."""
    r = m.rng
    for _ in range(100):
        k = [r.randint(1, kmax) for _ in range(nd)]
        s = [r.choice([1, 1, 2, 3]) for _ in range(nd)]
        d = [r.choice([1, 1, 1, 2]) for _ in range(nd)]
        auto = r.choice(["NOTSET", "NOTSET", "NOTSET", "VALID", "SAME_UPPER", "SAME_LOWER"])
        eff = [(a - 1) * b + 1 for a, b in zip(k, d)]
        p = [0] * (2 * nd)
        if auto == "NOTSET" and r.random() < .7:
            p = [r.randint(0, (eff[i % nd] - 1) if pool else 2) for i in range(2 * nd)]
            if pool:
                p = [min(x, k[i % nd] - 1) if d[i % nd] == 1 else 0 for i, x in enumerate(p)]
        if auto in ("NOTSET", "VALID"):
            if any(ind[i] + p[i] + p[nd + i] < eff[i] for i in range(nd)):
                continue
            if pool and any((ind[i] + p[i] + p[nd + i] - eff[i]) // s[i] * s[i] >= ind[i] + p[i] for i in range(nd)):
                continue
        return dict(kernel_shape=k, strides=s, dilations=d, auto_pad=auto, pads=p)
    return dict(kernel_shape=[1] * nd, strides=[1] * nd, dilations=[1] * nd, auto_pad="NOTSET", pads=[0] * 2 * nd)


def wattrs(m, w, nd, kernel=True):
    r = m.rng
    a = []
    if kernel:
        a.append(f"kernel_shape = {ia(w['kernel_shape'])}")
    a += m.opt("strides", w["strides"], [1] * nd, ia(w["strides"]))
    a += m.opt("dilations", w["dilations"], [1] * nd, ia(w["dilations"]))
    a += m.opt("auto_pad", w["auto_pad"], "NOTSET", f'"{w["auto_pad"]}"')
    if w["auto_pad"] == "NOTSET":
        a += m.opt("pads", w["pads"], [0] * 2 * nd, ia(w["pads"]))
    return a


def wout(w, i, n, nd):
    eff = (w["kernel_shape"][i] - 1) * w["dilations"][i] + 1
    s = w["strides"][i]
    if w["auto_pad"].startswith("SAME"):
        return -(-n // s)
    p = w["pads"]
    return (n + p[i] + p[nd + i] - eff) // s + 1


@gen("Conv")
def g_conv(m, op):
    r = m.rng
    nd = r.choice([1, 2, 2, 2, 3])
    g = r.choice([1, 1, 1, 2, 3])
    cg, mg, n = r.randint(1, 2), r.randint(1, 2), r.randint(1, 2)
    if r.random() < .15:
        g, cg, mg = r.choice([2, 3]), 1, 1
    ind = [r.randint(2, 5 if nd < 3 else 3) for _ in range(nd)]
    w = window(m, nd, ind, 3 if nd < 3 else 2)
    if r.random() < .15:
        w = dict(kernel_shape=[1] * nd, strides=[1] * nd, dilations=[1] * nd, auto_pad="NOTSET", pads=[0] * 2 * nd)
    ty = r.choice(["f32", "f32", "f64"])
    x = m.data(ty, [n, cg * g] + ind, lo=-3, hi=3, mx=40)
    wsh = [mg * g, cg] + w["kernel_shape"]
    W = m.par(ty, wsh, m.vals(ty, prod(wsh), -2, 2), r.choice(["par", "par", "data"]))
    b = m.par(ty, [mg * g], m.vals(ty, mg * g)) if r.random() < .6 else None
    osh = [n, mg * g] + [wout(w, i, ind[i], nd) for i in range(nd)]
    m.node(op, [x, W, b], [(ty, osh)], attrs=wattrs(m, w, nd, r.random() < .6) + m.opt("group", g, 1, si(g)), group=g, mx=x.mx * 8 * 60, frac=False, **w)


@gen("ConvTranspose")
def g_convt(m, op):
    r = m.rng
    nd = r.choice([1, 2, 2])
    g = r.choice([1, 1, 2])
    cg, mg, n = r.randint(1, 2), r.randint(1, 2), 1
    ind = [r.randint(1, 3) for _ in range(nd)]
    k = [r.randint(1, 3) for _ in range(nd)]
    s = [r.choice([1, 2, 3]) for _ in range(nd)]
    d = [r.choice([1, 1, 2]) for _ in range(nd)]
    auto = r.choice(["NOTSET", "NOTSET", "NOTSET", "VALID", "SAME_UPPER", "SAME_LOWER"])
    op_ = [r.randint(0, max(s[i], d[i]) - 1) if r.random() < .3 else 0 for i in range(nd)]
    full = [s[i] * (ind[i] - 1) + op_[i] + (k[i] - 1) * d[i] + 1 for i in range(nd)]
    p = [0] * 2 * nd
    oshape = []
    if auto == "NOTSET" and r.random() < .6:
        p = [r.randint(0, 1) for _ in p]
    out = [full[i] - p[i] - p[nd + i] for i in range(nd)]
    if auto.startswith("SAME"):
        out = [s[i] * ind[i] for i in range(nd)]
        if any(full[i] < out[i] for i in range(nd)):
            return g_convt(m, op)
    elif auto == "NOTSET" and r.random() < .2:
        oshape = [full[i] - r.choice([0, 2] if full[i] > 2 else [0]) for i in range(nd)]     # implementations differ on uneven padding
        out = oshape
        m.bar.add("dyn")
    if min(out) < 1:
        return g_convt(m, op)
    ty = "f32"
    x = m.data(ty, [n, cg * g] + ind, lo=-3, hi=3, mx=40)
    wsh = [cg * g, mg] + k
    W = m.par(ty, wsh, m.vals(ty, prod(wsh), -2, 2), "const")
    b = m.par(ty, [mg * g], m.vals(ty, mg * g)) if r.random() < .6 else None
    w = dict(kernel_shape=k, strides=s, dilations=d, auto_pad=auto, pads=p)
    a = wattrs(m, w, nd, r.random() < .6) + m.opt("group", g, 1, si(g)) + m.opt("output_padding", op_, [0] * nd, ia(op_))
    if oshape:
        a = [t for t in a if not t.startswith("pads")] + [f"output_shape = {ia(oshape)}"]
    m.node(op, [x, W, b], [(ty, [n, mg * g] + out)], attrs=a, group=g, output_padding=op_, output_shape=oshape, mx=x.mx * 8 * 40, frac=False, **w)


@gen("MaxPool", "AveragePool")
def g_pool(m, op):
    r = m.rng
    nd = r.choice([1, 2, 2, 2, 3])
    ind = [r.randint(2, 5 if nd < 3 else 3) for _ in range(nd)]
    w = window(m, nd, ind, 3, True)
    d = w["dilations"][0]
    if len(set(w["dilations"])) > 1:
        return g_pool(m, op)
    # dilated windows that start in the padding, out of step, are a known finding
    if d > 1 and (w["auto_pad"].startswith("SAME") or any(w["pads"][i] and w["strides"][i] % d for i in range(nd))):
        return g_pool(m, op)
    cm = r.choice([0, 0, 1]) if w["auto_pad"] in ("NOTSET",) and w["dilations"][0] == 1 else 0
    cip = r.randint(0, 1)
    if cm and op == "AveragePool" and cip:
        cm = 0
    if cm:
        # no window may start in the padding at the end
        for i in range(nd):
            eff = (w["kernel_shape"][i] - 1) * w["dilations"][i] + 1
            q = ind[i] + w["pads"][i] + w["pads"][nd + i] - eff
            if -(-q // w["strides"][i]) * w["strides"][i] >= ind[i] + w["pads"][i]:
                cm = 0
    ty = r.choice(["f32", "f32", "f64"])
    x = m.data(ty, [r.randint(1, 2), r.randint(1, 2)] + ind, frac=True)
    a = wattrs(m, w, nd) + m.opt("ceil_mode", cm, 0, si(cm)) + (m.opt("count_include_pad", cip, 0, si(cip)) if op[0] == "A" else [])
    osh = None
    if not cm:
        osh = x.sh[:2] + [wout(w, i, ind[i], nd) for i in range(nd)]
    if op == "MaxPool":
        m.node("MaxPool", [x], [(ty, osh)], mlir="onnx.MaxPoolSingleOut", attrs=a, ceil_mode=cm, count_include_pad=cip, **w)
    else:
        m.node(op, [x], [(ty, None)], ap=(osh, x.mx / 4), attrs=a, ceil_mode=cm, count_include_pad=cip, **w)


@gen("GlobalMaxPool", "GlobalAveragePool")
def g_gpool(m, op):
    r = m.rng
    x = m.data("f32", [r.randint(1, 2), r.randint(1, 3)] + m.shape(r.randint(1, 2)), frac=True)
    m.node(op, [x], [("f32", x.sh[:2] + [1] * (x.r - 2) if op == "GlobalMaxPool" else None)])


@gen("BatchNormalization")
def g_bn(m, op):
    r = m.rng
    c = r.randint(1, 3)
    x = m.data("f32", [r.randint(1, 2), c] + m.shape(r.randint(0, 2)), frac=False)
    P = lambda lo, hi: m.par("f32", [c], m.vals("f32", c, lo, hi))
    ps = [P(-2, 2), P(-3, 3), P(-3, 3), P(1, 9)]
    m.node(op, [x] + ps, [("f32", None)], mlir="onnx.BatchNormalizationInferenceMode", ap=(x.sh, 60) if x.mx <= 40 else None,
           attrs=["epsilon = 9.99999974E-6 : f32"] if r.random() < .5 else [])


@gen("LayerNormalization", "RMSLayerNormalization")
def g_ln(m, op):
    r = m.rng
    x = m.any("f32", minr=2, maxr=3, dims=(2, 3, 4), frac=False, mx=40)
    if r.random() < .7:
        x = m.data("f32", x.sh[:-1] + [r.choice([3, 4, 8])], frac=False, v=None)
    ax = r.randrange(-x.r, x.r)
    inner = x.sh[ax % x.r:]
    sc = m.par("f32", inner, m.vals("f32", prod(inner), -2, 2))
    b = m.par("f32", inner, m.vals("f32", prod(inner))) if r.random() < .6 and op[0] == "L" else None
    if op[0] == "L":
        m.node(op, [x, sc, b], [("f32", None), ("none", None), ("none", None)], attrs=m.opt("axis", ax, -1, si(ax)), axis=ax, keep=[0])
    else:
        m.node(op, [x, sc, None], [("f32", None), ("none", None)], attrs=m.opt("axis", ax, -1, si(ax)), axis=ax, keep=[0])
    k = len(m.lines[-1][2]) - 1
    m.n -= k
    L = m.lines[-1]
    m.lines[-1] = L[:2] + ([m.n] + [900 + 4 * m.n + i for i in range(k)],) + L[3:]


@gen("InstanceNormalization")
def g_in(m, op):
    r = m.rng
    c = r.randint(1, 3)
    x = m.data("f32", [r.randint(1, 2), c] + m.shape(r.randint(1, 2), (2, 3, 4)), frac=False, mx=40)
    m.node(op, [x, m.par("f32", [c], m.vals("f32", c, -2, 2)), m.par("f32", [c], m.vals("f32", c))], [("f32", None)], ap=(x.sh, 12))


@gen("GroupNormalization")
def g_gn(m, op):
    r = m.rng
    g = cg = r.randint(1, 2)
    c = g * cg
    x = m.data("f32", [r.randint(1, 2), c] + m.shape(r.randint(1, 2), (2, 3)), frac=False, mx=40)
    m.node(op, [x, m.par("f32", [c], m.vals("f32", c, -2, 2)), m.par("f32", [c], m.vals("f32", c))], [("f32", None)],
           attrs=f"num_groups = {si(g)}", num_groups=g)


@gen("LRN")
def g_lrn(m, op):
    r = m.rng
    x = m.data("f32", [r.randint(1, 2), r.randint(1, 5)] + m.shape(2, (1, 2, 3)), frac=False, mx=40)
    n, al, bi = r.randint(1, 5), r.choice([1, 4]), r.choice([4, 8])
    m.node(op, [x], [("f32", None)], attrs=[f"size = {si(n)}", f"alpha = {fa(al)}", f"bias = {fa(bi)}", f"beta = {fa(4)}"], size=n, alpha=al, bias=bi)


@gen("LpNormalization")
def g_lpn(m, op):
    r = m.rng
    sh = m.shape(r.randint(1, 3))
    x = m.leaf("f32", sh, [4 * r.choice([-3, -2, -1, 1, 2, 3]) for _ in range(prod(sh))])
    ax, p = r.randrange(-x.r, x.r), r.randint(1, 2)
    m.node(op, [x], [("f32", None)], attrs=m.opt("axis", ax, -1, si(ax)) + m.opt("p", p, 2, si(p)), axis=ax, p=p)


@gen("MeanVarianceNormalization")
def g_mvn(m, op):
    r = m.rng
    ax = sorted(r.sample(range(4), r.randint(1, 3))) if r.random() < .6 else [0, 2, 3]
    sh = m.shape(4, (1, 2, 3))
    if prod(sh[i] for i in ax) < 2:
        return g_mvn(m, op)
    while True:                   # a variance of zero is a known finding
        v = m.vals("f32", prod(sh))
        grp = {}
        for k, c in enumerate(v):
            i, q = [], k
            for d in reversed(sh):
                i.insert(0, q % d)
                q //= d
            grp.setdefault(tuple(0 if a in ax else i[a] for a in range(4)), set()).add(c)
        if all(len(g) > 1 for g in grp.values()):
            break
    x = m.data("f32", sh, v=v)
    m.node(op, [x], [("f32", None)], attrs=m.opt("axes", ax, [0, 2, 3], ia(ax)), axes=ax)


@gen("QuantizeLinear")
def g_quant(m, op):
    r = m.rng
    ty = r.choice(["u8", "i8"])
    x = m.any("f32", frac=True, lo=-40, hi=40, mx=200)
    sc = m.par("f32", [], [r.choice([1, 2, 4, 8])])
    zp = m.par(ty, [], m.vals(ty, 1, -9, 9) if ty == "i8" else [r.randint(0, 200)])
    m.node(op, [x, sc, zp], [(ty, x.sh)], ty=ty, mx=256)


@gen("DequantizeLinear")
def g_deq(m, op):
    r = m.rng
    ty = r.choice(["u8", "i8", "i32"])
    x = m.any(ty, lo=-20, hi=100, mx=1000)
    sc = m.par("f32", [], [r.choice([1, 2, 4, 8])])
    zp = m.par(ty, [], m.vals(ty, 1, -9, 9)) if r.random() < .7 and ty != "i32" else None
    m.node(op, [x, sc, zp], [("f32", x.sh)], mx=x.mx * 8 + 100, frac=True)


@gen("RNN", "GRU", "LSTM")
def g_rnn(m, op):
    r = m.rng
    Gn = dict(RNN=1, GRU=3, LSTM=4)[op]
    nact = dict(RNN=1, GRU=2, LSTM=3)[op]
    T_, N, I, H = r.randint(1, 3), r.randint(1, 2), r.randint(1, 3), r.randint(1, 2)
    dr = r.choice(["forward", "reverse", "bidirectional"])
    D = 2 if dr[0] == "b" else 1
    lay = 1 if r.random() < .15 else 0
    v = lambda sh, lo=-1, hi=1: m.vals("f32", prod(sh), lo, hi)
    xs = [N, T_, I] if lay else [T_, N, I]
    x = m.data("f32", xs, lo=-2, hi=2, mx=8)
    C = lambda sh: m.par("f32", sh, v(sh), "const")
    W, R = C([D, Gn * H, I]), C([D, Gn * H, H])
    B = C([D, 2 * Gn * H]) if r.random() < .6 else None
    ish = [N, D, H] if lay else [D, N, H]
    h0 = m.leaf("f32", ish, v(ish)) if r.random() < .5 else None
    ins = [x, W, R, B, None, h0]
    if op == "LSTM":
        ins.append(m.leaf("f32", ish, v(ish)) if r.random() < .5 else None)
        ins.append(C([D, 3 * H]) if r.random() < .4 else None)
    acts = []
    for d in range(D):
        acts.append(["HardSigmoid01" if op != "RNN" else r.choice(["HardSigmoid01", "Relu"]),
                     r.choice(["HardSigmoid01", "Relu"]), r.choice(["HardSigmoid01", "Relu"])])
    names = [a.replace("01", "") for d in acts for a in d[:nact]]
    lbr = r.randint(0, 1) if op == "GRU" else 0
    a = [f"hidden_size = {si(H)}", "activations = [" + ", ".join(f'"{n}"' for n in names) + "]",
         "activation_alpha = [" + ", ".join(["1.0 : f32"] * len(names)) + "]",
         "activation_beta = [" + ", ".join(["0.0 : f32"] * len(names)) + "]"]
    a += m.opt("direction", dr, "forward", f'"{dr}"') + m.opt("layout", lay, 0, si(lay))
    if op == "GRU":
        a += m.opt("linear_before_reset", lbr, 0, si(lbr))
    ysh = [N, T_, D, H] if lay else [T_, D, N, H]
    outs = [("f32", ysh), ("f32", ish)] + ([("f32", ish)] if op == "LSTM" else [])
    m.node(op, ins, outs, attrs=a, hidden_size=H, direction=dr, layout=lay, linear_before_reset=lbr, acts=acts, mx=400, frac=False)


@gen("ResizeNearest")
def g_resize(m, op):
    r = m.rng
    nd = r.randint(1, 2)
    x = m.data("f32", m.shape(r.randint(0, 2), (1, 2)) + [r.choice([1, 2, 3, 4]) for _ in range(nd)], frac=True)
    sc = [4] * (x.r - nd) + [r.choice([4, 8, 16, 2]) for _ in range(nd)]
    if any(d * c % 4 for d, c in zip(x.sh, sc)):
        sc = [c if d * c % 4 == 0 else 8 for d, c in zip(x.sh, sc)]
    osh = [d * c // 4 for d, c in zip(x.sh, sc)]
    ctm = r.choice(["asymmetric", "half_pixel"])
    nm = r.choice(["floor", "ceil", "round_prefer_floor", "round_prefer_ceil"])
    if ctm == "align_corners" and nm != "floor":
        nm = "floor"
    if ctm == "align_corners" and any((d - 1) % max(1, o - 1) and (o - 1) % max(1, d - 1) for d, o in zip(x.sh, osh)):
        ctm = "asymmetric"
    if r.random() < .5:
        s = m.par("f32", [x.r], sc)
        m.fixed.add(s.id)
        ins = [x, None, s, None]
    else:
        ins = [x, None, None, m.ints(osh)]
    m.node(op, ins, [(x.ty, osh)], mlir="onnx.Resize", attrs=m.opt("mode", "nearest", "nearest", '"nearest"') +
           m.opt("coordinate_transformation_mode", ctm, "half_pixel", f'"{ctm}"') +
           m.opt("nearest_mode", nm, "round_prefer_floor", f'"{nm}"'), ctm=ctm, nearest_mode=nm, osh=osh, scs=sc, mx=x.mx)
