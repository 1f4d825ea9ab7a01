"""Random models with bodies: If, Loop and Scan, whose bodies are models of
their own that see the tensors around them."""
import re

import onnxgen as og
from onnxgen import T, bshape, line, mt, prod

# Operators that compute exact values of known shape.
OPS = [o for o in ("Add", "Sub", "Mul", "Max", "Min", "Sum", "Neg", "Abs", "Relu", "Sign", "Not", "And", "Or", "Xor",
                   "Equal", "Less", "Greater", "LessOrEqual", "GreaterOrEqual", "Where", "Clip", "Cast", "Transpose",
                   "Reshape", "Flatten", "Squeeze", "Unsqueeze", "Concat", "Slice", "Split", "Gather", "GatherElements",
                   "GatherND", "Expand", "Tile", "Pad", "Identity", "Shape", "Size", "ReduceSum", "ReduceMax",
                   "ReduceMin", "MatMul", "Gemm", "ArgMax", "ArgMin", "Trilu", "EyeLike",
                   "MaxPool", "Conv", "ScatterElements", "ScatterND", "Range",
                   "ConstantOfShape", "LeakyRelu", "Floor", "Ceil", "Round") if o in og.G]
# The compiler stops with an assertion on these in a body (see DESIGN.md).
HARD = ["DepthToSpace", "SpaceToDepth", "OneHot", "CumSum"]


class Body(og.Model):
    """A body of a node of m. Its tensors follow those around it."""

    def __init__(s, m, args=()):
        super().__init__(m.rng, chain=.85)
        s.pool = getattr(m, "pool", OPS)
        s.m, s.depth = m, getattr(m, "depth", 0) + 1
        s.nest = getattr(m, "nest", 1)         # levels of bodies
        s.n, s.fixed, s.isleaf = m.n, m.fixed, set(m.isleaf)
        s.base = m.n
        s.args = []
        s.ts = [t for t in m.ts if t.sh is not None]
        s.rng.shuffle(s.ts)
        for ty, sh, mx in args:
            s.n += 1
            t = T(s.n, ty, list(sh), mx, ty in og.FLOATS)
            s.args.append(t)
            s.ts.append(t)

    def grow(s, lo=1, hi=4):
        for _ in range(s.rng.randint(lo, hi)):
            if s.depth < s.nest and s.rng.random() < .15:
                s.rng.choice((g_if, g_loop, g_scan))(s)
            else:
                op = s.rng.choice(s.pool)
                og.G[op](s, op)
        return s

    def like(s, ty, sh, mx):
        """Some tensor of this type and shape."""
        r = s.rng
        c = [t for t in s.ts if t.ty == ty and t.sh == list(sh) and t.mx <= mx and not t.isap]
        if c and r.random() < .8:
            return r.choice(c[-4:])
        a = r.choice(c) if c else s.leaf(ty, sh, s.vals(ty, prod(sh)), "const")
        if ty == "i1":
            return s.node("Not", [a], [(ty, sh)], mx=1)[0]
        b = s.leaf(ty, sh, s.vals(ty, prod(sh)), "const")
        return s.node(r.choice(("Max", "Min") if ty[0] == "u" else ("Add", "Sub", "Max", "Min")), [a, b], [(ty, sh)], mx=a.mx + b.mx)[0]

    def close(s):
        s.m.bar |= s.bar
        s.m.none |= s.none or any(0 in L[1] for L in s.lines)

    def captured(s):
        own = {l[0] for l in s.leaves} | {t.id for t in s.args} | {i for L in s.lines for i in L[2]}
        return [i for L in s.lines for i in L[1] if i and i not in own and i <= s.base]

    def text(s, ret, ty, form, rng, given=None):
        """The lines of the region. given: types of the arguments."""
        ty = dict(ty)
        L = []
        for t, g in zip(s.args, given or ()):
            ty[t.id] = g
        if s.args:
            L.append("    ^bb0(" + ", ".join(f"%v{t.id}: {ty[t.id]}" for t in s.args) + "):")
        for id, t, sh, v, _ in s.leaves:
            ty[id] = og.ttype(t, sh)
            L.append(f'    %v{id} = "onnx.Constant"() {{value = {og.dense(t, sh, v)}}} : () -> {ty[id]}')
        for x in s.lines:
            L += line(x, ty, form, rng)
        L.append(f'    onnx.Yield {", ".join(f"%v{t.id}" for t in ret)} : {", ".join(ty[t.id] for t in ret)}')
        # names of its own
        return [re.sub(r"%v(\d+)", lambda x: x[0] if int(x[1]) <= s.base else f"%b{s.depth}_{x[1]}", x) for x in L]


def put(m, ev, ops, bodies, outs, emit, further=True):
    """Append the node to m. ops: its operands; bodies: (body, returned).
    further: whether other nodes use its results."""
    m.ev.append(dict(ins=[t.id if t else 0 for t in ops], **ev))
    seen = [t.id for t in ops if t]
    for b, ret in bodies:
        own = {t.id for t in b.args}
        seen += b.captured() + [t.id for t in ret if t.id <= b.base and t.id not in own]
        b.close()
    if any(t is None for t in ops):
        m.none = True
    res = []
    for ty, sh, mx in outs:
        m.n += 1
        t = T(m.n, ty, sh, mx, ty in og.FLOATS)
        res.append(t)
        m.outs.append(t)
        if sh is not None and further:
            m.ts.append(t)
    m.lines.append((ev["op"], list(dict.fromkeys(seen)), [t.id for t in res], [t.ty for t in res], "", emit))
    m.ops.append(ev["op"])
    for b, _ in bodies:
        m.ops += b.ops
    return res


def head(outs, op, ops):
    return f'    {", ".join(f"%v{o}" for o in outs)} = "onnx.{op}"({", ".join(f"%v{t.id if t else 0}" for t in ops)})'


def tail(ops, ty, outs, res, attrs=""):
    return (f'    }}){attrs} : ({", ".join(ty[t.id] if t else "none" for t in ops)}) -> '
            f'({", ".join(f"tensor<*x{mt(t)}>" for t in res)})')


def truth(m, kind="data"):
    r = m.rng
    c = [t for t in m.ts if t.ty == "i1" and t.sh == []]
    if c and r.random() < .6:
        return r.choice(c)
    if r.random() < .5:
        return m.leaf("i1", [], [r.randint(0, 1)], r.choice(("data", "par", "const")))
    ty = r.choice(("f32", "i64"))
    a, b = m.data(ty, []), m.data(ty, [])
    return m.node(r.choice(("Less", "Equal", "GreaterOrEqual")), [a, b], [("i1", [])], mx=1)[0]


def g_if(m, op="If"):
    r = m.rng
    c = truth(m)
    then, els = Body(m).grow(0, 3), Body(m).grow(0, 3)
    ra, rb, outs = [], [], []
    for _ in range(r.randint(1, 3)):
        c1 = [t for t in then.ts if t.sh is not None and not t.isap and t.mx <= 4000 and t.ty != "none" and prod(t.sh)]
        if c1 and r.random() < .85:
            a = r.choice(c1[-4:])
        else:
            a = then.like(r.choice(("f32", "i64")), then.shape(r.randint(0, 3)), 4000)
        sh = list(a.sh)
        if sh and r.random() < .25:
            sh[r.randrange(len(sh))] = r.randint(1, 4)
        b = els.like(a.ty, sh, 4000)
        ra.append(a)
        rb.append(b)
        outs.append((a.ty, a.sh if a.sh == b.sh else None, max(a.mx, b.mx)))

    def emit(ty, form, rng, ids, res):
        return "\n".join([head(res, "If", [c]) + " ({"] + then.text(ra, ty, form, rng) + ["    }, {"] +
                         els.text(rb, ty, form, rng) + [tail([c], ty, res, [t.ty for t in ra])])
    return put(m, dict(op="If", body=then.ev, ret=[t.id for t in ra], body2=els.ev, ret2=[t.id for t in rb]),
               [c], [(then, ra), (els, rb)], outs, emit)


def carried(m):
    r = m.rng
    k = r.random()
    if k < .25:
        return m.data("i64", [], mx=100)
    if k < .35:
        return m.data("i1", m.shape(r.randint(0, 2)))
    return m.any(tys=("f32", "f32", "i64", "i32", "f64"), maxr=3, mx=100)


def argtype(rng, t, sure=False):
    k = rng.random()
    return og.ttype(t.ty, t.sh) if sure and k < .4 else f"tensor<*x{mt(t.ty)}>"


def step(b, vals):
    """What the body gives for the carried tensors."""
    r = b.rng
    ret = []
    own = b.args[-len(vals):] if vals else []
    for v in vals:
        k = r.random()
        same = [t for t in own if t.ty == v.ty and t.sh == v.sh]
        if k < .25 and same:
            ret.append(r.choice(same))
        else:
            ret.append(b.like(v.ty, v.sh, 1500))
    return ret


def scans(b, n, statics):
    """Tensors of the body to be collected."""
    c = [t for t in b.ts if t.sh is not None and not t.isap and t.id > b.base and t.mx <= 40000 and prod(t.sh) and len(t.sh) <= 3]
    return [b.rng.choice(c[-5:]) if c else b.like("f32", [2], 4000) for _ in range(n)]


def g_loop(m, op="Loop"):
    r = m.rng
    vals = [carried(m) for _ in range(r.choice((0, 1, 1, 2, 2, 3)))]
    trip = r.choice((0, 1, 1, 2, 2, 3, 4))
    kind = r.choice(("data", "par", "const"))
    M = m.leaf("i64", [], [trip], kind)
    keep = r.random() < .6          # the condition stays as it is
    ns = r.choice((0, 0, 1, 2)) if keep else 0
    if not vals:
        ns = max(ns, 1)
        keep = True
    C = m.leaf("i1", [], [1 if ns or r.random() < .85 else 0], "const" if ns else r.choice(("data", "par", "const")))
    b = Body(m, [("i64", [], 10), ("i1", [], 1)] + [(v.ty, v.sh, 350) for v in vals])
    b.grow(0, 4)
    if keep:
        cond = b.args[1]
    else:
        k = r.random()
        ctr = [t for t in b.args[2:] if t.sh == [] and t.ty in ("i64", "f32", "i32")] if k < .5 else []
        x = r.choice(ctr) if ctr else b.args[0]
        y = b.leaf(x.ty, [], [(4 if x.ty == "f32" else 1) * r.randint(0, 3)], "const")
        cond = b.node(r.choice(("Less", "LessOrEqual", "Greater") if ctr else ("Less", "LessOrEqual")), [x, y], [("i1", [])], mx=1)[0]
        if r.random() < .3:
            cond = b.node("And", [cond, b.args[1]], [("i1", [])], mx=1)[0]
    ret = step(b, vals)
    sc = scans(b, ns, True)
    ops = [M, C] + vals
    given = ["tensor<i64>", "tensor<i1>"]

    def emit(ty, form, rng, ids, res):
        g = given + [f"tensor<*x{mt(v.ty)}>" for v in vals]
        return "\n".join([head(res, "Loop", ops) + " ({"] + b.text([cond] + ret + sc, ty, form, rng, g) +
                         [tail(ops, ty, res, [t.ty for t in ret + sc])])
    return put(m, dict(op="Loop", body=b.ev, ret=[t.id for t in [cond] + ret + sc],
                       scans=[dict(ty=t.ty, sh=t.sh) for t in sc]),
               ops, [(b, [cond] + ret + sc)],
               [(v.ty, v.sh, 20000) for v in vals] + [(t.ty, [trip] + t.sh, t.mx * 10) for t in sc], emit,
               # whose dimensions are known unless the number of iterations is not
               further=not ns or kind == "const")


def g_scan(m, op="Scan"):
    r = m.rng
    vals = [carried(m) for _ in range(r.choice((0, 1, 1, 2)))]
    n = r.randint(1, 3)
    xs = []
    for _ in range(r.choice((1, 1, 2))):
        sh = [n] + m.shape(r.randint(0, 2))
        xs.append(m.data(r.choice(("f32", "f32", "i64")), sh, mx=300))
    b = Body(m, [(v.ty, v.sh, 350) for v in vals] + [(x.ty, x.sh[1:], 300) for x in xs])
    b.grow(0, 4)
    own = b.args
    b.args = own[:len(vals)]
    ret = step(b, vals)
    b.args = own
    ns = r.choice((0, 1, 1, 2)) if vals else r.randint(1, 2)
    sc = scans(b, ns, True)
    ops = vals + xs
    m.stat(*xs)
    if ns:
        m.bar.add("dyn")

    def emit(ty, form, rng, ids, res):
        g = [f"tensor<*x{mt(v.ty)}>" for v in ops]
        return "\n".join([head(res, "Scan", ops) + " ({"] + b.text(ret + sc, ty, form, rng, g) +
                         [tail(ops, ty, res, [t.ty for t in ret + sc], f" {{num_scan_inputs = {len(xs)} : si64}}")])
    return put(m, dict(op="Scan", body=b.ev, ret=[t.id for t in ret + sc], num_scan_inputs=len(xs),
                       scans=[dict(ty=t.ty, sh=t.sh) for t in sc]),
               ops, [(b, ret + sc)],
               [(v.ty, v.sh, 20000) for v in vals] + [(t.ty, [n] + t.sh, t.mx * 10) for t in sc], emit)


C = {"If": g_if, "Loop": g_loop, "Scan": g_scan}


def model(rng, op=None, around=(0, 2), nest=1):
    """A model with one such node (or a few) and some nodes around it. nest: the
    levels of bodies; above one, bodies also have the operators in HARD."""
    m = og.Model(rng, chain=.7)
    m.nest = nest
    m.pool = OPS + HARD if nest > 1 else OPS
    for _ in range(rng.randint(*around)):
        o = rng.choice(OPS)
        og.G[o](m, o)
    for k in ([op] if op else [rng.choice(list(C)) for _ in range(rng.randint(1, 2))]):
        C[k](m)
    for _ in range(rng.randint(*around)):
        o = rng.choice(OPS)
        og.G[o](m, o)
    used = {i for L in m.lines for i in L[1]}
    if rng.random() < .6:
        m.outs = [t for t in m.outs if t.id not in used]
    m.op = op or "body"
    return m
