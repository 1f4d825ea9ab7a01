"""Combinations of operators that the compiler rewrites, and near misses of them:
the same combinations with one axis, constant, shape or use changed, so that the
rewriting would not be right."""
import math

from onnxgen import FLOATS, T, bshape, dense, fa, fnum, ia, mt, prod, si, ttype, wattrs, window, wout
import onnxgen as og

I = {}


def idiom(f):
    I[f.__name__[2:]] = f
    return f


# ------------------------------------------------------------------- building
def n(m, op, ins, oty, sh, attrs="", mx=None, ap=False, **f):
    """A node with one result."""
    ap = ap or any(t and t.isap for t in ins)
    return m.node(op, ins, [(oty, None if ap else sh)], attrs=attrs, mx=mx, ap=(sh, (mx if mx is not None else 160) / 4) if ap else None, **f)[0]


def bop(m, op, a, b, **k):
    mx = dict(Mul=max(a.mx, 1) * max(b.mx, 1)).get(op, a.mx + b.mx)
    return n(m, op, [a, b], a.ty, bshape(a.sh, b.sh), mx=min(mx, 40000), **k)


def swap(m, op, a, b):
    return bop(m, op, *((a, b) if m.rng.random() < .5 else (b, a)))


def tr(m, x, p):
    return n(m, "Transpose", [x], x.ty, [x.sh[i] for i in p], f"perm = {ia(p)}", perm=list(p), mx=x.mx)


def perm(r, k):
    return r.sample(range(k), k)


def reshape(m, x, sh, s=None, az=0):
    s = list(sh) if s is None else s
    return n(m, "Reshape", [x, m.ints(s)], x.ty, sh, m.opt("allowzero", az, 0, si(az)), allowzero=az, mx=x.mx)


def cast(m, x, to):
    return n(m, "Cast", [x], to, x.sh, f"to = {mt(to)}", to=to, mx=4 * x.mx + 4)


def squeeze(m, x, axes):
    a = [i % x.r for i in axes]
    return n(m, "Squeeze", [x, m.ints(axes, kind="const")], x.ty, [d for i, d in enumerate(x.sh) if i not in a], axes=[], mx=x.mx)


def unsqueeze(m, x, axes):
    k = x.r + len(axes)
    a = [i % k for i in axes]
    it = iter(x.sh)
    return n(m, "Unsqueeze", [x, m.ints(axes, kind="const")], x.ty, [1 if i in a else next(it) for i in range(k)], axes=[], mx=x.mx)


def concat(m, ts, ax, **k):
    sh = list(ts[0].sh)
    sh[ax] = sum(t.sh[ax] for t in ts)
    return n(m, "Concat", ts, ts[0].ty, sh, f"axis = {si(ax)}", axis=ax, mx=max(t.mx for t in ts), **k)


def slice_(m, x, ax, s, e, st=1):
    sh = list(x.sh)
    sh[ax] = len(range(x.sh[ax])[slice(s, e, st)])
    k = "const" if x.ty == "i64" and x.r == 1 else "par"        # a shape, whose length must be known
    return n(m, "Slice", [x, m.ints([s], kind=k), m.ints([e], kind=k), m.ints([ax], kind="const"), m.ints([st], kind=k)], x.ty, sh, mx=x.mx)


def split(m, x, ax, sizes):
    outs = [(x.ty, x.sh[:ax] + [z] + x.sh[ax + 1:]) for z in sizes]
    return m.node("Split", [x, m.ints(sizes, kind="const")], outs, attrs=m.opt("axis", ax, 0, si(ax)), axis=ax, num_outputs=len(sizes), mx=x.mx)


def num(m, v, sh=None, kind="const", ty="f32"):
    """A constant."""
    sh = m.rng.choice([[], [1]]) if sh is None else sh
    return m.leaf(ty, sh, [v] * prod(sh), kind)


def exact(m, sh, vals, eps=None):
    """A constant the specification takes as vals but the model spells as eps."""
    t = m.leaf("f32", sh, vals, "const")
    m.spell[t.id] = eps
    return t


def rmean(m, x, axes, keep=1):
    a = [i % x.r for i in axes]
    sh = [1 if i in a else d for i, d in enumerate(x.sh) if keep or i not in a]
    f = dict(axes=list(axes), keepdims=keep, noop_with_empty_axes=0)
    return m.node("ReduceMean", [x], [(x.ty, None)], mlir="onnx.ReduceMeanV13", ap=(sh, x.mx / 4),
                  attrs=[f"axes = {ia(axes)}"] + m.opt("keepdims", keep, 1, si(keep)), **f)[0]


def dat(m, sh, lo=-4, hi=4, ty="f32", **k):
    return m.data(ty, sh, lo, hi, mx=40, **k)


def few(m, k=3, dims=(1, 2, 3, 4)):
    return m.shape(m.rng.randint(1, k), dims)


# ---------------------------------------------------------------- normalisation
@idiom
def i_layernorm(m):
    r = m.rng
    sh = r.choice([[2, 4], [3, 8], [2, 2, 4], [2, 3, 3], [1, 2, 2, 3]])
    x = m.leaf("f32", sh, [4 * v for v in m.vals("i32", prod(sh), -6, 6)])
    k = len(sh)
    axes = r.choice([[-1], [-1], [k - 1], [-2, -1], [k - 2, k - 1], [0], [1], [-2]])
    ax2 = axes if r.random() < .8 else r.choice([[-1], [-2], [k - 1], [-2, -1]])
    if r.random() < .65:
        mean = rmean(m, x if r.random() < .92 else m.leaf("f32", sh, [4 * v for v in m.vals("i32", prod(sh), -6, 6)]), axes)
        d = bop(m, "Sub", x, mean) if r.random() < .93 else bop(m, "Sub", mean, x)
    else:
        d = x
    d1 = d if r.random() < .95 else bop(m, "Mul", d, num(m, 8))
    dd = bop(m, "Mul", d, d1)
    var = rmean(m, dd, ax2)
    e = r.random()
    if e < .3:
        eps = exact(m, r.choice([[], [1]]), [0], "9.99999974E-6")
    elif e < .8:
        eps = num(m, r.choice([1, 2, 4]))
    elif e < .9:
        eps = num(m, 4, kind="data")
    else:
        eps = m.leaf("f32", [var.sh[0]] + [1] * (var.r - 1), [4 * v for v in m.vals("i32", var.sh[0], 1, 4)], "const")
    sd = n(m, "Sqrt", [swap(m, "Add", var, eps)], "f32", bshape(var.sh, eps.sh), mx=80)
    c = r.random()
    if c < .35:
        y = n(m, "DivF", [d, sd], "f32", bshape(d.sh, sd.sh), mlir="onnx.Div", mx=40)
    elif c < .7:
        y = swap(m, "Mul", d, n(m, "Reciprocal", [sd], "f32", sd.sh, mx=40))
    else:
        one = num(m, r.choice([4, 4, 4, 8]))
        y = swap(m, "Mul", d, n(m, "DivF", [one, sd], "f32", bshape(one.sh, sd.sh), mlir="onnx.Div", mx=40))
    inner = y.sh[(axes[0] % k):]
    for op, p in ("Mul", .85), ("Add", .7):
        if r.random() < p:
            s = r.choice([inner, inner, inner, sh[-1:], [], [1], list(sh), [1] + sh[1:], [d if i < k - 1 else 1 for i, d in enumerate(sh)]])
            w = m.leaf("f32", s, [v or 4 for v in m.vals("f32", prod(s), -3, 3)], r.choice(["par", "const", "data"]))
            y = swap(m, op, y, w)


@idiom
def i_gelu(m):
    r = m.rng
    sh = few(m)
    x = m.leaf("f32", sh, [2 * r.randint(-6, 6) for _ in range(prod(sh))])
    half, one, two = num(m, r.choice([2, 2, 2, 4])), num(m, r.choice([4, 4, 4, 2])), None
    if r.random() < .5:
        if r.random() < .85:
            e = m.node("ErfR2", [x], [("f32", None)], ap=(sh, 4), names=divided(m, r.random() < .5))[0]
        else:
            e = m.node("Erf", [x], [("f32", None)], ap=(sh, 4))[0]
    else:
        e = m.node("TanhG", [x], [("f32", None)], ap=(sh, 4), names=tanhg(m))[0]
    z = swap(m, "Add", e, one)
    x2 = x if r.random() < .93 else dat(m, sh)
    if r.random() < .5:
        swap(m, "Mul", half, swap(m, "Mul", x2, z)) if r.random() < .5 else swap(m, "Mul", x2, swap(m, "Mul", half, z))
    else:
        hx = swap(m, "Mul", half, x2)
        swap(m, "Mul", hx, z)


def divided(m, mul):
    """erf(x / sqrt 2) as two nodes."""
    def text(ty, form, rng, ids, outs):
        o = outs[0]
        c, op = ("0.707106769", "Mul") if mul else ("1.41421354", "Div")
        return (f'    %c{o} = "onnx.Constant"() {{value = dense<{c}> : tensor<f32>}} : () -> tensor<f32>\n'
                f'    %d{o} = "onnx.{op}"(%v{ids[0]}, %c{o}) : ({ty[ids[0]]}, tensor<f32>) -> tensor<*xf32>\n'
                f'    %v{o} = "onnx.Erf"(%d{o}) : (tensor<*xf32>) -> tensor<*xf32>')
    return text


def tanhg(m):
    """tanh(sqrt(2/pi) * (x + 0.044715 x^3))"""
    r = m.rng
    pw, f, g = r.random() < .5, r.random() < .5, r.random() < .5

    def text(ty, form, rng, ids, outs):
        o, i = outs[0], ids[0]
        K = lambda nm, v: f'    %{nm}{o} = "onnx.Constant"() {{value = dense<{v}> : tensor<f32>}} : () -> tensor<f32>\n'
        t, s = ty[i], "tensor<*xf32>"
        L = K("k", "0.0447149985") + K("q", "0.797884583") + K("p", "3.000000e+00")
        if pw:
            L += f'    %a{o} = "onnx.Pow"(%v{i}, %p{o}) : ({t}, tensor<f32>) -> {s}\n'
        else:
            L += f'    %b{o} = "onnx.Mul"(%v{i}, %v{i}) : ({t}, {t}) -> {s}\n    %a{o} = "onnx.Mul"(%v{i}, %b{o}) : ({t}, {s}) -> {s}\n'
        two = lambda op, out, a, ta, b, tb, sw: f'    %{out} = "onnx.{op}"({", ".join([b, a] if sw else [a, b])}) : ({", ".join([tb, ta] if sw else [ta, tb])}) -> {s}\n'
        L += two("Mul", f"e{o}", f"%a{o}", s, f"%k{o}", "tensor<f32>", f)
        L += two("Add", f"f{o}", f"%v{i}", t, f"%e{o}", s, g)
        L += two("Mul", f"g{o}", f"%f{o}", s, f"%q{o}", "tensor<f32>", f)
        return L + f'    %v{o} = "onnx.Tanh"(%g{o}) : ({s}) -> {s}'
    return text


# --------------------------------------------------------------- linear algebra
@idiom
def i_matmul_add(m):
    r = m.rng
    M, K, N = r.randint(1, 4), r.randint(1, 4), r.choice([1, 2, 4, 8])
    a, b = r.choice([[M, K], [M, K], [2, M, K], [K]]), [K, N]
    A, B = dat(m, a), m.par("f32", b, m.vals("f32", K * N), r.choice(["par", "data"]))
    if r.random() < .3:
        A = swap(m, "Mul", A, num(m, r.choice([4, 8, -4])))
    y = n(m, "MatMul", [A, B], "f32", a[:-1] + [N], mx=A.mx * B.mx * K)
    s = r.choice([[N], [N], [1, N], [M, N], [1], [], [M, 1], [2, 1, 1]])
    c = m.par("f32", s, m.vals("f32", prod(s)), r.choice(["par", "data"]))
    y = swap(m, "Add", y, c)
    if r.random() < .4:
        swap(m, r.choice(["Add", "Mul"]), y, num(m, r.choice([4, 8, -4])))


@idiom
def i_scaled_matmul(m):
    """Scaling by a constant that may be moved to the operand of a product."""
    r = m.rng
    M, K, N = r.randint(1, 3), r.randint(1, 4), r.randint(1, 4)
    A, B = dat(m, [M, K]), m.par("f32", [K, N], m.vals("f32", K * N), r.choice(["const", "par"]))
    y = n(m, "MatMul", [A, B], "f32", [M, N], mx=A.mx * B.mx * K)
    s = r.choice([[], [], [1], [N], [M, 1]])
    c = m.leaf("f32", s, [4 * v for v in m.vals("i32", prod(s), 1, 3)], r.choice(["const", "const", "data"]))
    if r.random() < .5:
        b = m.par("f32", [N], m.vals("f32", N), "const")
        y = swap(m, "Add", y, b)
    if r.random() < .5:
        swap(m, "Mul", y, c)
    else:
        n(m, "DivF", [y, c], "f32", bshape(y.sh, c.sh), mlir="onnx.Div", ap=True)


@idiom
def i_gemm_add(m):
    r = m.rng
    og.g_gemm(m, "Gemm")
    y = m.ts[-1]
    M, N = y.sh
    s = r.choice([[N], [1, N], [M, N], [1], [], [M, 1], [2, 1, 1]])
    swap(m, "Add", y, m.par("f32" if y.ty == "f32" else y.ty, s, m.vals(y.ty, prod(s)), r.choice(["par", "data", "const"])))


@idiom
def i_reshape_matmul(m):
    r = m.rng
    a, b, K, N = r.randint(1, 3), r.randint(1, 3), r.randint(1, 4), r.randint(1, 4)
    x = dat(m, [a, b, K])
    y = reshape(m, x, [a * b, K], r.choice([None, [-1, K], [a * b, -1]]))
    z = n(m, "MatMul", [y, m.par("f32", [K, N], m.vals("f32", K * N))], "f32", [a * b, N], mx=x.mx * 16 * K)
    o = r.choice([[a, b, N], [a, b, N], [b, a, N], [a, b * N], [a * b * N]])
    reshape(m, z, o, r.choice([None, [-1] + o[1:]]))


@idiom
def i_attention(m):
    r = m.rng
    s, d = r.randint(1, 3), r.randint(1, 3)
    x = dat(m, [s, d], -2, 2)
    y = []
    for _ in range(2):
        w = m.leaf("f32", [d, d], m.vals("f32", d * d, -1, 1), "const")
        q = n(m, "MatMul", [x, w], "f32", [s, d], mx=200)
        y.append(swap(m, "Add", q, m.leaf("f32", r.choice([[d], [1, d]]), m.vals("f32", d, -1, 1), "const")) if r.random() < .7 else q)
    k = tr(m, y[1], [1, 0])
    p = n(m, "MatMul", [y[0], k], "f32", [s, s], mx=4000)
    c = num(m, r.choice([4, 8, 16]), r.choice([[], [1], [1, 1]]))
    if r.random() < .5:
        n(m, "DivF", [p, c], "f32", bshape(p.sh, c.sh), mlir="onnx.Div", ap=True)
    else:
        swap(m, "Mul", p, c)
    if r.random() < .5:
        z = m.leaf("f32", [s, s], [r.randint(-12, 12) for _ in range(s * s)])
        z = n(m, "Softmax", [z], "f32", [s, s], "axis = -1 : si64", axis=-1, ap=True, mx=4)
        n(m, "MatMul", [z, dat(m, [s, d])], "f32", [s, d], mx=60)


@idiom
def i_quantized_matmul(m):
    r = m.rng
    M, K, N = r.randint(1, 3), r.randint(1, 3), r.randint(1, 3)
    ty = r.choice(["u8", "i8"])
    zp = lambda: m.leaf(ty, [], [r.randint(0, 3)], "par")
    sc = lambda v: m.leaf("f32", [], [4 * v], "par")
    lo, hi, top = (3, 9, 250) if ty == "u8" else (-3, 3, 120)
    sa, sb = r.choice([1, 2]), r.choice([1, 2])
    big = (hi if ty == "u8" else 6) ** 2 * K * sa * sb
    sy = r.choice([v for v in (1, 2, 4, 8, 16) if big / v <= top])       # known finding: results that wrap around
    a, b = m.leaf(ty, [M, K], m.vals(ty, M * K, lo, hi), "data"), m.leaf(ty, [K, N], m.vals(ty, K * N, lo, hi), "par")
    A = n(m, "DequantizeLinear", [a, sc(sa), zp()], "f32", [M, K], mx=100)
    B = n(m, "DequantizeLinear", [b, sc(sb), zp()], "f32", [K, N], mx=100)
    y = n(m, "MatMul", [A, B], "f32", [M, N], mx=4000)
    if r.random() < .2:
        y = swap(m, "Add", y, num(m, 4))
    n(m, "QuantizeLinear", [y, sc(sy), zp()], ty, [M, N], ty=ty, mx=256)


# ----------------------------------------------------------------- convolutions
def conv(m, x, mg=None, g=1, w=None, kind="par", bias=None, nd=None):
    r = m.rng
    nd = len(x.sh) - 2
    w = w or window(m, nd, x.sh[2:], 3)
    wsh = [mg, x.sh[1] // g] + w["kernel_shape"]
    W = m.leaf("f32", wsh, m.vals("f32", prod(wsh), -2, 2), kind)
    b = m.leaf("f32", [mg], m.vals("f32", mg), kind) if (r.random() < .5 if bias is None else bias) else None
    osh = [x.sh[0], mg] + [wout(w, i, x.sh[2 + i], nd) for i in range(nd)]
    return n(m, "Conv", [x, W, b], "f32", osh, wattrs(m, w, nd, True) + m.opt("group", g, 1, si(g)), group=g, mx=1000, **w)


@idiom
def i_conv_affine(m):
    """A convolution followed by additions, products or a normalisation."""
    r = m.rng
    x = dat(m, [r.randint(1, 2), r.randint(1, 2)] + m.shape(r.choice([1, 2, 2]), (2, 3, 4)), -3, 3)
    c = r.choice([1, 2, 3])
    y = conv(m, x, c, kind=r.choice(["const", "const", "par", "data"]))
    nd = y.r - 2
    for _ in range(r.randint(1, 2)):
        e = r.random()
        if e < .4:
            s = r.choice([[c] + [1] * nd, [1, c] + [1] * nd, [], [1], [1] * (nd + 2), y.sh[-1:], [1] * nd, list(y.sh[1:]), [1] * (nd + 1)])
            y = swap(m, "Add", y, m.leaf("f32", s, m.vals("f32", prod(s)), r.choice(["const", "const", "data"])))
        elif e < .75:
            s = r.choice([[c] + [1] * nd, [c] + [1] * nd, [1, c] + [1] * nd, [1], y.sh[-1:], [1] * (nd + 2), []])
            y = swap(m, "Mul", y, m.leaf("f32", s, m.vals("f32", prod(s), -2, 2), r.choice(["const", "const", "data"])))
            y.mx = min(y.mx, 4000)
        else:
            P = lambda lo, hi: m.leaf("f32", [c], m.vals("f32", c, lo, hi), r.choice(["const", "const", "par"]))
            n(m, "BatchNormalization", [y, P(-2, 2), P(-3, 3), P(-3, 3), P(1, 9)], "f32", y.sh, mlir="onnx.BatchNormalizationInferenceMode", ap=True,
              attrs=["epsilon = 9.99999974E-6 : f32"])
            return


@idiom
def i_conv_1x1(m):
    r = m.rng
    g = r.choice([1, 1, 1, 2])
    c = g * r.randint(1, 3)
    x = dat(m, [r.randint(1, 3), c] + m.shape(2, (1, 2, 3, 4, 5)), -3, 3)
    w = dict(kernel_shape=[1, 1], strides=[1, 1], dilations=[1, 1], auto_pad=r.choice(["NOTSET", "NOTSET", "VALID", "SAME_UPPER"]), pads=[0] * 4)
    e = r.random()
    if e < .12:
        w["strides"] = r.choice([[2, 2], [1, 2], [2, 1]])
    elif e < .24 and w["auto_pad"] == "NOTSET":
        w["pads"] = [r.randint(0, 1) for _ in range(4)]
    elif e < .34:
        w["kernel_shape"] = r.choice([[1, 2], [2, 1]])
        if any(a < b for a, b in zip(x.sh[2:], w["kernel_shape"])):
            w["kernel_shape"] = [1, 1]
    elif e < .42:
        w["dilations"] = [2, 2]
    y = conv(m, x, g * r.randint(1, 3), g, w)
    if r.random() < .4:
        n(m, "Relu", [y], "f32", y.sh)


@idiom
def i_conv_relu_pool(m):
    r = m.rng
    x = dat(m, [1, r.randint(1, 2), r.randint(3, 5), r.randint(3, 5)], -3, 3)
    y = conv(m, x, r.randint(1, 2)) if r.random() < .5 else x
    if r.random() < .8:
        y = n(m, "Relu", [y], "f32", y.sh)
    w = window(m, 2, y.sh[2:], 2, True)
    if w["dilations"] != [1, 1]:
        w["dilations"] = [1, 1]
    osh = y.sh[:2] + [wout(w, i, y.sh[2 + i], 2) for i in range(2)]
    if any(o < 1 for o in osh):
        return
    y = n(m, "MaxPool", [y], "f32", osh, wattrs(m, w, 2), mlir="onnx.MaxPoolSingleOut", ceil_mode=0, count_include_pad=0, **w)
    if r.random() < .6:
        n(m, "Relu", [y], "f32", y.sh)


@idiom
def i_parallel_conv(m):
    r = m.rng
    g = r.choice([1, 1, 1, 2])
    x = dat(m, [r.randint(1, 2), g * r.randint(1, 2), 3, r.randint(3, 4)], -2, 2)
    w = window(m, 2, x.sh[2:], 2)
    c = g * r.randint(1, 2)
    k = r.randint(2, 3)
    bias = r.random() < .6
    ys = [conv(m, x, c if r.random() < .8 else g * r.randint(1, 3), g if r.random() < .9 or x.sh[1] % 2 else 1, w if r.random() < .9 else window(m, 2, x.sh[2:], 2),
               r.choice(["const", "const", "par"]), bias if r.random() < .8 else r.random() < .6) for _ in range(k)]
    if all(y.sh[2:] == ys[0].sh[2:] for y in ys):
        if r.random() < .3:
            r.shuffle(ys)
        if r.random() < .15:
            ys.append(dat(m, list(r.choice(ys).sh)))
        if r.random() < .1:
            ys.append(r.choice(ys))
        y = concat(m, ys, 1 if r.random() < .85 or len({y.sh[1] for y in ys}) > 1 else 0)
        if r.random() < .15:
            n(m, "Relu", [r.choice(ys)], "f32", None)
    return


# ------------------------------------------------------------------ movement
@idiom
def i_transposes(m):
    r = m.rng
    x = m.data(r.choice(["f32", "i64"]), m.shape(r.randint(2, 4)))
    p = perm(r, x.r)
    inv = sorted(range(x.r), key=lambda i: p[i])
    y = tr(m, x, p)
    if r.random() < .3:
        y = n(m, r.choice(["Relu", "Neg"]), [y], y.ty, y.sh) if y.ty == "f32" else y
    q = r.choice([inv, perm(r, x.r), p])
    z = tr(m, y, q)
    if r.random() < .4:
        tr(m, z, perm(r, x.r))


@idiom
def i_transposed_concat(m):
    r = m.rng
    k = r.randint(2, 3)
    p = perm(r, k)
    ax = r.randrange(k)
    base = m.shape(k, (1, 2, 3))
    ts = []
    c = r.randint(2, 3)
    for i in range(c):
        q = p if r.random() < .9 else perm(r, k)
        osh = list(base)
        osh[ax] = r.randint(1, 3)
        ish = [0] * k
        for i, d in enumerate(q):
            ish[d] = osh[i]
        ts.append(tr(m, dat(m, ish), q))
    y = concat(m, ts, ax)
    if r.random() < .5:
        r.choice([lambda: tr(m, y, perm(r, k)), lambda: n(m, "Shape", [y], "i64", [k], start=0, end=k, mx=8)])()


@idiom
def i_concat_fuse(m):
    r = m.rng
    k = r.randint(2, 3)
    ax = r.randrange(-k, k)
    base = m.shape(k, (1, 2, 3))
    ts = []
    for _ in range(r.randint(1, 3)):
        sh = list(base)
        sh[ax] = r.randint(1, 3)
        ts.append(dat(m, sh))
    y = concat(m, ts, ax)
    for _ in range(r.randint(1, 2)):
        tr(m, y, perm(r, k))
    s = r.randint(0, k - 1)
    if r.random() < .8:
        n(m, "Shape", [y], "i64", [k - s], m.opt("start", s, 0, si(s)), start=s, end=k, mx=8)


@idiom
def i_reshapes(m):
    r = m.rng
    x = m.data(r.choice(["f32", "i64"]), m.shape(r.randint(1, 4), (1, 2, 3, 4)))
    y = x
    for _ in range(r.randint(2, 3)):
        og_ = og.factor(r, prod(y.sh), r.randint(1, 4))
        if r.random() < .25:
            og_ = list(x.sh)
        s = list(og_)
        if s and r.random() < .5:
            s[r.randrange(len(s))] = -1
        az = r.choice([0, 0, 1])
        if not az:
            for i in range(min(len(s), y.r)):
                if s[i] == y.sh[i] and s[i] != -1 and r.random() < .5:
                    s[i] = 0
        y = reshape(m, y, og_, s, az)


@idiom
def i_squeezes(m):
    r = m.rng
    k = r.randint(1, 2)
    x = m.data(r.choice(["f32", "i32"]), m.shape(r.randint(1, 3)))
    a = sorted(r.sample(range(x.r + k), k))
    y = unsqueeze(m, x, [i - x.r - k if r.random() < .4 else i for i in a])
    if r.random() < .3:
        y = cast(m, y, "i64" if y.ty == "i32" else "f64")
    ones = [i for i, d in enumerate(y.sh) if d == 1]
    b = a if r.random() < .7 else sorted(r.sample(ones, min(k, len(ones))))
    z = squeeze(m, y, [i - y.r if r.random() < .4 else i for i in b])
    if r.random() < .5:
        c = sorted(r.sample(range(z.r + len(b)), len(b))) if r.random() < .5 else b
        unsqueeze(m, z, [i - z.r - len(b) if r.random() < .4 else i for i in c])


@idiom
def i_depth_space(m):
    r = m.rng
    b = r.choice([1, 2, 2])
    first = r.choice("DS")
    h, w, c, k = r.randint(1, 2), r.randint(1, 2), r.randint(1, 2), r.randint(1, 2)
    sh = [k, c * b * b, h, w] if first == "D" else [k, c, h * b, w * b]
    m.bar.add("dyn")
    x = dat(m, sh)

    def go(x, t, b):
        mode = r.choice(["DCR", "DCR", "CRD"])
        N, C, H, W = x.sh
        if t == "D":
            if C % (b * b):
                return x
            return n(m, "DepthToSpace", [x], "f32", [N, C // b // b, H * b, W * b], [f"blocksize = {si(b)}"] + m.opt("mode", mode, "DCR", f'"{mode}"'),
                     blocksize=b, mode=mode, mx=x.mx)
        if H % b or W % b or b > 1 and C > 1:         # known finding: the order of the channels
            return x
        return n(m, "SpaceToDepth", [x], "f32", [N, C * b * b, H // b, W // b], [f"blocksize = {si(b)}"], blocksize=b, mode=mode, mx=x.mx)
    y = go(x, first, b)
    go(y, "S" if first == "D" else "D", b if r.random() < .85 else 1)


@idiom
def i_expanded(m):
    """Slices and unsqueezes of an expanded tensor."""
    r = m.rng
    sh = m.shape(r.randint(1, 3), (1, 1, 2, 3))
    x = m.data("f32", sh) if r.random() < .6 else num(m, 4 * r.randint(-3, 3), r.choice([[], [1], [1, 1]]), r.choice(["const", "data"]))
    s = [r.randint(1, 3) for _ in range(r.randint(0, 1))] + [r.randint(1, 3) if d == 1 else d for d in x.sh]
    if not s:
        s = [2]
    y = n(m, "Expand", [x, m.ints(s)], "f32", bshape(x.sh, s), mx=x.mx)
    c = r.random()
    if c < .35:
        a = r.randrange(y.r + 1)
        y = unsqueeze(m, y, [a - y.r - 1 if r.random() < .4 else a])
    elif c < .7:
        ax = r.randrange(y.r)
        d = y.sh[ax]
        st = r.choice([1, 1, -1])
        y = slice_(m, y, ax, *((0, d, 1) if r.random() < .3 else (0, r.randint(1, d), 1) if st == 1 else (d - 1, -d - 1, -1)))
    z = dat(m, y.sh)
    swap(m, r.choice(["Add", "Mul", "Max"]), y, z)


@idiom
def i_slice_concat(m):
    r = m.rng
    k = r.randint(1, 3)
    ax = r.randrange(k)
    base = m.shape(k, (1, 2, 3))
    ts = []
    for _ in range(r.randint(2, 3)):
        sh = list(base)
        sh[ax] = r.randint(1, 3)
        ts.append(dat(m, sh))
    y = concat(m, ts, ax)
    if r.random() < .75:
        j = r.randrange(len(ts))
        s = sum(t.sh[ax] for t in ts[:j])
        e = s + ts[j].sh[ax]
    else:
        s = r.randint(0, y.sh[ax] - 1)
        e = r.randint(s + 1, y.sh[ax])
    if r.random() < .3:
        s -= y.sh[ax]
        e = e - y.sh[ax] if e < y.sh[ax] else 1 << 30
    slice_(m, y, ax, s, e) if r.random() < .9 else slice_(m, y, ax, None or -1, -(1 << 30), -1)


@idiom
def i_split_pull(m):
    """Splits of element-wise results, and their concatenation."""
    r = m.rng
    x = dat(m, m.shape(r.randint(1, 3), (2, 3, 4)))
    y = n(m, r.choice(["Relu", "Neg", "Abs"]), [x], "f32", x.sh) if r.random() < .8 else x
    ax = r.randrange(x.r)
    d = x.sh[ax]
    c = sorted(r.sample(range(1, d), r.randint(1, min(2, d - 1))))
    zs = split(m, y, ax, [b - a for a, b in zip([0] + c, c + [d])])
    zs = [n(m, "Relu", [z], "f32", z.sh) if r.random() < .3 else z for z in zs]
    if r.random() < .5:
        if r.random() < .5:
            r.shuffle(zs)
        concat(m, zs, ax)


@idiom
def i_identities(m):
    """Operations that do nothing, or nearly nothing."""
    r = m.rng
    x = m.data(r.choice(["f32", "i64", "i32"]), m.shape(r.randint(1, 3)))
    y = x
    one = 4 if x.ty in FLOATS else 1
    for _ in range(r.randint(1, 3)):
        c = r.randrange(10)
        if c == 0:
            y = n(m, "Identity", [y], y.ty, y.sh)
        elif c == 1:
            k = [1] * y.r
            if r.random() < .4:
                k[r.randrange(y.r)] = 2
            y = n(m, "Tile", [y, m.ints(k, kind="const")], y.ty, [a * b for a, b in zip(k, y.sh)])
        elif c == 2:
            y = cast(m, y, y.ty)
        elif c == 3:
            y = tr(m, y, list(range(y.r)) if r.random() < .6 else perm(r, y.r))
        elif c == 4:
            y = reshape(m, y, list(y.sh), r.choice([None, [0] * y.r, [0] * (y.r - 1) + [-1]]))
        elif c == 5:
            s = r.choice([[], [1], y.sh, [1] + y.sh, [1, 1] + y.sh])
            y = swap(m, "Add", y, m.leaf(y.ty, s, [0 if r.random() < .9 else one] * prod(s), "const"))
        elif c == 6:
            s = r.choice([[], [1], y.sh, [1] + y.sh])
            y = swap(m, "Mul", y, m.leaf(y.ty, s, [one if r.random() < .9 else 2 * one] * prod(s), "const"))
        elif c == 7:
            s = r.choice([[], [1], y.sh, [1] + y.sh])
            y = bop(m, "Sub", y, m.leaf(y.ty, s, [0] * prod(s), "const"))
        elif c == 8:
            y = concat(m, [y], r.randrange(y.r))
        elif c == 9:
            s = list(y.sh)
            if r.random() < .4:
                s = [2] + s
            y = n(m, "Expand", [y, m.ints(s, kind="const")], y.ty, s)
        if prod(y.sh) > 150:
            return


@idiom
def i_empty_concat(m):
    """Some operands of the concatenation have no elements."""
    r = m.rng
    k = r.randint(1, 3)
    ax = r.randrange(k)
    base = m.shape(k, (1, 2, 3))
    ts = []
    for i in range(r.randint(2, 4)):
        sh = list(base)
        sh[ax] = r.choice([0, 1, 2])
        ts.append(m.leaf("f32", sh, m.vals("f32", prod(sh)), "const" if 0 in sh and r.random() < .5 else "data"))
    if all(0 in t.sh for t in ts):
        ts.append(dat(m, base))
    if any(0 in t.sh for t in ts):
        m.stat(*ts)
    m.ts = [t for t in m.ts if t.sh is None or 0 not in t.sh]
    y = concat(m, ts, ax)


@idiom
def i_clips(m):
    r = m.rng
    x = m.any(r.choice(["f32", "i32"]))
    one = 4 if x.ty in FLOATS else 1
    for _ in range(r.randint(2, 3)):
        b = [m.leaf(x.ty, [], [one * r.randint(-4, 4)], r.choice(["const", "const", "data"])) if r.random() < .75 else None for _ in range(2)]
        x = n(m, "Clip", [x] + b, x.ty, x.sh, mx=max(x.mx, 16))


@idiom
def i_casts(m):
    r = m.rng
    tys = ["f32", "f64", "i32", "i64", "i8", "i1"]
    x = m.any(r.choice(tys), frac=True)
    for _ in range(r.randint(2, 3)):
        x = cast(m, x, r.choice(tys))
        if r.random() < .3 and x.sh:
            x = concat(m, [x, x], r.randrange(x.r))
        if r.random() < .3 and x.sh:
            ax = r.randrange(x.r)
            x = slice_(m, x, ax, 0, r.randint(1, x.sh[ax]))


@idiom
def i_compare_casts(m):
    r = m.rng
    a, b = og.bshapes(m)
    t = r.choice(["i32", "i64", "f32"])
    to = dict(i32=["i64", "f64"], i64=["i32", "f64"], f32=["f64", "i32"])[t]
    x, y = m.data(t, a, frac=True), m.data(t, b, frac=True)
    to = r.choice(to)
    x, y = cast(m, x, to), cast(m, y, to)
    n(m, r.choice(["Less", "Greater", "Equal", "LessOrEqual"]), [x, y], "i1", bshape(a, b), mx=1)


@idiom
def i_where(m):
    r = m.rng
    if r.random() < .5:
        # the shape given to an expansion, with minus one replaced
        k = r.randint(1, 3)
        x = m.data("f32", [1] * k)
        sv = [r.choice([-1, 2, 3]) for _ in range(k)]
        s = m.leaf("i64", [k], sv, r.choice(["const", "par"]))
        m.fixed.add(s.id)
        c = n(m, "Equal", [s, m.leaf("i64", [k], [-1] * k, "const")], "i1", [k], mx=1)
        o = n(m, "ConstantOfShape", [m.ints([k], kind="const")], "i64", [k], f"value = {dense('i64', [1], [1])}", ty="i64", value=1, mx=1)
        w = n(m, "Where", [c, o, s], "i64", [k], mx=3)
        n(m, "Expand", [x, w], "f32", [1 if v == -1 else v for v in sv], mx=16)
        m.ts = [u for u in m.ts if u.ty != "i64"]
        return
    sh = few(m)
    v = r.choice([0, 0, 1])
    s = r.choice([list(sh), [], [1], sh[-1:]])
    c = m.leaf("i1", s, [v] * prod(s), r.choice(["const", "data"]))
    n(m, "Where", [c, dat(m, sh), dat(m, r.choice([sh, sh, [1] * len(sh), sh[-1:]]))], "f32", sh, mx=40)


# ------------------------------------------------------------------ constants
@idiom
def i_associative(m):
    """Sums and products with several constants."""
    r = m.rng
    ty = r.choice(["f32", "i32", "i64", "f64"])
    op = r.choice(["Add", "Mul"])
    full = few(m)
    cut = lambda: [1 if r.random() < .3 else d for d in full[r.choice([0, 0, r.randint(0, len(full))]):]]
    lim = 9 if op == "Add" else 2
    K = lambda: (lambda s: m.leaf(ty, s, m.vals(ty, prod(s), -lim, lim), "const"))(cut())
    X = lambda: m.data(ty, cut(), -lim, lim, mx=16)
    t = lambda: r.choice([X, K])()
    def tree(k):
        if k == 0:
            return t()
        a, b = tree(k - 1), (tree(0) if r.random() < .7 else tree(k - 1))
        o = op if r.random() < .85 else r.choice(["Add", "Sub", "Mul"])
        if a.mx * b.mx > 4000:
            o = "Add"
        return swap(m, o, a, b)
    tree(r.randint(2, 3))


@idiom
def i_inverses(m):
    """Subtracting, dividing and powers by constants."""
    r = m.rng
    sh = few(m)
    x = m.leaf("f32", sh, [4 * (v or 1) for v in m.vals("i32", prod(sh), -4, 4)])
    s = r.choice([[], [1], sh, sh[-1:]])
    c = r.randrange(4)
    if c == 0:
        y = bop(m, "Sub", x, m.leaf("f32", s, m.vals("f32", prod(s)), "const"))
        bop(m, r.choice(["Add", "Sub"]), y, m.leaf("f32", s, m.vals("f32", prod(s)), "const"))
    elif c == 1:
        d = m.leaf("f32", s, [4 * (v or 1) for v in m.vals("i32", prod(s), -4, 4)], "const")
        n(m, "DivF", [x, d], "f32", bshape(x.sh, s), mlir="onnx.Div", ap=True)
    elif c == 2:
        e = r.choice([0, 4, 8, 12, 16])
        n(m, "Pow", [x, num(m, e, r.choice([[], [1], sh]))], "f32", sh, mx=2000)
    else:
        n(m, "Sum", [x] + [dat(m, s) for _ in range(r.randint(0, 2))], "f32", sh, mx=200)


# ------------------------------------------------------------------ shapes
@idiom
def i_shape_chain(m):
    """A shape computed from the shape of a tensor."""
    r = m.rng
    x = m.data("f32", m.shape(r.randint(2, 4), (1, 2, 3, 4)))
    s = n(m, "Shape", [x], "i64", [x.r], start=0, end=x.r, mx=8)
    parts, val = [], []
    for _ in range(r.randint(1, 3)):
        c = r.randrange(4)
        i = r.randrange(x.r)
        if c == 0:
            g = n(m, "Gather", [s, m.ints([i], kind="const")], "i64", [1], "axis = 0 : si64", axis=0, mx=8)
            parts.append(g)
            val.append(x.sh[i])
        elif c == 1:
            g = n(m, "Gather", [s, m.leaf("i64", [], [i - r.choice([0, x.r])], "const")], "i64", [], "axis = 0 : si64", axis=0, mx=8)
            if r.random() < .3:
                g = cast(m, cast(m, g, "f32"), "i64")
            parts.append(unsqueeze(m, g, [0]))
            val.append(x.sh[i])
        elif c == 2:
            j = r.randint(i + 1, x.r)
            g = slice_(m, s, 0, i, j)
            if r.random() < .4:
                g = cast(m, cast(m, g, r.choice(["i32", "f32"])), "i64")
            parts.append(g)
            val += x.sh[i:j]
        else:
            k = r.randint(1, 2)
            parts.append(m.leaf("i64", [1], [k], "const"))
            val.append(k)
    if r.random() < .3:
        p0 = parts[0]
        parts[0] = bop(m, "Mul", p0, m.leaf("i64", [1], [2], "const"))
        val[:p0.sh[0]] = [2 * v for v in val[:p0.sh[0]]]
    if prod(val) > 200 or len(val) > 6:
        return
    t = concat(m, parts, 0) if len(parts) > 1 else parts[0]
    c = r.random()
    if c < .4:
        n(m, "ConstantOfShape", [t], "f32", val, f"value = {dense('f32', [1], [6])}", ty="f32", value=6, mx=6)
    elif c < .7:
        o = m.leaf("f32", [1], m.vals("f32", 1))
        n(m, "Expand", [o, t], "f32", bshape([1], val), mx=16)
    m.ts = [u for u in m.ts if u.ty != "i64"]


@idiom
def i_shape_reshape(m):
    """A reshape by a shape computed from the shape of the same tensor."""
    r = m.rng
    x = m.data("f32", m.shape(r.randint(2, 4), (1, 2, 3, 4)))
    s = n(m, "Shape", [x], "i64", [x.r], start=0, end=x.r, mx=8)
    k = r.randint(1, x.r - 1)
    head = slice_(m, s, 0, 0, k) if r.random() < .5 else concat(m, [n(m, "Gather", [s, m.ints([i], kind="const")], "i64", [1], "axis = 0 : si64", axis=0, mx=8)
                                                                    for i in range(k)], 0) if k > 1 else \
        n(m, "Gather", [s, m.ints([0], kind="const")], "i64", [1], "axis = 0 : si64", axis=0, mx=8)
    tail = og.factor(r, prod(x.sh[k:]), r.randint(1, 2))
    spell = list(tail)
    if r.random() < .6:
        spell[r.randrange(len(spell))] = -1
    c = m.leaf("i64", [len(spell)], spell, "const")
    t = concat(m, [head, c], 0)
    y = n(m, "Reshape", [x, t], "f32", x.sh[:k] + tail, allowzero=0, mx=x.mx)
    if r.random() < .4:
        u = n(m, "Shape", [y], "i64", [y.r], start=0, end=y.r, mx=8)
        n(m, "Gather", [u, m.ints([r.randrange(y.r)], kind="const")], "i64", [1], "axis = 0 : si64", axis=0, mx=8)
    m.ts = [v for v in m.ts if v.ty != "i64"]


@idiom
def i_dims(m):
    """Dimensions of transposed and reshaped tensors."""
    r = m.rng
    x = m.data("f32", m.shape(r.randint(2, 4)))
    y = tr(m, x, perm(r, x.r)) if r.random() < .5 else reshape(m, x, *(lambda f: (f, [0 if i < x.r and v == x.sh[i] and r.random() < .5 else v for i, v in enumerate(f)]))(og.factor(r, prod(x.sh), r.randint(1, 3))))
    n(m, "Shape", [y], "i64", [y.r], start=0, end=y.r, mx=8)
    n(m, "Size", [y], "i64", [], mx=72)


# ------------------------------------------------------------ element-wise fusion
@idiom
def i_fused(m):
    """Element-wise operations that follow each other, with broadcasting and several uses."""
    r = m.rng
    sh = m.shape(r.randint(1, 3), (1, 2, 3, 4)) if r.random() < .7 else r.choice([[2, 8], [17], [3, 16], [4, 9]])
    y = dat(m, sh)
    pool = [y]
    for _ in range(r.randint(2, 5)):
        c = r.random()
        a = r.choice(pool[-2:])
        if c < .4:
            y = n(m, r.choice(["Relu", "Neg", "Abs"]), [a], "f32", a.sh, mx=a.mx)
        elif c < .5 and not a.isap:
            y = n(m, r.choice(["Floor", "Ceil", "Round", "Sign"]), [a], "f32", a.sh, mx=a.mx + 4)
        elif c < .75:
            s = r.choice([[], sh, sh, sh[-1:], [1] * (len(sh) - 1) + sh[-1:]])
            b = dat(m, s, -2, 2)
            y = swap(m, r.choice(["Add", "Sub", "Mul"] if a.mx * 8 < 4000 else ["Add", "Sub"]), a, b)
        else:
            b = r.choice(pool)
            y = bop(m, r.choice(["Add", "Sub", "Max", "Min"]), a, b)
        pool.append(y)
    if r.random() < .4:
        ax = r.randrange(-y.r, y.r)
        m.node(r.choice(["ReduceSum", "ReduceMax"]), [y, m.ints([ax])], [("f32", [1 if i == ax % y.r else d for i, d in enumerate(y.sh)])],
               axes=[], keepdims=1, noop_with_empty_axes=0, mx=y.mx * 17)


def build(rng, name, **k):
    m = og.Model(rng, **k)
    I[name](m)
    m.op = name
    return m
