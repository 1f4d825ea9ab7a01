"""The genuine defects of the compiled models that are recorded rather than
repaired (DESIGN.md section 3): one model each, with the forms that fail.
known(pid) yields (key, model, forms)."""
import random

import onnxctl as ol
import onnxgen as og

RUN = dict(dyn="static", const="none", parconst=False, seed=1)
DYN = dict(dyn="dynamic", const="none", parconst=True, seed=1)
K = []


def finding(pid, key, *forms):
    def d(f):
        K.append((pid, key, f, forms or (RUN,)))
        return f
    return d


def F(*v):
    return [4 * x for x in v]


@finding("C25", "mvn-zero-variance")
def _(m):
    x = m.leaf("f32", [1, 1, 2, 2], F(3, 3, 3, 3))
    m.node("MeanVarianceNormalization", [x], [("f32", None)], attrs="axes = [0, 2, 3]", axes=[0, 2, 3])


def arg(op):
    def f(m):
        x = m.leaf("i64", [3], [2, 2, 2])
        m.node(op, [x], [("i64", [1])], attrs="axis = 0 : si64, select_last_index = 1 : si64", axis=0, keepdims=1, select_last_index=1)
    return f


finding("C25", "argmax-last-index")(arg("ArgMax"))
finding("C25", "argmin-last-index")(arg("ArgMin"))


@finding("C25", "nonzero-rank-2")
def _(m):
    x = m.leaf("i1", [3, 3], [1, 0, 0, 1, 0, 1, 1, 0, 1])
    m.node("NonZero", [x], [("i64", None)])


@finding("C25", "space-to-depth-channels")
def _(m):
    x = m.leaf("f32", [1, 2, 2, 2], F(0, 1, 2, 3, 4, 5, 6, 7))
    m.node("SpaceToDepth", [x], [("f32", [1, 8, 1, 1])], attrs="blocksize = 2 : si64", blocksize=2, mode="DCR")


def pool(m, sh, **w):
    x = m.leaf("f32", sh, F(*range(1, og.prod(sh) + 1)))
    a = [f"{k} = {og.ia(w[k])}" for k in ("kernel_shape", "pads", "strides", "dilations")] + [f"ceil_mode = {og.si(w['ceil_mode'])}"]
    m.node("MaxPool", [x], [("f32", None)], mlir="onnx.MaxPoolSingleOut", attrs=a, auto_pad="NOTSET", count_include_pad=0, **w)


finding("C25", "pool-unequal-dilations")(lambda m: pool(
    m, [1, 1, 4, 4], kernel_shape=[2, 2], pads=[0, 0, 0, 0], strides=[1, 1], dilations=[1, 2], ceil_mode=0))
finding("C25", "pool-dilated-ceil-mode")(lambda m: pool(
    m, [1, 1, 4], kernel_shape=[2], pads=[0, 0], strides=[2], dilations=[2], ceil_mode=1))
finding("C25", "pool-dilated-padding")(lambda m: pool(
    m, [1, 1, 5], kernel_shape=[2], pads=[1, 0], strides=[1], dilations=[2], ceil_mode=0))


@finding("C25", "scatternd-negative-index")
def _(m):
    x, i, u = m.leaf("f32", [3], F(1, 2, 3)), m.leaf("i64", [1, 1], [-1]), m.leaf("f32", [1], F(9))
    m.fixed.add(i.id)
    m.node("ScatterND", [x, i, u], [("f32", [3])])


@finding("C25", "scatternd-depth")
def _(m):
    x, i, u = m.leaf("f32", [2, 3], F(1, 2, 3, 4, 5, 6)), m.leaf("i64", [1, 1], [1]), m.leaf("f32", [1, 3], F(7, 8, 9))
    i2 = m.leaf("i64", [2], [1, 2])
    m.fixed |= {i.id, i2.id}
    y, = m.node("ScatterND", [x, i, u], [("f32", [2, 3])])
    m.node("ScatterND", [x, i2, m.leaf("f32", [], F(7))], [("f32", [2, 3])])


@finding("C25", "gathernd-negative-index")
def _(m):
    x, i = m.leaf("f32", [3], F(1, 2, 3)), m.leaf("i64", [1, 1], [-1])
    m.fixed.add(i.id)
    m.node("GatherND", [x, i], [("f32", [1])], batch_dims=0)


def pad(m, mode, sh, lo, hi):
    x = m.leaf("f32", sh, F(*range(1, og.prod(sh) + 1)))
    m.node("Pad", [x, m.ints(lo + hi), None, None], [("f32", [d + a + b for d, a, b in zip(sh, lo, hi)])],
           attrs=f'mode = "{mode}"', mode=mode)


finding("C25", "pad-wrap", dict(RUN, parconst=True))(lambda m: pad(m, "wrap", [3], [1], [1]))
finding("C25", "pad-negative", RUN)(lambda m: pad(m, "constant", [4], [-1], [0]))


@finding("C25", "group-normalization-channels")
def _(m):
    x = m.leaf("f32", [1, 2, 2, 1], F(1, 2, 3, 5))
    m.node("GroupNormalization", [x, m.leaf("f32", [2], F(1, 2)), m.leaf("f32", [2], F(0, 1))], [("f32", None)],
           attrs="num_groups = 1 : si64", num_groups=1)


@finding("C25", "split-uneven-dynamic", DYN)
def _(m):
    x = m.leaf("f32", [5], F(1, 2, 3, 4, 5))
    m.node("Split", [x, None], [("f32", [3]), ("f32", [2])], attrs="num_outputs = 2 : si64", axis=0, num_outputs=2)


@finding("C25", "split-sizes-not-constant")
def _(m):
    x = m.leaf("f32", [3], F(1, 2, 3))
    m.node("Split", [x, m.ints([1, 2])], [("f32", [1]), ("f32", [2])], axis=0, num_outputs=2)


@finding("C25", "squeeze-all-dynamic", DYN)
def _(m):
    x = m.leaf("f32", [1, 2], F(1, 2))
    m.node("Squeeze", [x, None], [("f32", [2])], axes=[])


@finding("C25", "matmul-batch-one", DYN)
def _(m):
    x, y = m.leaf("f32", [1, 1, 2], F(1, 2)), m.leaf("f32", [2, 2, 1], F(1, 2, 3, 4))
    m.node("MatMul", [x, y], [("f32", [2, 1, 1])])


@finding("C28", "fused-broadcast-last-dimension", DYN)
def _(m):
    x, y = m.leaf("f32", [2, 2], F(1, 2, 3, 4)), m.leaf("f32", [2, 1], F(5, 6))
    m.fixed.add(x.id)
    a, = m.node("Mul", [x, x], [("f32", [2, 2])])
    m.outs = []
    m.node("Add", [a, y], [("f32", [2, 2])])
    m.fixed.discard(y.id)


@finding("C28", "buffer-reuse-input", dict(RUN, opts=("--disable-krnl-op-fusion", "--enable-krnl-buffer-reuse", "--disable-simd")))
def _(m):
    x, y = m.leaf("f32", [4], F(1, 2, 3, 4)), m.leaf("f32", [4], F(5, 6, 7, 8))
    m.node("Add", [x, y], [("f32", [4])])


@finding("C28", "qlinearmatmul-saturation")
def _(m):
    def q(ty, v):
        return m.leaf(ty, [], [v], "const")
    a, b = m.leaf("i8", [1, 2], [8, 8]), m.leaf("i8", [2, 1], [-1, -2])
    m.fixed |= {a.id, b.id}
    A, = m.node("DequantizeLinear", [a, q("f32", 8), q("i8", 0)], [("f32", [1, 2])])
    B, = m.node("DequantizeLinear", [b, q("f32", 4), q("i8", 3)], [("f32", [2, 1])])
    y, = m.node("MatMul", [A, B], [("f32", [1, 1])])
    m.outs = []
    m.node("QuantizeLinear", [y, q("f32", 4), q("i8", 2)], [("i8", [1, 1])], ty="i8")


def looped(op, inputs, res, **w):
    """The operator alone in the body of a Loop that collects its result."""
    def f(m):
        M, C = m.leaf("i64", [], [1], "data"), m.leaf("i1", [], [1], "const")
        v = m.leaf("f32", [2], F(1, 2))
        b = ol.Body(m, [("i64", [], 10), ("i1", [], 1), ("f32", [2], 350)])
        t = b.node(op, [b.leaf(*x, "const") for x in inputs], [res], **w)[0]
        ret = [b.args[1], b.args[2], t]

        def emit(ty, form, rng, ids, outs):
            g = ["tensor<i64>", "tensor<i1>", "tensor<*xf32>"]
            return "\n".join([ol.head(outs, "Loop", [M, C, v]) + " ({"] + b.text(ret, ty, form, rng, g) +
                             [ol.tail([M, C, v], ty, outs, ["f32", t.ty])])
        ol.put(m, dict(op="Loop", body=b.ev, ret=[x.id for x in ret], scans=[dict(ty=t.ty, sh=t.sh)]),
               [M, C, v], [(b, ret)], [("f32", [2], 350), (t.ty, [1] + t.sh, 400)], emit)
    return f


finding("C29", "loop-cumsum")(looped("CumSum", [("f32", [2], F(1, 2)), ("i32", [], [0])], ("f32", [2]),
                                     attrs="exclusive = 0 : si64, reverse = 0 : si64", exclusive=0, reverse=0))
finding("C29", "loop-onehot")(looped("OneHot", [("i64", [2], [0, 1]), ("i32", [], [2]), ("i64", [2], [5, 7])], ("i64", [2, 2]),
                                     attrs="axis = -1 : si64", axis=-1))


@finding("C29", "scan-transpose")
def _(m):
    x, v = m.leaf("i32", [2, 4], [1, 2, 3, 4, 5, 6, 7, 8]), m.leaf("f32", [4], F(1, 2, 3, 4))
    b = ol.Body(m, [("f32", [], 100)])
    ret = [b.args[0], b.node("Transpose", [x], [("i32", [4, 2])], attrs="perm = [1, 0]", perm=[1, 0])[0]]

    def emit(ty, form, rng, ids, outs):
        return "\n".join([ol.head(outs, "Scan", [v]) + " ({"] + b.text(ret, ty, form, rng, ["tensor<*xf32>"]) +
                         [ol.tail([v], ty, outs, ["f32", "i32"], " {num_scan_inputs = 1 : si64}")])
    o = ol.put(m, dict(op="Scan", body=b.ev, ret=[t.id for t in ret], num_scan_inputs=1,
                       scans=[dict(ty="f32", sh=[]), dict(ty="i32", sh=[4, 2])]),
               [v], [(b, ret)], [("f32", [4], 100), ("i32", [4, 4, 2], 10)], emit)
    m.outs = [t for t in m.outs if t is o[0]]


def known(pid):
    for p, key, f, forms in K:
        if p == pid:
            m = og.Model(random.Random(1))
            f(m)
            m.op, m.key = "known", key
            yield m, list(forms)
