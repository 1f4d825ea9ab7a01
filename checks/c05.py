"""C05: every recorded Unique decided by RowOps.tla (UniqueOK)."""
import itertools
import vf
from rows import *

UTYPES = [9, 2, 3, 4, 5, 12, 6, 13, 7, 1, 11]


def cmd(e):
    return f"unique {e['dt']} {J(e['shape'])} {e['hex']} {e['axis']} {e['sorted']} {e['my']} {e['mi']} {e['mv']} {e['mc']}"


def run(ctx):
    x = exe(ctx)
    ev = []
    encs = {dt: Enc(dt, ctx.rng) for dt in UTYPES}

    def add(dt, shape, idx, axis, srt, mask=None, enc=None):
        enc = enc or encs[dt]
        m = mask if mask is not None else ctx.rng.choice([(1, 1, 1, 1)] * 4 + list(itertools.product((0, 1), repeat=4)))
        e = dict(op="unique", dt=dt, shape=shape, hex=enc.pack(idx), d=enc.keys(idx), axis=axis, sorted=srt,
                 my=m[0], mi=m[1], mv=m[2], mc=m[3])
        ev.append(e)
    for dt in UTYPES:
        enc = encs[dt]
        for n in range(1, 5 if not ctx.thorough else 6):
            dom = enc.domain(3)
            for v in itertools.product(dom, repeat=n):
                add(dt, [n], list(v), ctx.rng.choice([-1, 0]), ctx.rng.randint(0, 1))
        # rank 2 and 3 over two values: every tensor, every axis
        for shape in ([2, 2], [3, 2], [2, 3], [2, 2, 2]):
            t = 1
            for d in shape:
                t *= d
            dom = enc.domain(2)
            for v in itertools.product(dom, repeat=t):
                if t >= 6 and not ctx.thorough and ctx.rng.random() > 0.25:
                    continue
                add(dt, shape, list(v), ctx.rng.randint(-1, len(shape) - 1), ctx.rng.randint(0, 1))
        # every subset of outputs, every axis
        for shape in ([4], [3, 2], [2, 3, 2], [1, 2, 2, 3]):
            for axis in range(-1, len(shape)):
                for m in itertools.product((0, 1), repeat=4):
                    t = 1
                    for d in shape:
                        t *= d
                    dom = enc.domain(2)
                    if ctx.rng.random() < 0.3 or dt in (1, 7) or ctx.thorough:
                        add(dt, shape, [ctx.rng.choice(dom) for _ in range(t)], axis, ctx.rng.randint(0, 1), m)
        for _ in range(60 if not ctx.thorough else 600):
            rank = ctx.rng.randint(1, 6)
            shape = [ctx.rng.choice([1, 1, 2, 3, 4]) for _ in range(rank)]
            if ctx.rng.random() < 0.1:
                shape[ctx.rng.randrange(rank)] = 0
            t = 1
            for d in shape:
                t *= d
            if t > 200:
                continue
            axis = ctx.rng.randint(-1, rank - 1)
            dom = enc.domain(ctx.rng.choice([1, 2, 5, 30]))
            # repeat whole slices so that duplicates exist along the axis
            idx = [ctx.rng.choice(dom) for _ in range(t)]
            add(dt, shape, idx, axis, ctx.rng.randint(0, 1))
    encs2 = {dt: Enc(dt, ctx.rng) for dt in UTYPES}

    def post(h):
        for e in h:
            if "yhex" in e["obs"]:
                e["obs"]["y"] = encs2[e["dt"]].unpack(e["obs"]["yhex"])
        return h
    vf.record_and_validate(ctx, x, "RowOps", group(ev), cmd, post=post)
    ctx.assumptions.append("no NaN among the values")
