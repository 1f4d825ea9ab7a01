"""C04: every recorded TopK decided by RowOps.tla (TopKOK)."""
import itertools
import vf
from rows import *


def cmd(e):
    return f"topk {e['dt']} {J(e['shape'])} {e['hex']} {e['asc']} {e['k']} {e['sorted']}"


def run(ctx):
    x = exe(ctx)
    ev = []

    def add(dt, shape, idx, enc, asc, k, srt):
        ev.append(dict(op="topk", dt=dt, shape=shape, hex=enc.pack(idx), asc=asc, k=k, sorted=srt,
                       rows=rows_of(enc.keys(idx), shape[-1])))
    # exhaustive rows over 3 values for one representative type, sampled for the others
    for dt in DTYPES:
        enc = Enc(dt, ctx.rng)
        full = dt in (1, 7) or ctx.thorough
        for n in range(1, 6):
            dom = enc.domain(3)
            for v in itertools.product(dom, repeat=n):
                if not full and ctx.rng.random() > 0.15:
                    continue
                for k in range(0, n + 1):
                    add(dt, [n], list(v), enc, ctx.rng.randint(0, 1), k, ctx.rng.randint(0, 1))
        # permutations of distinct values: every heap shape
        dom = enc.domain(6)
        if len(dom) == 6:
            for v in itertools.permutations(dom):
                if ctx.thorough or ctx.rng.random() < 0.3:
                    add(dt, [6], list(v), enc, ctx.rng.randint(0, 1), ctx.rng.randint(1, 5), ctx.rng.randint(0, 1))
        for _ in range(80 if not ctx.thorough else 800):
            rank = ctx.rng.randint(1, 6)
            n = ctx.rng.choice([1, 2, 5, 7, 9, 10, 11, 20, 40])
            shape = [ctx.rng.choice([1, 1, 2, 3]) for _ in range(rank - 1)] + [n]
            t = 1
            for d in shape:
                t *= d
            if t > 400:
                continue
            dom = enc.domain(ctx.rng.choice([2, 4, 8, 30]))
            idx = [ctx.rng.choice(dom) for _ in range(t)]
            if ctx.rng.random() < 0.2:
                idx.sort(reverse=ctx.rng.random() < 0.5)
            k = ctx.rng.choice([0, 1, 2, n // 2, int(n * 0.9) - 1, int(n * 0.9), n - 1, n, ctx.rng.randint(0, n)])
            add(dt, shape, idx, enc, ctx.rng.randint(0, 1), min(max(k, 0), n), ctx.rng.randint(0, 1))
        for n in (100, 200):
            dom = enc.domain(8)
            add(dt, [n], [ctx.rng.choice(dom) for _ in range(n)], enc, ctx.rng.randint(0, 1), ctx.rng.randint(1, n - 15), 1)
    vf.record_and_validate(ctx, x, "RowOps", group(ev), cmd)
    ctx.assumptions.append("no NaN among the values; index rows start as the identity, as the compiler generates them")
