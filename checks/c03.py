"""C03: every recorded sort decided by RowOps.tla (SortOK)."""
import itertools
import vf
from rows import *


def cmd(e):
    return f"{e['fn']} {e['dt']} {J(e['shape'])} {e['hex']} {e['asc']}"


def run(ctx):
    x = exe(ctx)
    ev = []

    def add(dt, shape, idx, enc, asc, fn="sort"):
        ev.append(dict(op="sort", fn=fn, dt=dt, shape=shape, hex=enc.pack(idx), asc=asc,
                       rows=rows_of(enc.keys(idx), shape[-1])))
    for dt in DTYPES:
        enc = Enc(dt, ctx.rng)
        # all rows of length <= 4 over 3 values (5 over 2), all directions
        for n in range(1, 5 if not ctx.thorough else 6):
            dom = enc.domain(3)
            for v in itertools.product(dom, repeat=n):
                for asc in (0, 1):
                    add(dt, [n], list(v), enc, asc, ctx.rng.choice(["sort", "sort", "qsortc"]))
        # every ordered pair of table values is compared the right way round
        for a, b in itertools.permutations(range(len(enc.t)), 2):
            if ctx.rng.random() < (0.5 if not ctx.thorough else 1):
                add(dt, [2], [a, b], enc, ctx.rng.randint(0, 1))
        for _ in range(60 if not ctx.thorough else 600):
            rank = ctx.rng.randint(1, 6)
            shape = [ctx.rng.choice([1, 1, 2, 3]) for _ in range(rank - 1)] + [ctx.rng.choice([0, 1, 2, 3, 5, 8, 17, 40])]
            if ctx.rng.random() < 0.05:
                shape[ctx.rng.randrange(rank)] = 0
            t = 1
            for d in shape:
                t *= d
            if t > 400:
                continue
            dom = enc.domain(ctx.rng.choice([2, 4, 30]))
            idx = [ctx.rng.choice(dom) for _ in range(t)]
            style = ctx.rng.random()
            if style < 0.15:
                idx.sort()
            elif style < 0.3:
                idx.sort(reverse=True)
            add(dt, shape, idx, enc, ctx.rng.randint(0, 1), ctx.rng.choice(["sort", "sort", "sort", "qsortc"]))
            if t == 0:
                ev[-1]["rows"] = []
        # rows beyond the small-size shortcuts of the library sort
        for n in ([100, 300] if not ctx.thorough else [100, 300, 1000]):
            dom = enc.domain(6)
            add(dt, [n], [ctx.rng.choice(dom) for _ in range(n)], enc, ctx.rng.randint(0, 1))
            add(dt, [n], [ctx.rng.choice(dom) for _ in range(n)], enc, ctx.rng.randint(0, 1), "qsortc")
    vf.record_and_validate(ctx, x, "RowOps", group(ev), cmd)
    ctx.assumptions.append("no NaN among the values (their order is undefined); index rows start as the identity, as the compiler generates them")
