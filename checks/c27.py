"""C27: what is known at compile time may be computed then, with the same result."""
import onnxchk as oc
import onnxgen as og


def run(ctx):
    exe = oc.compiler()
    r = ctx.rng
    jobs = []
    for op in og.G:
        for k in range(100 if ctx.thorough else 12):
            m = oc.single(r, op)
            jobs.append((m, [dict(dyn="static", const="all", seed=r.random()),
                             dict(dyn=r.choice(["static", "some"]), const="some", seed=r.random())]))
    for k in range(8000 if ctx.thorough else 900):
        m = oc.chain(r)
        jobs.append((m, [dict(dyn="static", const="all", seed=r.random()),
                         dict(dyn="some", const="some", seed=r.random()),
                         dict(dyn="static", const="some", seed=r.random(), opts=("--O3",))]))
    for m in oc.idioms(r, 80 if ctx.thorough else 8):
        jobs.append((m, [dict(dyn="static", const="all", seed=r.random()),
                         dict(dyn=r.choice(["static", "some"]), const="some", seed=r.random())]))
    r.shuffle(jobs)
    oc.check(ctx, exe, jobs, "constants")
