"""C26: the types the compiler infers admit what the model computes."""
import onnxchk as oc
import onnxgen as og


def run(ctx):
    exe = oc.compiler()
    r = ctx.rng
    jobs = []
    for op in og.G:
        for k in range(200 if ctx.thorough else 30):
            m = oc.single(r, op)
            jobs.append((m, [dict(dyn="static", const="par", seed=r.random()),
                             dict(dyn="some", const="none", parconst=r.random() < .5, seed=r.random()),
                             dict(dyn="dynamic", const="some", seed=r.random())]))
    for k in range(6000 if ctx.thorough else 1000):
        m = oc.chain(r)
        jobs.append((m, [dict(dyn="static", const="par", seed=r.random()),
                         dict(dyn="some", const="some", seed=r.random())]))
    for m in oc.idioms(r, 100 if ctx.thorough else 15):
        jobs.append((m, [dict(dyn="static", const="par", seed=r.random()),
                         dict(dyn="some", const="none", parconst=r.random() < .7, seed=r.random()),
                         dict(dyn="dynamic", const="none", parconst=r.random() < .7, seed=r.random())]))
    oc.check(ctx, exe, jobs, "types", known=True, stop="types")
