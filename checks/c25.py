"""C25: the compiled code of every operator computes what ONNX says."""
import onnxchk as oc
import onnxgen as og
import onnxknown as ok


def run(ctx):
    exe = oc.compiler()
    r = ctx.rng
    jobs = []
    for op in og.G:
        for k in range(120 if ctx.thorough else 16):
            m = oc.single(r, op)
            o = "--O0" if k % 2 else "--O3"
            p = "--O3" if k % 2 else "--O0"
            jobs.append((m, [dict(dyn="static", const="none", seed=r.random(), opts=(o,)),
                             dict(dyn="dynamic" if k % 4 else "some", const="none", parconst=r.random() < .5, seed=r.random(), opts=(p,))]))
    for m in oc.idioms(r, 40 if ctx.thorough else 6):
        jobs.append((m, [dict(dyn="static", const="none", parconst=True, seed=r.random(), opts=("--O3",)),
                         dict(dyn="dynamic", const="none", parconst=r.random() < .7, seed=r.random(), opts=("--O0",))]))
    r.shuffle(jobs)
    oc.check(ctx, exe, jobs, "operator", times=2)
    # what is recorded in known_findings.jsonl
    oc.check(ctx, exe, list(ok.known("C25")), "recorded")
