"""C28: neither the options nor how much of the shapes is known change what a model computes."""
import onnxchk as oc
import onnxgen as og
import onnxknown as ok

OPTS = ["--disable-krnl-op-fusion", "--disable-simd", "--onnx-hybrid-pass=false", "--disable-recompose",
        "--enable-conv-opt-pass=false", "--disable-fused-op", "--disable-conv-to-matmul",
        "--disable-memref-prefetch", "--enable-safe-code-gen", "--disable-eliminate-write-only-alloc"]


def options(r):
    return (f"--O{r.randint(0, 3)}", *(x for x in OPTS if r.random() < .12))


def tolerate(m, r):
    # Without the hybrid pass some operators are left that the lowering refuses.
    return r["stage"] == "compile" and "failed to legalize operation 'onnx." in r["msg"] and r.get("nohybrid")


def run(ctx):
    exe = oc.compiler()
    r = ctx.rng
    jobs = []
    # few sets of options per run, so that each process of the compiler serves many models
    sets = [options(r) for _ in range(60 if ctx.thorough else 14)]
    for k in range(14000 if ctx.thorough else 1700):
        m = oc.chain(r, 2, 8)
        jobs.append((m, [dict(dyn=d, const=r.choice(["none", "none", "some", "par"]), parconst=r.random() < .5,
                              seed=r.random(), opts=r.choice(sets)) for d in ("static", "dynamic", "some")]))
    for m in oc.idioms(r, 140 if ctx.thorough else 16):
        jobs.append((m, [dict(dyn=d, const=r.choice(["none", "none", "some", "par"]), parconst=r.random() < .7,
                              seed=r.random(), opts=r.choice(sets)) for d in ("static", "dynamic", "some")]))
    r.shuffle(jobs)
    oc.check(ctx, exe, jobs, "options", tolerate=tolerate)
    oc.check(ctx, exe, list(ok.known("C28")), "recorded")
