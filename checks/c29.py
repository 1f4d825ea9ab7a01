"""C29: If, Loop and Scan run their bodies as ONNX says."""
import onnxchk as oc
import onnxctl as ol
import onnxknown as ok

FORMS = [dict(dyn="static", const="none", opts=("--O0",)), dict(dyn="dynamic", const="par", opts=("--O3",)),
         dict(dyn="some", const="some", opts=("--O2",)), dict(dyn="static", const="all", opts=("--O3",))]


def beyond(m, r):
    # Results collected from a varying number of iterations need a pass that is
    # not enabled, and moving loops fails on some bodies (known_findings.jsonl).
    return ("krnl.seqstore" in r["msg"] or "LoopBodyMover::moveOne" in r["msg"] and "Expecting insertPt" in r["msg"] or
            "ConvertKrnlToAffinePass" in r["msg"] and "opsToErase.empty()" in r["msg"])


def uncompiled(m, r):
    # Bodies in bodies, and some operators in bodies, that the compiler gives up on.
    return r["stage"] != "run"


def run(ctx):
    exe = oc.compiler()
    r = ctx.rng
    jobs, wide = [], []
    for op in ol.C:
        for _ in range(1000 if ctx.thorough else 90):
            jobs.append((ol.model(r, op), [dict(f, seed=r.random()) for f in FORMS]))
        for _ in range(500 if ctx.thorough else 30):
            wide.append((ol.model(r, op, nest=2), [dict(f, seed=r.random()) for f in FORMS[:2]]))
    for _ in range(600 if ctx.thorough else 40):      # several of them in one model
        jobs.append((ol.model(r), [dict(f, seed=r.random()) for f in FORMS]))
    oc.check(ctx, exe, jobs, "control", times=2, tolerate=beyond)
    oc.check(ctx, exe, wide, "nested", tolerate=uncompiled)
    oc.check(ctx, exe, list(ok.known("C29")), "recorded")
