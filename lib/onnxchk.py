"""Checks of compiled models: generate (onnxgen), compile and run (onnxrun,
harness/omc.cpp), decide with TLC (spec/OnnxRun.tla), reduce what fails."""
import collections
import copy
import json
import os
import random
import re
import time

import mlirc
import onnxgen as og
import onnxidiom as oi
import onnxrun as orun
import vf

# Operators whose shape depends on the values of their inputs.
DATADEP = {"NonZero", "Compress", "Unique"}


def compiler():
    return mlirc.build("omc", "omc.cpp")


def single(rng, op, **k):
    m = og.Model(rng, **k)
    og.G[op](m, op)
    m.op = op
    return m


def pruned(m, p, label):
    """Without the results that are used, most of the time."""
    used = {i for L in m.lines for i in L[1]}
    if m.rng.random() < p:
        m.outs = [t for t in m.outs if t.id not in used]
    m.op = label
    return m


def chain(rng, lo=2, hi=6, p=0.7, names=None, ends=0.8, idioms=0.1):
    m = og.Model(rng, chain=p)
    for _ in range(rng.randint(lo, hi)):
        if rng.random() < idioms:
            oi.I[rng.choice(list(oi.I))](m)
        else:
            op = rng.choice(names or list(og.G))
            og.G[op](m, op)
    return pruned(m, ends, "chain")


def idioms(rng, times):
    for k in oi.I:
        for _ in range(times):
            m = oi.build(rng, k)
            if m.ops:
                yield pruned(m, 0.7, k)


def ded(L):
    return [json.loads(x) for x in sorted(set(json.dumps(y, sort_keys=True) for y in L))]


def known_types(m, form):
    f = form.get("dyn"), form.get("const")
    if "dyn" in m.bar or "run" in m.bar:
        return 0
    return int(f[0] == "static" and f[1] in ("par", "all") and not DATADEP & set(m.ops))


def history(m, results, known=False):
    """The events of the model followed by everything its forms did."""
    runs, types, consts = [], [], []
    for f, _, _, r in results:
        runs += r["runs"]
        if r["types"] is not None:
            types.append(dict(t=r["types"], known=known_types(m, f) if known else 0))
        if r["consts"] is not None:
            consts.append(dict(out=r["consts"]))
    return m.ev + [dict(op="obs", outs=[t.id for t in m.outs], runs=ded(runs), types=ded(types), consts=ded(consts))]


def decide(ctx, hists):
    """Indexes of the histories TLC rejects."""
    live = list(range(len(hists)))
    cfg = "SPECIFICATION Spec\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
    for _ in range(6):
        p = os.path.join(ctx.work, f"run-{len(os.listdir(ctx.work))}.ndjson")
        with open(p, "w") as f:
            for i in live:
                f.write(json.dumps(hists[i]) + "\n")
        res = vf.tlc(ctx, "OnnxRun", cfg, env={"TRACE": p}, args=["-continue"], allow_fail=True, heap="12g", timeout=600)
        states = res.trace_states() if res.violated or res.rc else []
        if res.rc and not res.violated:
            # A model the specification cannot evaluate within TLC's integers is left out.
            h = [int(s["h"]) for s in states if "h" in s]
            if not h:
                raise vf.CheckError("TLC could not evaluate OnnxRun:\n" + res.tail(3000))
            vf.log(f"left out a model: {json.dumps(hists[live[h[-1] - 1]])[:300]}")
            ctx.add("models_not_evaluated")
            del live[h[-1] - 1]
            continue
        bad = {int(s["h"]) - 1 for s in states if s.get("ok") == "FALSE"}
        if res.violated and not bad:
            raise vf.CheckError("cannot read the rejection of OnnxRun:\n" + res.tail(3000))
        return {live[i] for i in bad}, set(live)
    raise vf.CheckError("too many models that TLC cannot evaluate")


def sub(m, o):
    """The model with the only output o."""
    ids = {o.id}
    for L in reversed(m.lines):
        if set(L[2]) & ids:
            ids |= set(L[1])
    c = copy.copy(m)
    c.outs = [o]
    c.lines = [L for L in m.lines if set(L[2]) & ids]
    c.leaves = [l for l in m.leaves if l[0] in ids]
    return c


def failed(m, r, tolerate):
    return r["stage"] != "done" and not tolerate(m, r)


def show(text, ins, r):
    L = [x.strip() for x in text if "onnx." in x and "NoValue" not in x and "EntryPoint" not in x]
    o = [f"{t['ty']}{t['sh']}={[a if a != orun.BAD else b / 1000 for a, b in zip(t['v'], t['w'])]}" for x in r["runs"][:1] for t in x["out"]]
    return (" ".join(L)[:900] + " | inputs " + " ".join(f"i{i}:{ty}{sh}={v}" for i, ty, sh, v in ins)[:400] +
            (f" | {r['stage']}: {r['msg'][:200]}" if r["stage"] != "done" else f" | gave {' '.join(o)[:400]}"))


def check(ctx, exe, jobs, label, times=1, known=False, stop=None, tolerate=lambda m, r: False, quiet=False):
    """jobs: list of (model, forms). Every form must compile and behave as the
    specification of the model says."""
    t = time.time()
    res = orun.run_models(exe, jobs, times=times, stop=stop)
    forms = sum(len(x) for x in res)
    vf.log(f"{label}: {len(jobs)} models, {forms} forms in {time.time() - t:.0f}s")
    for rr in res:
        for f, _, _, r in rr:
            r["nohybrid"] = "--onnx-hybrid-pass=false" in f.get("opts", ())
    hists = [history(m, rr, known) for (m, _), rr in zip(jobs, res)]
    bad, live = decide(ctx, hists)
    dead = {i for i, ((m, _), rr) in enumerate(zip(jobs, res)) if any(failed(m, r, tolerate) for *_, r in rr)}
    ctx.cov["traces_validated_against_impl"] += len(live - bad - dead)
    ctx.add("models", len(jobs))
    ctx.add("compiled_forms", forms)
    ctx.add("executions", sum(len(r["runs"]) for rr in res for *_, r in rr))
    if jobs:
        ctx.sample(dict(trace=json.dumps(hists[0])[:500]))
        ctx.sample(dict(model="\n".join(res[-1][-1][1])[:500]))
    wrong = sorted(bad | dead)
    if quiet:
        return wrong, res
    key = lambda m: getattr(m, "key", None)
    new = [i for i in wrong if key(jobs[i][0]) is None]
    for i in wrong:
        if i not in new:
            ctx.fail(f"{label}: {key(jobs[i][0])}", dict(history=hists[i]), key=key(jobs[i][0]))
    rejobs, inf = [], []
    for i in new[:8]:
        m = jobs[i][0]
        for o in m.outs:
            for f, _, _, r in res[i]:
                rejobs.append((sub(m, o), [f]))
                inf.append((i, o.id, f))
    told = set()
    if rejobs:
        wr, rres = check(ctx, exe, rejobs, label + " (reduced)", times, known, stop, tolerate, quiet=True)
        for j in wr:
            i, o, f = inf[j]
            _, text, ins, r = rres[j][0]
            if i in told:
                continue
            told.add(i)
            ctx.fail(f"{label}: form {({k: v for k, v in f.items() if k != 'seed'})}: {show(text, ins, r)}",
                     dict(mlir=text, inputs=ins, form=f, result=r, events=rejobs[j][0].ev))
    for i in new:
        if i in told:
            continue
        f, text, ins, r = next((x for x in res[i] if failed(jobs[i][0], x[3], tolerate)), res[i][0])
        ctx.fail(f"{label}: {jobs[i][0].op}: {show(text, ins, r)}",
                 dict(forms=[dict(form=f, mlir=tx, inputs=n, result=r) for f, tx, n, r in res[i]], events=jobs[i][0].ev))
    return wrong, res
