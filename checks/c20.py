"""C20: recorded option selections decided by RegexOption.tla."""
import itertools
import vf


def hx(s):
    return s.encode().hex() or "-"


def cmd(e):
    if e["op"] == "new":
        return f"new {e['deflt']} {e['empty']} {hx(''.join(e['s']))}"
    if e["op"] == "set":
        return "set " + hx("".join(e["s"]))
    return "ask " + " ".join(hx("".join(n)) for n in e["names"])


def run(ctx):
    exe = vf.build(ctx, "regex", [f"{vf.HARN}/regex_h.cpp", "src/Compiler/OptionUtils.cpp"], cxxflags=vf.MLIR_CXX, ldflags=vf.MLIR_LINK, san=False)
    rng = ctx.rng

    def new(s, empty=0):
        return dict(op="new", s=list(s), empty=empty, deflt=int(not s and rng.random() < .5))

    def ask(ns):
        return dict(op="ask", names=[list(n) for n in ns])
    hs = []
    # every short glob against every short name
    names = ["".join(t) for k in range(0, 5 if ctx.thorough else 4) for t in itertools.product("ab.", repeat=k)]
    for k in range(0, 5 if ctx.thorough else 4):
        for t in itertools.product("a.*,", repeat=k):
            s = "".join(t)
            if ".*" in s and any(e.startswith("*") or "**" in e for e in s.split(",")):
                continue        # no regular expression
            hs.append([new(s, rng.randint(0, 1)), ask(rng.sample(names, len(names)))])
    # every short regular expression against every short name
    toks = ["a", "b", ".", "\\.", "[ab]", "a*", ".*", "b+", "a?", ".?", "[b.]+"]
    for k in range(1, 4 if ctx.thorough else 3):
        for t in itertools.product(toks, repeat=k):
            s = "".join(t)
            if rng.random() < .2:
                s = "^" + s
            if rng.random() < .2:
                s += "$"
            hs.append([new(s, rng.randint(0, 1)), ask(rng.sample(names, min(60, len(names))))])
    # realistic lists, asked in different orders, some set late
    ops = ["onnx.Add", "onnx.AddN", "onnx.MatMul", "onnx.MatMulInteger", "zhigh.MatMul", "onnxAdd", "onnx.Conv", "krnl.call", "/model/CALL_0", "/model/NONEXT", "a.ALL", "SMALL",
           "layer.1.mm", "layer.12.mm", "layer-1-mm", "", "onnx.", "ALL", "NONE", "onnx.Add.x"]
    ents = ["onnx.*", "onnx.Add", "*MatMul*", "onnx.Add*", "*.MatMul", "onnx.MatMul", "/model/CALL_0", "/model/NONEXT", "ALL", "NONE", "*", "layer.1.mm", "layer.1*", "krnl.call", "SMALL", "a.ALL*",
            "layer\\.1\\..*", "^onnx\\.(Add)?$".replace("(Add)?", "Ad?d"), "onnx.A[dD]+", ".*Mul", "*Mul", "onnx.?Add", "*l*l*"]
    for _ in range(400 if not ctx.thorough else 4000):
        es = rng.sample(ents, rng.choice([1, 1, 2, 3]))
        if "ALL" in es and "NONE" in es:
            es.remove("ALL")
        s = rng.choice([",", ",", " ", ", ", ",,"]).join(es)
        if rng.random() < .1:
            s = rng.choice(["", ",", " ", s + ",", "," + s])
        if any("*" == e[:1] for e in es) and any(c in s for c in ("^", "$", "[", "+", "?", "\\.")) or ".*" in s and any(e.startswith("*") for e in es):
            continue        # a leading * is no regular expression
        h = [new(s, rng.randint(0, 1))]
        if rng.random() < .3:
            h = [new(rng.choice(["", "x", "ALL", "NONE"]), rng.randint(0, 1)), dict(op="set", s=list(s))]
        for _ in range(rng.randint(1, 4)):
            near = rng.choice(ops)      # a name, its prefixes, suffixes and other spellings, interleaved
            fam = [near[:i] for i in range(len(near) + 1)] + [near[i:] for i in range(len(near))] + [near.lower(), near.upper(), near + "x", near + near[-1:], " " + near]
            h.append(ask(rng.choices(ops, k=rng.randint(1, 12)) + rng.sample(fam, rng.randint(0, len(fam)))))
        hs.append(h)
    vf.record_and_validate(ctx, exe, "RegexOption", hs, cmd, what=lambda h, l: "; ".join(f"{e['op']} '{''.join(e.get('s', []))}' {[''.join(n) for n in e.get('names', [])]} {e.get('obs')}" for e in h)[:1200])
    ctx.assumptions.append("regular expressions of literals, escapes, '.', positive classes, * + ? and anchors; lists holding both ALL and NONE are excluded (asserted)")
