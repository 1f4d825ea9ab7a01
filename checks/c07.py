"""C07: instrumentation histories recorded from the C runtime, decided by Instrument.tla."""
import os, re, stat
import vf

NAMES = [f"op{i}" if i < 20 else f"node/with space.{i-20}" for i in range(60)]
NAMES[18] = "o" * 63
NAMES[38] = "n" * 511
NAMES[19], NAMES[39] = NAMES[0], NAMES[20]
NOTIME, NOMEM, NO, FILE = "ONNX_MLIR_NO_INSTRUMENT_TIME", "ONNX_MLIR_NO_INSTRUMENT_MEMORY", "ONNX_MLIR_NO_INSTRUMENT", "ONNX_MLIR_INSTRUMENT_FILE"


def parse(txt):
    out = []
    for line in txt.split("\n"):
        if not line:
            continue
        f = line.split(", ")
        if line == "==START-REPORT==":
            out.append(dict(k="S"))
        elif f[0] == "==COMPILE-INFO-REPORT==":
            out.append(dict(k="C", txt=", ".join(f[1:])))
        elif f[0] == "==PERF-REPORT==" and len(f) == 6 and all(re.fullmatch(r"-?\d+\.\d{6}", x) for x in f[4:]):
            us = [int(x.split(".")[0]) * 1000000 + int(x.split(".")[1]) for x in f[4:]]
            if any(abs(u) > 2**31 - 1 or u < 0 for u in us):
                out.append(dict(k="X", txt=line))
            else:
                out.append(dict(k="P", op=f[1], node=f[2], ph=f[3], a=us[0], b=us[1]))
        elif f[0] == "==MEM-REPORT==" and len(f) == 5 and f[4].strip().isdigit():
            out.append(dict(k="M", op=f[1], node=f[2], ph=f[3]))
        else:
            out.append(dict(k="X", txt=line[:80]))
    return out


class H:
    """A history that keeps its own account of nothing but what it sends."""

    def __init__(self):
        self.e, self.cuts = [], {}

    def env(self, var, val):
        self.e.append(dict(op="env", var=var, val=val))

    def init(self, info):
        self.e.append(dict(op="init", info=bool(info)))

    def point(self, o, n, bits, cuto=0, cutn=0):
        cut = lambda s, c: s[:len(s) - c] if c <= len(s) else ""
        self.e.append(dict(op="point", o=o, n=n, bits=bits, before=bool(bits & 1), time=bool(bits & 4), mem=bool(bits & 8),
                           init=bool(bits & 16), on=cut(NAMES[o], cuto), nn=cut(NAMES[n], cutn), cuto=cuto, cutn=cutn))

    def many(self, k):
        n = 20 + (k - 1) % 18
        self.e.append(dict(op="many", count=k, on=NAMES[0], nodes=NAMES[20:38], last=[0, n, 6]))

    def print(self):
        self.e.append(dict(op="print"))

    def getfile(self, f):
        self.e.append(dict(op="getfile", flag=bool(f)))


def cmd(e):
    return {"env": lambda: f"env {e['var']} {e['val']}", "init": lambda: f"init {int(e['info'])}",
            "point": lambda: f"point {e['o']} {e['n']} {e['bits']} {e['cuto']} {e['cutn']}", "many": lambda: f"many {e['count']}",
            "print": lambda: "print", "getfile": lambda: f"getfile {int(e['flag'])}"}[e["op"]]()


def run(ctx):
    exe = vf.build(ctx, "instr", [f"{vf.HARN}/instr_h.cpp", "src/Runtime/OMInstrument.c"])
    # a quick stand-in for ps, found first on PATH
    bind = os.path.join(ctx.work, "bin")
    os.makedirs(bind)
    with open(bind + "/ps", "w") as f:
        f.write("#!/bin/sh\necho ' 123456'\n")
    os.chmod(bind + "/ps", 0o755)
    rng = ctx.rng
    hs = []

    def settings(h):
        for v, p in ((NO, .08), (NOTIME, .15), (NOMEM, .15)):
            if rng.random() < p:
                h.env(v, rng.choice(["1", "0"]))
        h.env(FILE, rng.choice(["-", "A", "A", "B", "bad"]))
    # nesting trees of operations: before, children, after
    def tree(h, depth, kind, ops, first):
        o, n = rng.choice(ops)
        bits = kind if not isinstance(kind, list) else rng.choice(kind)
        cuts = h.cuts.setdefault((NAMES[o], NAMES[n]), rng.choice([(0, 0)] * 8 + [(1, 2), (63, 600)]))
        mode = rng.random()
        b = bits | (16 if first else 0)
        if mode < .85:
            h.point(o, n, b | 1, *cuts)
            if depth:
                for _ in range(rng.randint(0, 3)):
                    tree(h, depth - 1, kind, ops, False)
            h.point(o, n, bits | 2, *cuts)
        elif mode < .93:
            h.point(o, n, b | 1, *cuts)
        else:
            h.point(o, n, b | 2, *cuts)
    for i in range(220 if not ctx.thorough else 2500):
        h = H()
        for _ in range(rng.randint(1, 3)):
            settings(h)
            ops = [(rng.randrange(20), 20 + rng.randrange(20)) for _ in range(rng.choice([1, 2, 3, 8]))]
            kind = rng.choice([4, 4, 8, 12, [4, 4, 4, 8, 12, 0]])
            proto = rng.random() < .5
            for run_ in range(rng.choice([1, 1, 2])):
                if proto:
                    h.init(rng.random() < .7)
                if rng.random() < .1:
                    h.getfile(rng.random() < .5)
                tree(h, rng.choice([0, 1, 2]), kind, ops, not proto)
                for _ in range(rng.randint(0, 4)):
                    if rng.random() < .1:
                        h.getfile(rng.random() < .5)
                    if rng.random() < .1:
                        settings(h)          # must be ignored until the next initialisation
                    tree(h, rng.choice([0, 1]), kind, ops, False)
            h.print()
        hs.append(h)
    # around the capacity of the record buffer
    for k in (8190, 8191, 8192, 8193, 16385):
        h = H()
        h.env(FILE, rng.choice(["A", "-"]))
        h.init(True)
        h.many(k)
        h.point(3, 23, 5)
        h.point(4, 24, 5)
        h.point(4, 24, 6)
        h.point(3, 23, 6)
        h.print()
        h.init(False)
        h.point(1, 21, 5)
        h.print()
        hs.append(h)
    # many initialise/print cycles with a report file
    h = H()
    h.env(FILE, "A")
    for i in range(200):
        h.init(True)
        h.point(i % 5, 20 + i % 7, 5)
        h.point(i % 5, 20 + i % 7, 6)
        h.print()
    hs.append(h)

    def post(es):
        for e in es:
            for d in "sAB":
                e["obs"][d] = parse(e["obs"][d])
        return es
    # the operation reported as current survives a print: chain it
    hist = [h.e for h in hs]
    for h in hist:
        h.insert(0, dict(op="point", o=0, n=20, bits=0, before=False, time=False, mem=False, init=False, on=NAMES[0], nn=NAMES[20], cuto=0, cutn=0))
    for h in hist:
        h[0]["cur0"] = [0, 20, 0]
    vf.record_and_validate(ctx, exe, "Instrument", hist, cmd, args=[ctx.work], post=post,
                           env={"PATH": bind + ":" + os.environ["PATH"]},
                           what=lambda h, l: "; ".join(cmd(e) for e in h[max(0, l - 12):l - 1]) + " -> observed " + str(h[l - 2].get("obs"))[:600])
    ctx.assumptions.append("a run starts with an initialising point after each print, as compiled models do")
