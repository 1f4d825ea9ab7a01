"""C13: recorded Resize calls decided by Resize.tla (exact rational arithmetic)."""
import itertools
import vf

C = lambda v: ",".join(map(str, v))


def cmd(e):
    return f"{e['op']} {e['mode']} {C(e['sh'])} {C(e['out'])} {C(e['num'])} {C(e['den'])} {C(e['d'])}"


def weight(mode, n, d):
    if n == d:
        return 1
    return {"linear": 2 * n, "nearest": 1, "cubic": 4 * (2 * n) ** 3}[mode]


def run(ctx):
    exe = vf.build(ctx, "resize", [f"{vf.HARN}/resize_h.cpp"] + [f"src/Runtime/{f}.c" for f in ("OMResize", "OMTensor", "OMInstrument", "OnnxDataType")] + ["src/Support/SmallFPConversion.c"])
    rng = ctx.rng
    ev = []

    def add(op, mode, sh, fac, big=20):
        num, den = [f[0] for f in fac], [f[1] for f in fac]
        out = [s * n // d for s, n, d in zip(sh, num, den)]
        if 0 in out or any((s * n) % d for s, n, d in zip(sh, num, den)):
            return
        tot = 1
        for n, d in zip(num, den):
            tot *= weight(mode, n, d)
        if tot * big * 4 > 2**31 - 1:
            return
        n = 1
        for s in sh:
            n *= s
        pw2 = all(n & (n - 1) == 0 and d & (d - 1) == 0 for n, d in zip(num, den))
        if mode == "nearest" and not pw2:
            return          # the choice at a tie depends on the rounding of the factor
        # exact when every intermediate fits 24 bits, else a float tolerance
        tol = 0 if pw2 and tot * big * 4 < 2**24 else max(2, int(tot * big * 2e-5))
        if tol * 50 > tot * big and tol > 2:
            return
        ev.append(dict(op=op, mode=mode, sh=list(sh), num=num, den=den, out=out, total=tot, tol=tol, d=[rng.randint(-big, big) for _ in range(n)]))
    one = (1, 1)
    facs = [(1, 2), (2, 1), (4, 1), (1, 4), (3, 1), (1, 3), (3, 2), (2, 3), (8, 1), (5, 2), (5, 4)]
    for mode in ("linear", "cubic", "nearest"):
        for op in ("scales", "size"):
            for n in range(1, 7):
                for f in facs:
                    for axis in range(4):
                        sh, fc = [1, 1, 1, 1], [one] * 4
                        sh[axis], fc[axis] = n, f
                        add(op, mode, sh, fc, 100)
                        sh2 = [1 + (k + axis) % 3 for k in range(4)]
                        sh2[axis] = n
                        add(op, mode, sh2, fc, 50)
            add(op, mode, [2, 3, 4, 5], [one] * 4, 1000)
            for _ in range(250 if not ctx.thorough else 3000):
                sh = [rng.choice([1, 1, 2]), rng.choice([1, 2, 3]), rng.randint(1, 6), rng.randint(1, 6)]
                fc = [one, one, rng.choice(facs + [one]), rng.choice(facs + [one])]
                if rng.random() < .3 and mode != "cubic":
                    fc[rng.choice([0, 1])] = (2, 1)
                add(op, mode, sh, fc, rng.choice([3, 10, 20, 100]))

    def post(h):
        for e in h:
            e["obs"]["y"] = [int(max(-2**31 + 1, min(2**31 - 1, round(y * e["total"])))) for y in e["obs"]["y"]]
            # a value that is no multiple of 1/total is off, whatever it rounds to
        return h
    exact = sum(e["tol"] == 0 for e in ev)
    ctx.add("exact_cases", exact)
    rng.shuffle(ev)
    vf.record_and_validate(ctx, exe, "Resize", [ev[i::256] for i in range(256) if ev[i::256]], cmd, post=post)
    ctx.assumptions += ["factors that are not powers of two are compared within float accuracy", "nearest is decided for power-of-two factors"]
