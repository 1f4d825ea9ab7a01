"""C12: recorded calls of the random generators, decided by RandomGen.tla."""
import math, struct
import vf


def cmd(e):
    if e["op"] == "burn":
        return f"burn {e['k']}"
    return f"gen {e['kind']} {e['dt']} {','.join(map(str, e['shape'])) or '-'} {e['a']!r} {e['b']!r} {e['seed']!r}"


def me(x):
    """sign, odd part as text, exponent"""
    if x == 0:
        return [0, "0", 0]
    m, ex = math.frexp(abs(x))
    m = int(m * 2**53)
    while m % 2 == 0:
        m //= 2
        ex += 1
    return [1 if x > 0 else -1, str(m), ex]


def run(ctx):
    exe = vf.build(ctx, "rand", [f"{vf.HARN}/rand_h.cpp", "src/Runtime/OMRandomNormal.c", "src/Runtime/OMRandomUniform.c",
                                 "src/Runtime/OMTensor.c", "src/Runtime/OMInstrument.c", "src/Runtime/OnnxDataType.c", "src/Support/SmallFPConversion.c"])
    rng = ctx.rng

    def gen(kind, dt, shape, a, b, seed, std=False, pa=0, pb=1, pd=1, pow2=False, shift=0, stats=None):
        n = 1
        for d in shape:
            n *= d
        return dict(op="gen", kind=kind, dt=dt, shape=shape, n=n, a=a, b=b, seed=seed, key=f"{kind} {dt} {a!r} {b!r} {seed!r}",
                    skey=f"{kind} {dt} {seed!r}", std=std, pa=pa, pb=pb, pd=pd, pow2=pow2, shift=shift, tol=3 + abs(pb) // pd + abs(pa) // 64,
                    stats=stats is not None, wmean=stats[0] if stats else 0, wvar=stats[1] if stats else 0)
    hs = []
    for i in range(120 if not ctx.thorough else 1500):
        h = []
        seeds = rng.sample([0.0, 1.0, 2.0, 7.0, 42.0, 99.0, 12345.0, 3.5, 65536.0, 16777216.0, 2000000000.0], 2)
        for _ in range(rng.randint(6, 14)):
            kind, dt, seed = rng.choice(["normal", "uniform"]), rng.choice([1, 11]), rng.choice(seeds)
            shape = rng.choice([[1], [5], [2, 3], [7], [3, 1, 4], [64], [], [0], [2, 0]])
            if rng.random() < .2:
                h.append(dict(op="burn", k=rng.randint(1, 50)))
            m = rng.random()
            if m < .35:
                h.append(gen(kind, dt, shape, 0.0, 1.0, seed, std=True, pow2=True))
            elif m < .6:
                k = rng.choice([-3, -1, 1, 2, 5, 8])
                h.append(gen(kind, dt, shape, 0.0, 2.0**k, seed, pb=2**max(k, 0), pd=2**max(-k, 0), pow2=True, shift=k))
            elif m < .95:
                a, s = rng.choice([-100, -3, 0, 1, 10, 77]), rng.choice([1, 2, 3, 10, 50, 0])
                h.append(gen(kind, dt, shape, float(a), float(s if kind == "normal" else a + s), seed, pa=a, pb=s))
            elif kind == "uniform":
                h.append(gen(kind, rng.choice([6, 10, 7]), [4], 0.0, 1.0, seed))
        hs.append(h)
    for seed in ((1.0, 4.0, 50.0) if not ctx.thorough else range(0, 60)):
        for dt in (1, 11):
            n = 20000
            hs.append([gen("normal", dt, [n], 0.0, 1.0, float(seed), stats=(0, 65536))])
            hs.append([gen("uniform", dt, [n], 0.0, 1.0, float(seed), stats=(32768, 5461))])
            # bounds at awkward roundings
            for lo, hi in ((-1.0, 1.0), (0.1, 0.3), (-7.3, -7.2), (1e-30, 1e30), (5.0, 5.0)):
                hs.append([gen("uniform", dt, [2000], struct.unpack("f", struct.pack("f", lo))[0], struct.unpack("f", struct.pack("f", hi))[0], float(seed))])

    def post(h):
        for e in h:
            if e["op"] == "burn":
                continue
            raw = bytes.fromhex(e["obs"].pop("hex"))
            f = {1: "f", 11: "d", 6: "i", 10: "h", 7: "i"}[e["dt"]]
            v = struct.unpack(f"<{len(raw) // struct.calcsize(f)}{f}", raw)
            o = e["obs"]
            o["untouched"] = int(set(raw) <= {0x5A})
            if e["dt"] not in (1, 11):
                o.update(ids=[], fx=[], me=[])
                continue
            fin = all(math.isfinite(x) for x in v)
            o["inside"] = int(fin and all(e["a"] <= x <= e["b"] for x in v))
            if e["stats"]:
                m = sum(v) / len(v)
                o["mean"] = int(max(-9, min(9, m)) * 65536)
                o["var"] = int(min(9, sum((x - m) ** 2 for x in v) / len(v)) * 65536)
            big = e["n"] > 200
            o["ids"] = [0] * len(v) if big else [raw[i:i + len(raw) // len(v)].hex() for i in range(0, len(raw), len(raw) // len(v))] if v else []
            fit = not big and fin and all(abs(x) < 30000 for x in v)
            o["fx"] = [int(round(x * 65536)) for x in v] if fit else []
            o["me"] = [me(x) for x in v] if not big and fin else []
            if not big and not fit:
                o["ret"] = -1
            e["std"] = e["std"] and not big
        return h
    vf.record_and_validate(ctx, exe, "RandomGen", hs, cmd, post=post)
    ctx.assumptions.append("seeds are non-negative and representable as unsigned")
