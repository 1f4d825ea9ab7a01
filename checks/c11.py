"""C11: recorded input lists made from signatures, decided by InputGen.tla."""
import math
from fractions import Fraction
import vf

TYPES = ["f32", "float", "f64", "double", "f16", "i8", "i16", "i32", "i64", "ui8", "ui16", "ui32", "ui64", "i1", "string"]
NP = ["float32", "float64", "float16", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "bool_", "str"]
OPEN = ["bf16", "f8e4m3fn", "i4", "complex64", "undefined", "F32", "f 32", "", "i128", "f3", "f322"]


def limbs(x):
    x += 5 * 10 ** 24
    o = []
    for _ in range(4):
        o.append(x % 10 ** 8)
        x //= 10 ** 8
    return o[::-1]


def bound(txt):
    v = Fraction(txt)
    return dict(fl=limbs(math.floor(v * 65536)), ce=limbs(math.ceil(v * 65536)), ifl=limbs(math.floor(v) * 65536), ice=limbs(math.ceil(v) * 65536), gt=v > Fraction(1, 2))


def hx(s):
    return "null" if s == "<null>" else s.encode("latin1").hex() or "-"


def cmd(e):
    if e["op"] == "seed":
        return f"seed {e['seed']}"
    if e["op"] == "strs":
        return " ".join(["strs"] + e["strs"])
    return " ".join(["gen"] + [hx(x) for x in e["txt"]] + [str(e["verbose"])])


def run(ctx):
    exe = vf.build(ctx, "inp", [f"{vf.HARN}/inp_h.cpp", "src/Runtime/OMTensorHelper.cpp", "src/Runtime/OMTensorListHelper.cpp", "src/Runtime/OMTensor.c", "src/Runtime/OMTensorList.c",
                                "src/Support/SmallFPConversion.c", "src/Runtime/OnnxDataType.c", "src/Runtime/OMInstrument.c"])
    rng = ctx.rng
    sp = lambda: rng.choice(["", "", " ", "  "])
    js = lambda: rng.choice(["", " ", " ", "\n", "\t ", "  "])

    def sigtext(sig):
        es = []
        for s in sig:
            name = rng.choice(["x", "input_0", "a}b", "a]b", "a,b:c", "{", "[1,2]", "", "\\\"q\\\"", "\\\\", "dims", "type", "\xe9"])
            f = [f'"type"{js()}:{js()}"{s["ty"]}"', f'"dims"{js()}:{js()}[{js()}' + f"{js()},{js()}".join(map(str, s["dims"])) + f"{js()}]"]
            if rng.random() < .9:
                f.append(f'"name"{js()}:{js()}"{name}"')
            if rng.random() < .2:
                rng.shuffle(f)
            es.append("{" + js() + f"{js()},{js()}".join(f) + js() + "}")
        return js() + "[" + js() + f"{js()},{js()}".join(es) + js() + "]" + rng.choice(["", "\n", " "])

    def ids(n):
        r = rng.random()
        if r < .25:
            return -1, -1
        lo = rng.randrange(n)
        if r < .6:
            return lo, lo
        return lo, rng.randint(lo, n - 1)

    def idtext(lo, hi):
        if lo == -1:
            return sp() + "-1" + sp()
        if lo == hi and rng.random() < .7:
            return f"{sp()}{lo}{sp()}"
        return f"{sp()}{lo}{sp()}-{sp()}{hi}{sp()}"

    def value(kind=None):
        return rng.choice(["0", "1", "-1", "2", "5", "-5", "10", "0.5", "-0.5", "0.125", "2.25", "-3.75", "100", "127", "128", "255", "256", "-128", "-129", "1000", "1e3", "-1e3", "2.5e-1", "63", "64", "-10", "-11", "1.0"])

    def wide():
        return rng.choice(["4294967295", "4294967040", "3000000000", "2147483647", "2147483648", "-2147483648", "-3000000000", "9007199254740992", "9223372036854774784", "18446744073709549568", "1e19", "0", "-1",
                           "-9223372036854775808", "65535", "65536", "32767", "-32768", "7"])

    def vals(n, sig):
        out, txt = [], []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            lo, hi = ids(n)
            en = dict(lo=lo, hi=hi, min=[], max=[], soz=[])
            cov = sig if lo == -1 else sig[lo:hi + 1]
            ints = all(s["ty"] not in ("f32", "float", "f16", "f64", "double") for s in cov)
            r = rng.random()
            parts = []
            if r < .25:
                k = rng.choice([-1, -1, 0, 1, 2, 3, 5, 100, -2])
                en["soz"] = [k]
                parts.append(f"soz{k}")
                if rng.random() < .06:
                    v = value()
                    m = rng.choice(["min", "max"])
                    en[m] = [bound(v)]
                    parts.insert(rng.randint(0, 1), m + v)
            elif r < .4:
                v = wide() if ints and rng.random() < .3 else value()
                en["min"] = en["max"] = [bound(v)]
                parts.append("val" + v)
            else:
                a, b = [wide() if ints and rng.random() < .5 else value() for _ in range(2)]
                if Fraction(a) > Fraction(b) and rng.random() < .9:
                    a, b = b, a
                w = rng.choice(["both", "both", "min", "max"])
                if w != "max":
                    en["min"] = [bound(a)]
                    parts.append("min" + sp() + a)
                if w != "min":
                    en["max"] = [bound(b)]
                    parts.append("max" + sp() + b)
                if rng.random() < .3:
                    parts.reverse()
            out.append(en)
            txt.append(idtext(lo, hi) + ":" + sp() + rng.choice([" ", "", "\t", "  "]).join(parts) + sp())
        return out, txt

    def bounds(low):
        out, txt = [], []
        for _ in range(rng.choice([0, 0, 0, 1, 2, 4])):
            np = rng.choice(NP)
            v = value()
            if rng.random() < .6:
                v = v.lstrip("-")
                if low:
                    v = "-" + v if np[0] != "u" and np != "str" else "0"
            out.append(dict(np=np, v=bound(v)))
            txt.append(f"{sp()}{np}{sp()}:{sp()}{v}{sp()}")
        return out, txt

    rid = [0]

    def gen():
        n = rng.randint(1, 4)
        sig = []
        shape, stxt = [], []
        for i in range(n):
            dims = [rng.choice([-1, -1, 0, 1, 2, 3, 4, 7]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
            if rng.random() < .05:
                dims = [rng.choice([50, 500, -1])]
            sig.append(dict(ty=rng.choice(TYPES), dims=dims))
        full = [rng.random() < .9 for _ in sig]
        for i, s in enumerate(sig):
            if -1 in s["dims"] and full[i] or rng.random() < .1:
                if s["dims"]:
                    ov = [rng.choice([-1, d]) if d >= 0 else rng.choice([1, 2, 3, 5, 0]) for d in s["dims"]]
                    if rng.random() < .04:
                        ov[rng.randrange(len(ov))] = rng.choice([-1, 9, -2])
                    if rng.random() < .1:
                        ov = ov[:rng.randint(1, len(ov))]
                    shape.append(dict(lo=i, hi=i, dims=ov))
        if n > 1 and rng.random() < .15:
            m = min(len(s["dims"]) for s in sig)
            if m:
                lo, hi = ids(n)
                shape.insert(rng.randint(0, len(shape)), dict(lo=lo, hi=hi, dims=[rng.choice([-1, 1, 2]) for _ in range(m)]))
        stxt = [idtext(x["lo"], x["hi"]) + ":" + sp() + "x".join(sp() + str(d) for d in x["dims"]) + sp() for x in shape]
        vs, vtxt = vals(n, sig)
        lbs, ltxt = bounds(True)
        ubs, utxt = bounds(False)
        e = dict(op="gen", sig=sig, shape=shape, vals=vs, lbs=lbs, ubs=ubs, malformed=False, verbose=int(rng.random() < .1))
        txt = [sigtext(sig)] + [",".join(x) if x else rng.choice(["<null>", ""]) for x in (stxt, vtxt, ltxt, utxt)]
        if rng.random() < .25:
            e["malformed"] = True
            k = rng.randrange(9)
            if k == 0:
                t = txt[0].rstrip()
                txt[0] = t[:rng.randrange(len(t))]
            elif k == 1:
                t = sigtext([dict(ty="@", dims=[1])]).replace('"@"', rng.choice(['f32', '1', '[', '"' + rng.choice(OPEN) + '"', "", "null"]))
                txt[0] = t
            elif k == 2:
                txt[0] = rng.choice(["<null>", "", " ", "{", "x", "[ { \"dims\" : [1] } ]", "[ { \"dims\" : [2,3] , \"name\" : \"x\" } ]", "[ 1 ]", "[ \"type\" ]", "[{\"type\":\"f32\",\"dims\":[a]}]", "[{\"type\":\"f32\",\"dims\":[1.5]}]",
                                     "[{\"type\":\"f32\",\"dims\":\"1\"}]", "[{\"type\":\"f32\",\"dims\":1}]", "[{\"type\" \"f32\"}]", "[{type:\"f32\"}]", "[{\"type\":\"f32\" : }]", "[{} ]", "]", "[{\"type\":\"f32\",\"dims\":[1}]"])
            elif k in (3, 4):
                b = rng.choice(["0", ":", "0:", ":2", "x:2", "0:x", "0:2:3", "0:2xx3", "0:2xa", "0:2a", "0a:2", "0-:2", "0--1:2", "0:-3", "-2:1", f"{n}:2", f"0-{n}:2", "1-0:1", "0:2.5", "0:1e1", "-1-0:1", "0 1:1", "99999999999999999999:1",
                                "0:99999999999999999999", "0-1-2:1"])
                if b == "1-0:1" and n < 2:
                    b = "x"
                txt[1] = ",".join(stxt + [b]) if rng.random() < .7 else ",".join([b] + stxt)
            elif k in (5, 6):
                b = rng.choice(["0", ":", "0:", "0:min", "0:mi", "0:minx", "0:avg1", "0:1", "0:min1 2", "0:min1;max2", "0:sozx", "0:soz", "0:soz-2", "0:soz2 val1", "0:min1:max2", f"{n}:min1max2", "x:val1", "0:Min1", "0:val 1 x", "0:max"])
                txt[2] = ",".join(vtxt + [b]) if rng.random() < .7 else ",".join([b] + vtxt)
                if b in ("0:",):
                    e["malformed"] = True
            else:
                b = rng.choice(["int8", ":", "int8:", ":1", "int9:1", "f32:1", "float:1", "int8:x", "int8:1:2", "int8:1x", "INT8:1", "i8:1", "int8:1 2"])
                j = 3 + rng.randrange(2)
                txt[j] = ",".join((ltxt if j == 3 else utxt) + [b])
        e["txt"] = txt
        rid[0] += 1
        e["rid"] = rid[0]
        return e

    def history():
        h = []
        if rng.random() < .2:
            h.append(gen())
        seeds = [rng.choice([0, 1, 42, 2147483647, rng.randrange(1 << 31)]) for _ in range(2)]
        reqs = [gen() for _ in range(rng.randint(1, 4))]
        for _ in range(rng.randint(2, 4)):
            h.append(dict(op="seed", seed=rng.choice(seeds)))
            for _ in range(rng.randint(1, 4)):
                h.append(dict(rng.choice(reqs)) if rng.random() < .5 else dict(reqs[len([x for x in h[::-1] if x["op"] == "gen"]) % len(reqs)]))
        if rng.random() < .3:
            h.append(dict(op="strs", strs=[("".join(rng.choice("ab\xff\n ") for _ in range(rng.choice([0, 1, 3, 20])))).encode("latin1").hex() or "-" for _ in range(rng.randint(0, 6))]))
        return h
    hs = [history() for _ in range(3000 if not ctx.thorough else 30000)]
    done = vf.record_and_validate(ctx, exe, "InputGen", hs, cmd, chunk=3000,
                                  what=lambda h, l: f"{[h[l - 2].get(k) for k in ('txt', 'sig', 'seed', 'strs')]} -> {str(h[l - 2].get('obs'))[:700]}")
    g = [e for h in done for e in h if e["op"] == "gen"]
    ctx.add("requests", len(g))
    ctx.add("lists_made", sum(e["obs"]["list"] for e in g))
    ctx.assumptions.append("shape requests with no more dimensions than the tensor; tensors that fit in memory; values below 2^31 for floating point; a signature has at least one input")
