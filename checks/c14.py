"""C14: recorded programs of constant-tensor operations decided by ElemOps.tla."""
import itertools
import vf

NAN, INF, NINF, NEGZ = 2000000001, 2000000002, 2000000003, 2000000004
SRC = [f"src/Dialect/ONNX/ElementsAttr/{f}.cpp" for f in ("BType", "DisposableElementsAttr", "DisposablePool", "ElementsAttrBuilder", "ElementsAttrHelper", "Strides", "WideNum")] \
    + ["src/Support/TypeUtilities.cpp", "src/Support/SmallFP.cpp", "src/Support/SmallFPConversion.c"]
FL = dict(f64=27, f32=24, f16=11, bf16=8, e4m3fn=4, e4m3fnuz=4, e5m2=3, e5m2fnuz=3)     # significand bits (f64 capped by TLC)
INT = dict(i8=127, i16=32767, i32=10**6, i64=10**6, u8=255, u16=65535, u32=10**6, u64=10**6)
# MLIR's allocator poisons arenas in instrumented code only
ENV = dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allow_user_poisoning=0:detect_container_overflow=0:malloc_context_size=4")
C = lambda v: ",".join(map(str, v)) if v else "-"
LIM = 4000          # magnitudes stay within TLC's integers under products


def cmd(e):
    o = e["op"]
    f = {"new": lambda: [e["kind"], e["ty"], C(e["sh"]), C(e["v"])],
         "map": lambda: [e["a"], e["f"], e["ty"]],
         "comb": lambda: [e["a"], e["b"], e["f"], e["ty"], C(e["sh"])],
         "where": lambda: [e["a"], e["b"], e["c"], C(e["sh"])],
         "cast": lambda: [e["a"], e["ty"]], "casti": lambda: [e["a"], e["ty"], e["round"]], "castf": lambda: [e["a"], e["ty"], e["sat"]],
         "clip": lambda: [e["a"], e["lo"], e["hi"]], "tr": lambda: [e["a"], C(e["perm"])], "resh": lambda: [e["a"], C(e["sh"])],
         "exp": lambda: [e["a"], C(e["sh"])], "split": lambda: [e["a"], e["axis"], C(e["sizes"])], "cat": lambda: [C(e["ids"]), e["axis"]],
         "slice": lambda: [e["a"], C(e["sh"]), C(e["starts"]), C(e["steps"])], "pad": lambda: [e["a"], C(e["pads"]), e["val"]],
         "gather": lambda: [e["a"], e["b"], e["axis"]], "scat": lambda: [e["a"], e["b"], e["c"]],
         "red": lambda: [e["a"], C(e["axes"]), e["keep"], e["f"]], "mm": lambda: [e["a"], e["b"]],
         "range": lambda: [e["ty"], e["n"], e["start"], e["delta"]], "nz": lambda: [e["a"]], "dense": lambda: [e["a"]], "disp": lambda: [e["a"]],
         "eqt": lambda: [e["a"], e["b"]], "alleq": lambda: [e["a"], e["val"]], "all": lambda: []}[o]()
    return " ".join([o] + [str(x) for x in f])


def prod(s):
    n = 1
    for x in s:
        n *= x
    return n


def bshape(*ss):
    n = max(len(s) for s in ss)
    out = []
    for i in range(n):
        d = 1
        for s in ss:
            j = i - (n - len(s))
            if j >= 0 and s[j] != 1:
                if d not in (1, s[j]):
                    return None
                d = s[j]
        out.append(d)
    return out


class T:
    """What the generator knows about a constant: enough to keep every number exact."""
    def __init__(s, ty, sh, hi, q=1, neg=True, sp=False):
        s.ty, s.sh, s.hi, s.q, s.neg, s.sp = ty, list(sh), hi, q, neg, sp   # |value| <= hi, q=4: quarters
    fits = property(lambda s: fits(s.ty, s.hi, s.q, s.neg))
    w = lambda s, **k: T(**{**dict(ty=s.ty, sh=s.sh, hi=s.hi, q=s.q, neg=s.neg, sp=s.sp), **k})


def fits(ty, hi, q, neg):
    if ty == "i1":
        return hi <= 1 and q == 1 and not neg
    if hi > LIM:
        return False
    if ty in FL:
        return hi * q < 2 ** FL[ty]
    return q == 1 and hi <= INT[ty] and (not neg or ty[0] == "i")


class Prog:
    def __init__(s, rng, maxel=40):
        s.rng, s.ev, s.t, s.maxel = rng, [], [], maxel
        s.vals = {}

    def put(s, e, *ts):
        s.ev.append(e)
        s.t += ts
        return len(s.t)

    def new(s, ty, sh, kind=None, special=False, hi=None, vals=None):
        r = s.rng
        kind = kind or r.choice(["dense", "dense", "mem", "arr", "wide", "wrap", "splat", "wsplat"])
        n = prod(sh)
        if n == 0 and kind in ("splat", "wsplat"):
            kind = "dense"
        neg, q = ty[0] != "u" and ty != "i1", 1
        if ty == "i1":
            h, v = 1, [r.randint(0, 1) for _ in range(n)]
        elif ty in FL:
            q = r.choice([1, 4]) if hi is None else 1
            h = min(hi or 60, (2 ** FL[ty] - 1) // q)
            v = [r.randint(-h * q, h * q) * (4 // q) for _ in range(n)]
        else:
            h = min(hi or 60, INT[ty])
            v = [r.randint(-h if neg else 0, h) for _ in range(n)]
        if vals is not None:
            v = vals
        sp = False
        if special and ty in ("f64", "f32", "f16", "bf16"):
            sp = True
            v = [r.choice([NAN, INF, NINF, NEGZ, x, x]) for x in v]
        if kind in ("splat", "wsplat"):
            v = [v[0]] * n
        return s.put(dict(op="new", kind=kind, ty=ty, sh=list(sh), v=v), T(ty, sh, h, q, neg, sp))

    # -- operations; each returns True when it was applicable
    def structural(s, a):
        r, t = s.rng, s.t[a - 1]
        sh, k = t.sh, len(t.sh)
        op = r.choice(["tr", "tr", "resh", "resh", "exp", "split", "slice", "slice", "pad", "gather", "cat", "dense", "disp", "where", "scat"])
        if op == "tr":
            p = list(range(k)); r.shuffle(p)
            s.put(dict(op=op, a=a, perm=p), t.w(sh=[sh[i] for i in p]))
        elif op == "resh":
            c = factor(prod(sh), r)
            s.put(dict(op=op, a=a, sh=c), t.w(sh=c))
        elif op == "exp":
            o = [d if d != 1 or r.random() < .4 else r.choice([2, 3]) for d in sh]
            if r.random() < .4 and k < 4:
                o = [r.choice([1, 2, 3])] + o
            if prod(o) > s.maxel:
                return
            s.put(dict(op=op, a=a, sh=o), t.w(sh=o))
        elif op == "split" and k:
            ax = r.randrange(k); left = sh[ax]; sizes = []
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                x = r.randint(0, left) if r.random() < .2 else r.randint(min(1, left), left); sizes.append(x); left -= x
            sizes.append(left)
            s.put(dict(op=op, a=a, axis=ax, sizes=sizes), *[t.w(sh=sh[:ax] + [x] + sh[ax + 1:]) for x in sizes])
        elif op == "slice" and prod(sh):
            o, st, sp = [], [], []
            for d in sh:
                step = r.choice([1, 1, 2, -1, -2, 3]); start = r.randrange(d)
                if r.random() < .3:
                    start, step = (0, 1) if step > 0 else (d - 1, -1)
                n = (d - start + step - 1) // step if step > 0 else start // -step + 1
                n = r.randint(1 if r.random() < .9 else 0, n)
                o.append(n); st.append(start); sp.append(step)
            s.put(dict(op=op, a=a, sh=o, starts=st, steps=sp), t.w(sh=o))
        elif op == "pad":
            pads = [r.choice([0, 0, 1, 2]) for _ in range(2 * k)]
            o = [d + pads[i] + pads[k + i] for i, d in enumerate(sh)]
            if prod(o) > s.maxel:
                return
            v = r.randint(0, 1)
            s.put(dict(op=op, a=a, pads=pads, val=v * (4 if t.ty in FL else 1)), t.w(sh=o, hi=max(1, t.hi)))
        elif op == "gather" and k:
            ax = r.randrange(k)
            if not sh[ax]:
                return
            ish = r.choice([[], [2], [3], [2, 2], [1, 2], [0]])
            o = sh[:ax] + ish + sh[ax + 1:]
            if prod(o) > s.maxel or len(o) > 5:
                return
            b = s.new(r.choice(["i32", "i64"]), ish, vals=[r.randrange(-sh[ax], sh[ax]) for _ in range(prod(ish))], hi=sh[ax])
            s.put(dict(op=op, a=a, b=b, axis=ax), t.w(sh=o))
        elif op == "cat" and k:
            ax = r.randrange(k)
            ids = [a]
            for j in range(1, len(s.t) + 1):
                u = s.t[j - 1]
                if u.ty == t.ty and len(u.sh) == k and all(i == ax or x == y for i, (x, y) in enumerate(zip(u.sh, sh))) and r.random() < .6:
                    ids.append(j)
            r.shuffle(ids); ids = ids[:4]
            us = [s.t[i - 1] for i in ids]
            o = sh[:ax] + [sum(u.sh[ax] for u in us)] + sh[ax + 1:]
            if prod(o) > s.maxel:
                return
            q = max(u.q for u in us); hi = max(u.hi for u in us)
            s.put(dict(op=op, ids=ids, axis=ax), t.w(sh=o, hi=hi, q=q, neg=any(u.neg for u in us), sp=any(u.sp for u in us)))
            if not s.t[-1].fits and not t.ty == "i1":
                s.undo(1)
        elif op in ("dense", "disp"):
            s.put(dict(op=op, a=a), t.w())
        elif op == "where":
            bs = s.same(t.ty, t.sh)
            b = r.choice(bs)
            cs = [i for i, u in enumerate(s.t, 1) if u.ty == "i1" and bshape(u.sh, t.sh, s.t[b - 1].sh) is not None]
            c = r.choice(cs) if cs and r.random() < .8 else s.new("i1", [1 if r.random() < .4 else d for d in sh][r.randrange(k + 1):])
            u = s.t[b - 1]
            o = bshape(s.t[c - 1].sh, t.sh, u.sh)
            if o is None or prod(o) > s.maxel:
                return
            if t.ty != "i1" and not fits(t.ty, max(t.hi, u.hi), max(t.q, u.q), t.neg or u.neg):
                return
            s.put(dict(op=op, a=c, b=a, c=b, sh=o), t.w(sh=o, hi=max(t.hi, u.hi), q=max(t.q, u.q), neg=t.neg or u.neg, sp=t.sp or u.sp))
        elif op == "scat" and k and prod(sh):
            nd = r.randint(1, k)
            idx = list(itertools.product(*[range(d) for d in sh[:nd]]))
            r.shuffle(idx)
            n = r.randint(1, min(3, len(idx)))
            idx = [[i if r.random() < .75 else i - d for i, d in zip(p, sh)] for p in idx[:n]]
            outer = [n] if r.random() < .8 else [1, n]
            if n == 1 and r.random() < .3:
                outer = []
            b = s.new("i64", outer + [nd], vals=[i for p in idx for i in p], kind=r.choice(["dense", "mem", "wide", "wrap"]), hi=99)
            c = s.new(t.ty, outer + sh[nd:], hi=min(t.hi, 9))
            s.put(dict(op=op, a=a, b=b, c=c), t.w(sh=sh, hi=max(t.hi, s.t[c - 1].hi), q=max(t.q, s.t[c - 1].q), neg=t.neg or s.t[c - 1].neg))
            if t.ty != "i1" and not s.t[-1].fits:
                s.undo(3)

    def undo(s, n):
        del s.ev[-n:], s.t[-n:]

    def same(s, ty, sh):
        return [i for i, u in enumerate(s.t, 1) if u.ty == ty and bshape(u.sh, sh) is not None]

    def arith(s, a):
        r, t = s.rng, s.t[a - 1]
        op = r.choice(["map", "map", "comb", "comb", "comb", "casti", "castf", "cast", "clip", "red", "red", "mm", "eqt", "alleq", "nz"])
        num = t.ty != "i1"
        if t.hi >= 10**9:
            return
        if op == "map":
            if not num:
                s.put(dict(op=op, a=a, f="not", ty="i1"), t.w())
                return
            f = r.choice(["neg", "inc", "dbl", "abs", "relu", "pos"])
            if t.sp and f in ("inc", "dbl", "neg"):
                f = "pos"
            if f == "pos":
                s.put(dict(op=op, a=a, f=f, ty="i1"), T("i1", t.sh, 1, 1, False))
                return
            o = {"neg": t.w(neg=True), "inc": t.w(hi=t.hi + 1), "dbl": t.w(hi=2 * t.hi), "abs": t.w(neg=False), "relu": t.w(neg=False)}[f]
            if o.fits and not (f == "neg" and t.ty[0] == "u"):
                s.put(dict(op=op, a=a, f=f, ty=t.ty), o)
        elif op in ("comb", "eqt"):
            b = r.choice([i for i in s.same(t.ty, t.sh) if s.t[i - 1].hi < 10**9]); u = s.t[b - 1]
            o = bshape(t.sh, u.sh)
            if prod(o) > s.maxel:
                return
            if op == "eqt":
                if r.random() < .5 and not t.sp:      # an equal constant that came about differently
                    p = list(range(len(t.sh))); r.shuffle(p)
                    s.put(dict(op="tr", a=a, perm=p), t.w(sh=[t.sh[i] for i in p]))
                    s.put(dict(op="dense", a=len(s.t)), s.t[-1].w())
                    s.put(dict(op="tr", a=len(s.t), perm=[p.index(i) for i in range(len(p))]), t.w())
                    b = len(s.t)
                s.put(dict(op=op, a=a, b=b))
                return
            if not num:
                s.put(dict(op=op, a=a, b=b, f=r.choice(["and", "or", "xor"]), ty="i1", sh=o), t.w(sh=o))
                return
            f = r.choice(["add", "sub", "mul", "max", "min", "less", "eq"])
            if t.sp or u.sp:
                f = r.choice(["less", "eq"])
            if f in ("less", "eq"):
                s.put(dict(op=op, a=a, b=b, f=f, ty="i1", sh=o), T("i1", o, 1, 1, False))
                return
            q = max(t.q, u.q)
            x = {"add": T(t.ty, o, t.hi + u.hi, q, t.neg or u.neg), "sub": T(t.ty, o, t.hi + u.hi, q, True),
                 "mul": T(t.ty, o, t.hi * u.hi, q, t.neg or u.neg)}.get(f) or T(t.ty, o, max(t.hi, u.hi), q, t.neg or u.neg)
            if not x.fits or (f == "mul" and t.q * u.q > 4):
                return
            s.put(dict(op=op, a=a, b=b, f=f, ty=t.ty, sh=o), x)
        elif op in ("casti", "castf", "cast"):
            k = op if op != "cast" else r.choice(["casti", "castf"])
            if k == "casti":
                to = r.choice(list(INT) + ["i1"])
                if to == "i1":
                    o = T("i1", t.sh, 1, 1, False)
                elif t.ty in FL:
                    o = T(to, t.sh, min(t.hi + 1, INT[to]), 1, to[0] == "i")     # saturates
                    o.sp = t.sp
                    if t.sp:
                        o.hi = 10**9
                else:
                    o = t.w(ty=to)
                    if not o.fits and not (t.ty == "i1"):
                        return
                if t.sp and to != "i1" and t.ty not in FL:
                    return
                e = dict(op=op, a=a, ty=to)
                if op == "casti":
                    e["round"] = r.randint(0, 1)
                s.put(e, o)
            else:
                to = r.choice(list(FL))
                sat = r.randint(0, 1) if op == "castf" else 0
                if t.sp and (t.ty not in FL or to not in ("f64", "f32", "f16", "bf16")) and not (sat and t.ty in FL):
                    return
                if not fits(to, t.hi, t.q, True) and not t.ty == to:
                    return
                o = T(to, t.sh, t.hi, t.q, t.neg, t.sp)
                if t.sp and sat:
                    o.hi = 10**9        # may hold the largest number of its type
                e = dict(op=op, a=a, ty=to)
                if op == "castf":
                    e["sat"] = sat
                if t.sp and sat and to not in ("f64", "f32", "f16", "bf16"):
                    return
                s.put(e, o)
        elif op == "clip" and num:
            m = 4 if t.ty in FL else 1
            hi = r.randint(0, min(9, int(t.hi)))
            lo = -hi if t.ty[0] != "u" else 0
            s.put(dict(op=op, a=a, lo=lo * m, hi=hi * m), t.w(hi=max(hi, 1), sp=t.sp))
        elif op == "red" and len(t.sh) and prod(t.sh) and not t.sp:
            k = len(t.sh)
            axes = r.sample(range(k), r.randint(0, k))
            n = prod([t.sh[i] for i in axes])
            f = r.choice(["add", "max", "min", "add", "mul"]) if num else r.choice(["and", "or", "xor"])
            hi = t.hi * n if f == "add" else t.hi ** n if f == "mul" and n < 12 else t.hi if f != "mul" else 10**9
            keep = r.randint(0, 1)
            o = [1 if i in axes else d for i, d in enumerate(t.sh)] if keep else [d for i, d in enumerate(t.sh) if i not in axes]
            if not axes:
                o, hi = t.sh, t.hi
            x = t.w(sh=o, hi=max(hi, t.hi) if num else 1)
            if (num and not x.fits) or (f == "mul" and t.q > 1):
                return
            s.put(dict(op=op, a=a, axes=axes, keep=keep, f=f), x)
        elif op == "mm" and num and len(t.sh) and not t.sp:
            for b in r.sample(range(1, len(s.t) + 1), len(s.t)):
                u = s.t[b - 1]
                if u.ty != t.ty or not u.sh or u.sp:
                    continue
                K = t.sh[-1]
                if u.sh[0 if len(u.sh) == 1 else -2] != K:
                    continue
                bs = bshape(t.sh[:-2], u.sh[:-2])
                if bs is None:
                    continue
                o = bs + ([] if len(t.sh) == 1 else [t.sh[-2]]) + ([] if len(u.sh) == 1 else [u.sh[-1]])
                x = T(t.ty, o, max(1, t.hi * u.hi * max(K, 1)), max(t.q, u.q), t.neg or u.neg)
                if prod(o) > s.maxel or not x.fits or t.q * u.q > 4:
                    continue
                s.put(dict(op=op, a=a, b=b), x)
                return
        elif op == "alleq":
            v = r.choice([0, 1, 2, 4])
            if not num:
                v = r.randint(0, 1)
            s.put(dict(op=op, a=a, val=v))
        elif op == "nz":
            s.put(dict(op=op, a=a))
            s.t.append(None)      # shape depends on the values
            s.t[-1] = T("nz", [None], 1)

    def step(s):
        good = [i for i, t in enumerate(s.t, 1) if None not in t.sh]
        a = s.rng.choice(good[-5:] if s.rng.random() < .7 else good)
        keep = s.t
        n = len(s.ev)
        # operands with unknown shapes never take part
        (s.structural if s.rng.random() < .55 else s.arith)(a)


def factor(n, r):
    if n == 0:
        out = [0]
        for _ in range(r.randint(0, 2)):
            out.insert(r.randrange(len(out) + 1), r.choice([1, 2, 3]))
        return out
    out = []
    while n > 1:
        ds = [d for d in range(2, n + 1) if n % d == 0]
        d = r.choice(ds)
        out.append(d)
        n //= d
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        out.insert(r.randrange(len(out) + 1), 1)
    while len(out) > 5:
        i = r.randrange(len(out) - 1)
        out[i:i + 2] = [out[i] * out[i + 1]]
    return out


def factorizations(n, maxrank=4):
    """All shapes with n elements and up to one dimension of size 1."""
    def go(n, k):
        if n == 1:
            yield []
        if k == 0:
            return
        for d in range(2, n + 1):
            if n % d == 0:
                for rest in go(n // d, k - 1):
                    yield [d] + rest
    for f in go(n, maxrank):
        yield f
        for i in range(len(f) + 1):
            yield f[:i] + [1] + f[i:]


def random_program(rng, depth, zero):
    p = Prog(rng)
    base = rng.choice(list(FL)[:4] + list(FL) + list(INT) + ["i1", "i1"])
    dims = [0, 1, 2, 3] if zero else [1, 1, 2, 3, 4]
    sh = [rng.choice(dims) for _ in range(rng.randint(0, 4))]
    while prod(sh) > 40:
        sh[rng.randrange(len(sh))] = 1
    p.new(base, sh, special=rng.random() < .15, hi=rng.choice([None, 3, 7]))
    p.new(base, [d if rng.random() < .6 else 1 for d in sh][rng.randrange(len(sh) + 1):], hi=rng.choice([None, 3]))
    if rng.random() < .5:
        p.new(rng.choice(list(FL) + list(INT) + ["i1"]), [rng.choice([1, 2, 3]) for _ in range(rng.randint(0, 3))], hi=3)
    if rng.random() < .2:
        n = rng.randint(0, 6)
        ty = rng.choice(["f64", "f32", "f16", "i32", "i64", "i16", "u8", "u32", "u64", "i8"])
        f = 4 if ty in FL else 1
        start, d = (rng.randint(-5, 5), rng.randint(-3, 3)) if ty[0] != "u" else (rng.randint(0, 5), rng.randint(0, 3))
        p.put(dict(op="range", ty=ty, n=n, start=start * f, delta=d * f), T(ty, [n], 25, 1, ty[0] != "u"))
    guard = 0
    while len(p.ev) < depth and guard < 80:
        p.step()
        guard += 1
    p.put(dict(op="all"))
    return p.ev


def view_programs(rng, thorough):
    """All transposes and reshapes (twice) of expanded and plain constants."""
    out = []
    shapes = [[6], [2, 3], [2, 2, 2], [2, 1, 3], [3, 2, 2]] + ([[2, 2, 3, 1], [1, 4, 2], [2, 2, 2, 2]] if thorough else [])
    exps = [([1, 3], [2, 3]), ([2, 1], [2, 3]), ([3, 1, 2], [3, 2, 2]), ([1, 1], [2, 2]), ([2, 1, 2], [2, 2, 2]), ([1, 2], [3, 1, 2])]
    bases = [(s, s) for s in shapes] + exps
    for src, sh in bases:
        for perm in itertools.permutations(range(len(sh))):
            t = [sh[i] for i in perm]
            rs = list(factorizations(prod(t)))
            for r1 in rs:
                if not thorough and len(rs) > 25 and rng.random() > .35:
                    continue
                p = Prog(rng, 1000)
                ty = rng.choice(["i32", "i64", "f32", "f16", "u8", "f64", "i1"])
                n = prod(src)
                vals = [k % 2 for k in range(n)] if ty == "i1" else [(k + 1) * (4 if ty in FL else 1) for k in range(n)]
                a = p.new(ty, src, kind=rng.choice(["dense", "mem", "wide", "arr", "wrap"]), vals=vals, hi=99 if ty != "i1" else None)
                if rng.random() < .3:
                    a = p.put(dict(op="map", a=a, f="not" if ty == "i1" else "inc", ty=ty), p.t[-1].w())
                if src != sh:
                    a = p.put(dict(op="exp", a=a, sh=sh), p.t[-1].w(sh=sh))
                a = p.put(dict(op="tr", a=a, perm=list(perm)), p.t[-1].w(sh=t))
                a = p.put(dict(op="resh", a=a, sh=r1), p.t[-1].w(sh=r1))
                q = list(range(len(r1)))
                rng.shuffle(q)
                t2 = [r1[i] for i in q]
                b = p.put(dict(op="tr", a=a, perm=q), p.t[-1].w(sh=t2))
                r2 = rng.choice(rs)
                c = p.put(dict(op="resh", a=b, sh=r2), p.t[-1].w(sh=r2))
                if ty != "i1":
                    row = p.new(ty, r2[-1:], hi=5)
                    p.put(dict(op="comb", a=c, b=row, f="less", ty="i1", sh=r2), T("i1", r2, 1, 1, False))
                if prod(r1) > 1:
                    p.put(dict(op="red", a=b, axes=[rng.randrange(len(r1))], keep=1, f="max" if ty != "i1" else "or"), p.t[b - 1].w())
                p.put(dict(op="eqt", a=c, b=c))
                p.put(dict(op="all"))
                out.append(p.ev)
    return out


def directed(rng):
    out = []
    # bool constants of every representation, through data-moving operations, into numbers
    for k1, k2 in itertools.product(["dense", "mem", "splat", "wrap", "wide"], repeat=2):
        p = Prog(rng)
        a = p.new("i1", [3], kind=k1, vals=[1, 0, 1])
        b = p.new("i1", [2], kind=k2, vals=[1, 1])
        c = p.put(dict(op="cat", ids=[a, b], axis=0), T("i1", [5], 1, 1, False))
        d = p.put(dict(op="slice", a=a, sh=[2], starts=[2], steps=[-2]), T("i1", [2], 1, 1, False))
        for x in (a, b, c, d):
            n = p.t[x - 1].sh
            for ty in ("i8", "i64", "u8", "u64"):
                p.put(dict(op="casti", a=x, ty=ty, round=0), T(ty, n, 1, 1, False))
            for ty in ("f32", "e5m2"):
                p.put(dict(op="castf", a=x, ty=ty, sat=0), T(ty, n, 1, 1, False))
            p.put(dict(op="alleq", a=x, val=1))
            p.put(dict(op="nz", a=x), T("nz", [None], 1))
        p.put(dict(op="all"))
        out.append(p.ev)
    # saturation at the extremes of the integer types
    for src in ("f64", "f32", "f16"):
        for ty in list(INT):
            for rnd in (0, 1):
                p = Prog(rng)
                v = [NAN, INF, NINF, NEGZ, 2, -2, 6, -6, 10, -10, 1, 3, -1, -3, 510, 508, 506, 509, -514, -512, -516, 1018, 1020, 1022, 1023]
                v += [] if src == "f16" else [131068 - 4, 131068, 131066 + 6, 131066, -131072, -131074, -131076, -131080, 262140, 262142, 262144, 400000]
                a = p.new(src, [len(v)], kind=rng.choice(["dense", "mem", "wide"]), vals=v, hi=9)
                p.put(dict(op="casti", a=a, ty=ty, round=rnd), T(ty, [len(v)], 1))
                p.put(dict(op="casti", a=a, ty="i1", round=rnd), T("i1", [len(v)], 1))
                p.put(dict(op="all"))
                out.append(p.ev)
    # saturating casts between floating-point types
    for src in ("f64", "f32"):
        for ty in FL:
            if ty == src:
                continue
            p = Prog(rng)
            v = [0, 4, -4, 4 * 448, -4 * 448, 4 * 449, -4 * 512, 4 * 65504, 4 * 57344, 4 * 65505, -4 * 70000, 4 * 100000, INF, NINF, NAN, 4 * 240, 4 * 241]
            v = [x for x in v if x in (INF, NINF, NAN) or ty in ("f64", "f32") or abs(x) < 5 or abs(x) > {"f16": 4 * 65503, "bf16": 10**12, "e4m3fn": 4 * 447, "e4m3fnuz": 4 * 239}.get(ty, 4 * 57343)]
            a = p.new(src, [len(v)], kind="dense", vals=v, hi=9)
            p.put(dict(op="castf", a=a, ty=ty, sat=1), T(ty, [len(v)], 1))
            p.put(dict(op="all"))
            out.append(p.ev)
    # extreme integers survive data movement and conversion between views
    for ty, v in dict(i64=[2000000020, 2000000021, -1], u64=[2000000022, 0, 2000000020], i32=[2000000024, 2000000025, 0], u32=[2000000023, 1, 0], i8=[-128, 127, -1], u8=[255, 128, 0],
                      i16=[-32768, 32767, 1], u16=[65535, 32768, 0], f64=[2000000015, 2000000016, NAN], f32=[2000000011, 2000000012, INF], bf16=[2000000013, 2000000014, NINF], f16=[4 * 65504, -4 * 65504, 1]).items():
        for kind in ("dense", "mem", "wide", "wrap", "arr"):
            p = Prog(rng)
            a = p.new(ty, [3], kind=kind, vals=v, hi=9)
            b = p.put(dict(op="tr", a=p.put(dict(op="exp", a=a, sh=[2, 3]), p.t[-1].w(sh=[2, 3])), perm=[1, 0]), p.t[-1].w(sh=[3, 2]))
            p.put(dict(op="resh", a=b, sh=[6]), p.t[-1].w(sh=[6]))
            p.put(dict(op="cat", ids=[b, b], axis=1), p.t[-1].w())
            p.put(dict(op="dense", a=b), p.t[-1].w())
            p.put(dict(op="disp", a=len(p.t)), p.t[-1].w())
            p.put(dict(op="eqt", a=b, b=b))
            p.put(dict(op="all"))
            out.append(p.ev)
    # scalars
    for ty in ("i32", "i1", "f32"):
        for v in (0, 1):
            for kind in ("dense", "mem", "wrap"):
                p = Prog(rng)
                a = p.new(ty, [], kind=kind, vals=[v * (4 if ty == "f32" else 1)], hi=1 if ty != "i1" else None)
                p.put(dict(op="nz", a=a), T("nz", [None], 1))
                p.put(dict(op="tr", a=a, perm=[]), p.t[a - 1].w())
                p.put(dict(op="exp", a=a, sh=[2, 2]), p.t[a - 1].w(sh=[2, 2]))
                p.put(dict(op="resh", a=a, sh=[1, 1]), p.t[a - 1].w(sh=[1, 1]))
                p.put(dict(op="pad", a=a, pads=[], val=0), p.t[a - 1].w())
                p.put(dict(op="all"))
                out.append(p.ev)
    # constants without elements
    for ty in ("i32", "i1", "f16"):
        for kind in ("dense", "mem", "wrap"):
            for sh in ([0], [2, 0], [0, 3], [2, 0, 3]):
                p = Prog(rng)
                a = p.new(ty, sh, kind=kind, vals=[])
                k = len(sh)
                b = p.put(dict(op="tr", a=a, perm=list(range(k))[::-1]), p.t[-1].w(sh=sh[::-1]))
                for i, d in enumerate(sh):
                    p.put(dict(op="split", a=a, axis=i, sizes=[d, 0]), p.t[a - 1].w(), p.t[a - 1].w(sh=[0 if j == i else x for j, x in enumerate(sh)]))
                p.put(dict(op="cat", ids=[a, a], axis=0), p.t[a - 1].w(sh=[2 * sh[0]] + sh[1:]))
                p.put(dict(op="resh", a=b, sh=[3, 0, 1]), p.t[a - 1].w(sh=[3, 0, 1]))
                p.put(dict(op="resh", a=len(p.t), sh=[0]), p.t[a - 1].w(sh=[0]))
                p.put(dict(op="pad", a=a, pads=[1] * (2 * k), val=0), p.t[a - 1].w(sh=[x + 2 for x in sh]))
                p.put(dict(op="nz", a=a), T("nz", [None], 1))
                p.put(dict(op="map", a=a, f="not" if ty == "i1" else "inc", ty=ty), p.t[a - 1].w())
                p.put(dict(op="alleq", a=a, val=1))
                p.put(dict(op="all"))
                out.append(p.ev)
        # an expansion to no elements
        p = Prog(rng)
        a = p.new(ty, [1, 2], kind="mem", hi=1)
        b = p.put(dict(op="exp", a=a, sh=[0, 2]), p.t[-1].w(sh=[0, 2]))
        p.put(dict(op="resh", a=b, sh=[2, 0, 3]), p.t[-1].w(sh=[2, 0, 3]))
        s = p.new(ty, [1], kind="splat", hi=1)
        b = p.put(dict(op="exp", a=s, sh=[0]), p.t[-1].w(sh=[0]))
        p.put(dict(op="resh", a=b, sh=[2, 0]), p.t[-1].w(sh=[2, 0]))
        p.put(dict(op="alleq", a=b, val=3 if ty != "i1" else 0))
        p.put(dict(op="all"))
        out.append(p.ev)
    return out


def big_programs(rng, thorough):
    """Enough elements for the parallel paths."""
    out = []
    for n, (x, y) in [(1, (30, 34)), (2, (50, 41)), (3, (1, 1003))] + ([(4, (64, 64)), (5, (7, 331))] if thorough else []):
        for ty in ("i32", "f32", "i1", "u8")[: 4 if thorough else 3]:
            p = Prog(rng, 10**6)
            a = p.new(ty, [x, y], kind=rng.choice(["mem", "dense"]), hi=1 if ty != "i1" else None)
            sh = [x, y]
            f = "not" if ty == "i1" else "inc"
            b = p.put(dict(op="map", a=a, f=f, ty=ty), p.t[-1].w(hi=2))
            c = p.put(dict(op="tr", a=b, perm=[1, 0]), p.t[-1].w(sh=[y, x]))
            d = p.put(dict(op="castf", a=c, ty="f64", sat=0) if ty != "f32" else dict(op="casti", a=c, ty="i16", round=1), p.t[-1].w(ty="f64" if ty != "f32" else "i16"))
            for src in (a, b, d):
                bo = p.t[src - 1].ty == "i1"
                for axes in ([0], [1], [1, 0]):
                    p.put(dict(op="red", a=src, axes=axes, keep=rng.randint(0, 1), f=rng.choice(["xor", "or"]) if bo else rng.choice(["add", "max"]) if ty != "u8" else "max"), T(p.t[src - 1].ty, [1], 1))
            if ty != "i1":
                row = p.new(ty, [y], hi=2)
                p.put(dict(op="comb", a=b, b=row, f="add", ty=ty, sh=sh), p.t[b - 1].w())
            p.put(dict(op="resh", a=c, sh=[x * y]), p.t[c - 1].w(sh=[x * y]))
            p.put(dict(op="all"))
            out.append(p.ev)
    return out


def run(ctx):
    exe = vf.build(ctx, "elems", [f"{vf.HARN}/elems_h.cpp"] + SRC, cflags=["-DNDEBUG"], cxxflags=vf.MLIR_CXX, ldflags=vf.MLIR_LINK)
    rng = ctx.rng
    hs = directed(rng) + view_programs(rng, ctx.thorough) + big_programs(rng, ctx.thorough)
    for i in range(1500 if not ctx.thorough else 30000):
        hs.append(random_program(rng, rng.choice([6, 10, 16]), i % 8 == 0))
    ctx.add("programs", len(hs))
    rng.shuffle(hs)
    vf.record_and_validate(ctx, exe, "ElemOps", hs, cmd, chunk=8000, env=ENV)
    ctx.assumptions += ["every number of a program is a multiple of 1/4 that its type represents exactly (constants keep extra precision until they are read, by design)",
                        "casts between integer types are in range (the code delays truncation by design)", "-0 and 0 count as one number"]
