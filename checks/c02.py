"""C02: TensorMeta.tla decides every recorded history of metadata, addressing,
printing and comparison calls (C and C++ builds)."""
import itertools, json
import vf
from c01 import C_SRC, CXX_SRC

SIZE = [0, 4, 1, 1, 2, 2, 4, 8, 8, 1, 2, 8, 4, 8, 8, 16, 2, 1, 1, 1, 1, 1]
PRINTABLE = [9, 2, 3, 4, 5, 12, 6, 13, 7, 10, 1, 11, 8]
TYPED = [9, 3, 2, 5, 4, 6, 12, 7, 13, 1, 11]
UNSIGNED = {2, 4, 12, 13}


def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


def dense(s):
    return [prod(s[i + 1:]) for i in range(len(s))]


def J(v):
    return ",".join(map(str, v)) or "-"


class G:
    def __init__(self, rng, cxx):
        self.r, self.cxx = rng, cxx

    def val(self, dt):
        r = self.r
        if dt == 9:
            return r.randint(0, 1)
        if dt in UNSIGNED:
            return r.choice([0, 1, 2, 7, 100, 127, 128, 200, 255][:9 if dt == 2 else 9]) if dt == 2 else r.choice([0, 1, 127, 128, 255, 256, 40000, 65535] + ([70000, 2000000000] if dt in (12, 13) else []))
        if dt == 3:
            return r.choice([-128, -1, 0, 1, 5, 127])
        if dt == 5:
            return r.choice([-32768, -300, -1, 0, 1, 300, 32767])
        if dt == 10:
            return r.randint(-400, 400)
        return r.choice([-1, 0, 1, r.randint(-1000, 1000), r.randint(-100000, 100000)])

    def msg(self, dense_):
        toks = []
        for _ in range(self.r.randint(0, 4)):
            k = self.r.choice(["lit", "lit", "d", "t", "e", "bad"] + (["s"] if dense_ else []))
            toks.append(dict(k=k, s=self.r.choice(["a", " x:", "out\n", "1 2"]) if k == "lit" else self.r.choice("xqz%") if k == "bad" else ""))
        if self.r.random() < 0.05:
            toks.append(dict(k="orphan", s=""))
        has = any(t["k"] in "dst" for t in toks)
        if not dense_ and not has and not any(t["k"] in ("e", "orphan") for t in toks):
            toks.append(dict(k="d", s=""))
        if toks and toks[0]["k"] == "lit" and toks[0]["s"].startswith("%"):
            toks = toks[1:]
        return toks

    @staticmethod
    def raw(toks):
        s = ""
        for t in toks:
            s += t["s"] if t["k"] == "lit" else "%" if t["k"] == "orphan" else "%" + (t["s"] if t["k"] == "bad" else t["k"])
        return s

    def queries(self, sh, st, dt, n):
        """Reading events on a tensor with data of at least the needed size."""
        out = []
        isd = st == dense(sh)
        if isd:
            out.append(dict(op="numelems"))
        if dt in PRINTABLE and len(sh) <= 6:
            need = 1 + sum((d - 1) * s for d, s in zip(sh, st)) if 0 not in sh else 1
            out.append(dict(op="fill", v=[self.val(dt) for _ in range(need)]))
            for _ in range(n):
                out.append(dict(op="print", m=self.msg(isd)))
            if isd:
                out.append(dict(op="print", m=[dict(k="lit", s="x")]))
        if self.cxx:
            if prod(sh) <= 64:
                out.append(dict(op="indexset"))
            out.append(dict(op="cstrides"))
            if 0 not in sh:
                for _ in range(n + 1):
                    out.append(dict(op="elem", ix=[self.r.randrange(d) for d in sh]))
                out.append(dict(op="elem", ix=[d - 1 for d in sh]))
            out.append(dict(op="byoff", o=self.r.randint(0, 50)))
        return out

    def strides(self, sh):
        r = self.r
        perm = list(range(len(sh)))
        r.shuffle(perm)
        st, cur = [0] * len(sh), r.choice([1, 1, 2])
        for i in perm:
            st[i] = cur
            cur *= sh[i] + r.choice([0, 0, 1])
            cur = max(cur, 1)
        if r.random() < 0.15 and sh:
            st[r.randrange(len(sh))] = 0
        return st

    def history(self, sh, how, dt, n=2, mutate=True):
        h = [dict(op="create", how=how, shape=sh, dt=dt)]
        if how == "empty" and SIZE[dt] == 0:
            return h
        st = dense(sh)
        h += self.queries(sh, st, dt, n)
        if not mutate:
            return h
        for _ in range(self.r.randint(1, 4)):
            k = self.r.choice(["setshape", "setstrides", "setpy", "setdt", "meta"])
            if k == "setshape":
                sh = [self.r.choice([0, 1, 1, 2, 2, 3, 4]) for _ in sh]
                h.append(dict(op=k, v=sh))
            elif k == "setstrides":
                st = self.strides(sh)
                h.append(dict(op=k, v=st))
            elif k == "setpy":
                if SIZE[dt] == 0:
                    continue
                st = self.strides(sh)
                h.append(dict(op=k, v=[x * SIZE[dt] for x in st]))
            elif k == "setdt":
                dt = self.r.randrange(1, 22)
                h.append(dict(op=k, dt=dt))
            else:
                h.append(dict(op="meta"))
            need = 1 + sum(max(d - 1, 0) * s for d, s in zip(sh, st))
            if need > 2000:
                break
            h += self.queries(sh, st, dt, 1)
        return h

    def close(self):
        r = self.r
        dt = r.choice([6, 7, 1, 11])
        sa = [r.choice([1, 2, 3]) for _ in range(r.randint(1, 3))]
        sb = list(sa)
        if r.random() < 0.2:
            sb = sa[::-1] if r.random() < 0.5 else sa + [1]
        n = prod(sa)
        q = r.choice([4, 4, 20, 200])
        a = [r.randint(-q, q) for _ in range(n)]
        rt, at = r.choice([0, 0, 4, 8] if dt in (6, 7) else [0, 0, 1, 2, 4]), r.choice([0, 4, 8, 12] if dt in (6, 7) else [0, 1, 2, 3, 4, 8])
        b = list(a)
        for i in range(n):
            if r.random() < 0.5:
                b[i] = a[i] + r.choice([-3, -2, -1, 1, 2, 3, r.randint(-q, q)])
        # sit one element exactly on, or one step beyond, the tolerance
        if r.random() < 0.6:
            i = r.randrange(n)
            if dt in (6, 7):
                tol = (rt // 4) * abs(b[i]) + at // 4
            else:
                tol = (rt * abs(b[i]) + 4 * at) // 4
            a[i] = b[i] + r.choice([-1, 1]) * (tol + r.choice([0, 0, 1]))
        b2 = (b * 3)[:prod(sb)]
        return [dict(op="close", dt=dt, sa=sa, sb=sb, a=a, b=b2, rt=rt, at=at)]


def cmd(e):
    o = e["op"]
    if o == "create":
        return f"create {e['how']} {e['dt']} {J(e['shape'])}"
    if o in ("setshape", "setstrides", "setpy", "fill"):
        return f"{o} {J(e['v'])}"
    if o == "setdt":
        return f"setdt {e['dt']}"
    if o == "print":
        return "print " + (G.raw(e["m"]).encode().hex() or "-")
    if o == "elem":
        return f"elem {J(e['ix'])}"
    if o == "byoff":
        return f"byoff {e['o']}"
    if o == "close":
        return f"close {e['dt']} {J(e['sa'])} {J(e['sb'])} {J(e['a'])} {J(e['b'])} {e['rt']} {e['at']}"
    return o


def run(ctx):
    exes = [("C runtime: ", False, vf.build(ctx, "meta_c", [*C_SRC, vf.HARN + "/meta_h.cpp"], cflags=["-DLIFE_C"])),
            ("C++ runtime: ", True, vf.build(ctx, "meta_cxx", CXX_SRC + [vf.HARN + "/meta_h.cpp"]))]
    for label, cxx, exe in exes:
        g = G(ctx.rng, cxx)
        hs = []
        # every small shape, every creator, every element type
        for rank in range(0, 4):
            for sh in itertools.product([0, 1, 2, 3] if rank < 3 else [0, 1, 2], repeat=rank):
                hows = ["c", "own0", "empty"] + (["typed"] if cxx else [])
                for how in hows:
                    dt = ctx.rng.choice(TYPED if how == "typed" else range(0, 22))
                    hs.append(g.history(list(sh), how, dt))
        for dt in range(0, 22):
            for how in ["c", "empty"] + (["typed"] if cxx and dt in TYPED else []):
                hs.append(g.history([2, 3], how, dt, n=3))
                hs.append(g.history([], how, dt, n=2))
        for rank in (4, 5, 6):
            for _ in range(25 if not ctx.thorough else 150):
                sh = [ctx.rng.choice([1, 1, 2, 2, 3]) for _ in range(rank)]
                hs.append(g.history(sh, ctx.rng.choice(["c", "empty"]), ctx.rng.choice(PRINTABLE)))
        for _ in range(400 if not ctx.thorough else 5000):
            sh = [ctx.rng.choice([0, 1, 2, 3, 4, 5, 17]) for _ in range(ctx.rng.randint(0, 4))]
            if prod([d + 1 for d in sh]) > 300:
                continue
            hs.append(g.history(sh, ctx.rng.choice(["c", "own0", "empty"]), ctx.rng.randrange(0, 22)))
        if cxx:
            hs += [g.close() for _ in range(500 if not ctx.thorough else 5000)]
        vf.record_and_validate(ctx, exe, "TensorMeta", hs, cmd, label=label)
    ctx.assumptions.append("tensor sizes and values stay below 2^31; extended signatures are printed for dense tensors only (documented precondition of the element count)")
