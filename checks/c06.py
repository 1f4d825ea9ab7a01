"""C06: perfect-hash tables (compiler) against lookup (runtime)."""
import itertools
import vf


def run(ctx):
    for n, d in ([(2, 2), (3, 2)] if not ctx.thorough else [(2, 3), (3, 2), (4, 1)]):
        vf.tlc(ctx, "PerfectHash", f"SPECIFICATION Spec\nINVARIANT Correct\nCHECK_DEADLOCK FALSE\nCONSTANTS N = {n}\nD = {d}\n")
    exe = vf.build(ctx, "hash", [f"{vf.HARN}/hash_h.cpp", "src/Conversion/ONNXToKrnl/PerfectHash.cpp", "src/Runtime/OMIndexLookup.c"],
                   cxxflags=vf.MLIR_CXX, ldflags=vf.MLIR_LINK)
    rng = ctx.rng
    ev = []

    def add(kind, keys, probe=None):
        keys = list(dict.fromkeys(keys))
        vals = list(range(len(keys)))
        e = dict(op=kind, keys=keys, n=len(keys), vals=vals, ms=400 if len(keys) % 2 == 0 else 20000)
        if probe:
            e["probe"] = probe
        ev.append(e)
    ext = [-2**63, -2**63 + 1, 2**63 - 1, 2**63 - 2, -10**18, -10**18 - 1, -10**18 + 1, 10**18, -2**53, 2**32, -1, 0, 1, 9, 10, -9, -10]
    for k in ext:
        add("int", [k])
    base = [-2**63, -12, -1, 0, 1, 5, 10, 2**63 - 1]
    for r in (2, 3) + ((4, 5) if ctx.thorough else ()):
        for s in itertools.combinations(base, r):
            if r % 2 == 0 and rng.random() > 0.3:
                continue
            s = list(s)
            rng.shuffle(s)
            add("int", s)
    sbase = ["", "a", "b", "ab", "ba", "aa", "abc", "a b", "\xff\xfe", "x" * 300, "é", "0", "-1"]
    for k in sbase:
        add("str", [k])
    for s in itertools.combinations(sbase, 3):
        if rng.random() < 0.5 or ctx.thorough:
            s = list(s)
            rng.shuffle(s)
            add("str", s)
    for _ in range(60 if not ctx.thorough else 1500):
        n = rng.choice([3, 5, 7, 9, 15, 21, 33, 63, 101] + ([255, 401, 999] if ctx.thorough or rng.random() < .2 else []) + [4, 6, 10, 30])
        m = rng.randrange(4)
        if m == 0:
            ks = [rng.randint(-2**63, 2**63 - 1) for _ in range(n)]
        elif m == 1:
            b = rng.choice([-10**18 * 9, 0, -50, 10**17])
            ks = [b - i for i in range(n)]
        elif m == 2:
            ks = rng.sample(range(-10**5, 10**5), n)
        else:
            ks = rng.sample(range(-10**18 - 2000, -10**18 + 2000), n)
        add("int", ks)
        al = rng.choice(["ab", "abcdefghij", "\x01\x7f\x80\xff", "0123456789-"])
        p = rng.choice(["", "prefix/", "x" * 40])
        ks = set()
        while len(ks) < n:
            ks.add(p + "".join(rng.choice(al) for _ in range(rng.randint(0, 12))))
        add("str", sorted(ks))
    ctx.probe = None

    def cmd(e):
        v = ",".join(map(str, e["vals"]))
        if e["op"] == "int":
            return f"int {e['ms']} {v} {','.join(map(str, e['keys']))}"
        return f"str {e['ms']} {v} " + " ".join(k.encode("latin-1").hex() or "-" for k in e["keys"])

    def post(h):
        for e in h:
            ctx.add("tables_built" if not e["obs"]["hang"] else "no_tables")
            e["txt"] = [str(k) for k in e.pop("keys")][:40]
        return h
    hs = [ev[i::64] for i in range(64)]
    vf.record_and_validate(ctx, exe, "PerfectHashTrace", [h for h in hs if h], cmd, post=post,
                           what=lambda h, l: f"{h[l-2]['op']} keys {h[l-2]['txt'][:12]} (n={h[l-2]['n']}) -> {str(h[l-2]['obs'])[:500]}")
    # the recorded finding: a key set the construction cannot separate
    r = vf.record(ctx, exe, [[dict(op="int", keys=[0, 2], vals=[0, 1], n=2, ms=1000)]], cmd)
    if r and r[0][0]["obs"]["hang"]:
        ctx.fail("building the tables for the keys {0, 2} does not terminate", dict(keys=[0, 2]), key="hang-0-2")
    if ctx.cov.get("tables_built", 0) < 200:
        raise vf.CheckError("too few tables built")
