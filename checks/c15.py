"""C15: every transition of DispPool.tla replayed in the real pool, and recorded
histories with constants created by several threads decided by DispPoolTrace."""
import vf

SRC = [f"src/Dialect/ONNX/ElementsAttr/{f}.cpp" for f in ("BType", "DisposableElementsAttr", "DisposablePool", "ElementsAttrBuilder", "ElementsAttrHelper", "Strides", "WideNum")] \
    + ["src/Support/TypeUtilities.cpp", "src/Support/SmallFP.cpp", "src/Support/SmallFPConversion.c"]
ENV = dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allow_user_poisoning=0:detect_container_overflow=0:malloc_context_size=4")


def cmd(e, t=None):
    o = e["op"]
    if o in ("new", "drop"):
        return f"{o} {e['dst']}"
    if o == "derive":
        return f"derive {e['f']} {e['src']} {e['dst']}"
    if o == "copy":
        return f"copy {e['src']} {e['dst']}"
    if o == "bulk":
        return f"bulk {e['t']} {e['n']} {e['keep']}"
    return o


def compare(a, t, o):
    if a["op"] == "RESET":
        return None
    s = [dict(k=x["k"], v=x["v"]) for x in t["s"]]
    if o["slots"] != s:
        return f"operations hold {o['slots']}, expected {s}"
    if sorted(o["live"]) != sorted(t["live"]) or o["twice"]:
        return f"buffers in memory {o['live']}, expected {sorted(t['live'])}"
    if o["act"] != int(t["active"]):
        return f"pool active {o['act']}, expected {t['active']}"


def history(rng, n, bulks):
    """Random history; tracks just enough to respect the preconditions."""
    k = dict.fromkeys(range(1, 7), "n")
    held, active, nb, kept = False, True, 0, 0
    h = []
    E = lambda op, src=0, dst=0, f="": h.append(dict(op=op, src=src, dst=dst, f=f))
    while len(h) < n:
        op = rng.choice(["new"] * 5 + ["derive"] * 6 + ["copy"] * 2 + ["drop"] * 2 + ["gc"] * 3 + ["scrub"] + ["close"] + (["bulk", "bulk", "unbulk"] if bulks else []))
        full = [i for i in k if k[i] != "n"]
        kind = "x" if active else "d"
        if op == "new":
            d = rng.randrange(7); nb += 1; E(op, dst=d)
            held |= active
            if d:
                k[d] = kind
        elif op == "derive" and full:
            s, d = rng.choice(full), rng.randrange(7); E(op, s, d, rng.choice(["tr", "ng", "sl"]))
            held |= active
            if d:
                k[d] = kind
        elif op == "copy" and full:
            s = rng.choice(full); d = rng.choice([i for i in k if i != s]); E(op, s, d); k[d] = k[s]
        elif op == "drop" and full:
            d = rng.choice(full); E(op, dst=d); k[d] = "n"
        elif op in ("gc", "scrub"):
            E(op)
            for i in k:
                if k[i] == "x":
                    k[i] = "n" if i > 3 else "d" if op == "scrub" else "x"
            if op == "scrub":
                kept = 0
            held = any(k[i] == "x" for i in k) or kept > 0
        elif op == "close" and active and not held and rng.random() < .4:
            E(op); active = False
        elif op == "bulk":
            t, m = rng.choice([(8, 60), (8, 25), (2, 100), (4, 9), (8, 250)])
            keep = rng.choice([0, 1, 7, 23, min(t * m, 150)])
            h.append(dict(op=op, t=t, n=m, keep=keep)); held |= active
            kept += keep if active else 0
            if rng.random() < .5:
                E("unbulk"); kept = 0
        elif op == "unbulk":
            E(op); kept = 0
    return h


def run(ctx):
    exe = vf.build(ctx, "pool", [f"{vf.HARN}/pool_h.cpp"] + SRC, cxxflags=vf.MLIR_CXX, ldflags=vf.MLIR_LINK)
    for slots, dic, oth, nb, kinds in ([("1,3,4", "1, 2", "3", 2, '"tr"'), ("2,6", "1", "2", 3, '"ng", "sl"')] if not ctx.thorough else
                                       [("1,3,4", "1, 2", "3", 2, '"tr"'), ("2,3,5", "1, 2", "3", 2, '"ng"'), ("1,6", "1", "2", 3, '"tr", "ng", "sl"'), ("2,1", "1, 2", "", 3, '"sl"')]):
        c = f"CONSTANTS Dict = {{{dic}}}\n Others = {{{oth}}}\n MaxB = {nb}\n Kinds = {{{kinds}}}\n"
        res = vf.tlc(ctx, "DispPool", vf.tour_cfg(c, inv=("Readable", "Closed")) + "PROPERTIES KeepsValues OnlyCollected Exact\n")
        tour = vf.Tour(res)
        vf.replay_walks(ctx, exe, tour.walks(ctx.rng, limit=None), cmd, compare, args=[slots], env=ENV, timeout=600 if ctx.thorough else 200, label=f"[slots {slots}] ")
        ctx.add("edges", tour.nedges)
    rng = ctx.rng
    hs = [history(rng, rng.randint(10, 60), False) for _ in range(3000 if ctx.thorough else 600)]
    hs += [history(rng, rng.randint(8, 30), True) for _ in range(400 if ctx.thorough else 80)]
    c = 'CONSTANTS Dict = {1, 2, 3}\n Others = {4, 5, 6}\n MaxB = 1000\n Kinds = {"tr", "ng", "sl"}\n'
    vf.record_and_validate(ctx, exe, "DispPoolTrace", hs, cmd, consts=c, args=["1,2,3,4,5,6"], env=ENV, spec="TSpec", timeout=600 if ctx.thorough else 120)
    ctx.assumptions += ["when the pool collects or scrubs, disposable constants are referenced only by attributes of operations in the module (as its header requires)",
                        "the pool is closed only when empty", "collection and scrubbing do not run while constants are created"]
