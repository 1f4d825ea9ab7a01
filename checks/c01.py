"""C01: TensorLife.tla, exhaustively explored; every transition replayed in the
C and the C++ build of the runtime, heap observed through malloc/free hooks."""
import vf

C_SRC = ["src/Runtime/OMTensor.c", "src/Runtime/OMTensorList.c", "src/Runtime/OMInstrument.c",
         "src/Runtime/OnnxDataType.c", "src/Support/SmallFPConversion.c"]
CXX_SRC = ["src/Runtime/OMTensor.cpp", "src/Runtime/OMTensorList.cpp", "src/Runtime/OnnxDataType.cpp",
           "src/Support/SmallFPConversion.c"]
ARGS = dict(AllocBuf="b", FreeBuf="b", Create="tb", CreateOwn="tbo", CreateEmpty="tb", CreateUntyped="t",
            CreateEmptyBad="t", SetData="tk", SetOwning="to", Destroy="t", ListDestroy="l", ListDestroyShallow="l")


def encode(a, to):
    op = a["op"]
    if op == "SetData":
        return f"SetData {a['t']} {a['o']} {a['b']} {a['al']}"
    if op == "ListCreate":
        return f"ListCreate {a['l']} {','.join(map(str, a['it'])) or '-'}"
    return " ".join([op] + [str(a[k]) for k in ARGS[op]])


def compare(a, to, obs):
    if obs.get("bad"):
        return "observed" + " " + obs["bad"]
    if a["op"] == "RESET":
        return f"{obs['leak']} runtime allocations not returned" if obs["leak"] else None
    exp = {k: to[k] for k in ("buf", "ten", "lst")}
    got = {k: obs[k] for k in exp}
    return None if exp == got else f"expected {exp}, observed {got}"


def run(ctx):
    exes = [("C runtime: ", vf.build(ctx, "life_c", ["src/Runtime/OMTensor.c", *C_SRC[1:], vf.HARN + "/life_h.cpp"], cflags=["-DLIFE_C"])),
            ("C++ runtime: ", vf.build(ctx, "life_cxx", CXX_SRC + [vf.HARN + "/life_h.cpp"]))]
    sizes = [(2, 2, 1)] if not ctx.thorough else [(2, 2, 1), (3, 2, 1), (2, 2, 2)]
    for nb, nt, nl in sizes:
        res = vf.tlc(ctx, "TensorLife", vf.tour_cfg(f"CONSTANTS NB={nb} NT={nt} NL={nl}\nPROPERTY ReleasedByOwner",
                     inv=["OwnedIsLive", "OneOwner"]), workers=4)
        tour = vf.Tour(res)
        vf.log("edges", tour.nedges)
        ctx.add("graph_edges", tour.nedges)
        walks = list(tour.walks(ctx.rng))
        for label, exe in exes:
            n = vf.replay_walks(ctx, exe, walks, encode, compare, args=[str(nb), str(nt), str(nl)], label=label)
            vf.log(label, "steps", n)
    ctx.assumptions.append("constants NB, NT, NL as explored; heap behaviour observed through the address sanitizer's hooks")
    ctx.cov["exhaustive"] = True
