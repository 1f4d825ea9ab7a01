"""C08: transition tour of ExtConst.tla replayed in the real loader (mmap and malloc/read builds)."""
import vf


def run(ctx):
    wrap = ["-U_FORTIFY_SOURCE"] + [f"-D{f}=vf_{f}" for f in ("mmap", "munmap", "read")]
    src = "src/Runtime/OMExternalConstant.c"
    h = f"{vf.HARN}/extc_h.cpp"
    exes = {"mmap": vf.build(ctx, "extc", [h, src], per_source={src: wrap}),
            "read": vf.build(ctx, "extc_mvs", [h, src], per_source={src: wrap + ["-D__MVS__", "-D__MAP_MEGA=MAP_SHARED"]})}
    models = "{0}" if not ctx.thorough else "{0, 1}"
    kinds = '{"none", "short", "empty", "good", "folder"}' if not ctx.thorough else '{"none", "short", "good", "big"}'
    consts = f'CONSTANTS Models = {models}\nKinds = {kinds}\nPaths = {{"unset", "dir", "nowhere"}}\nFaults = {{"none", "open", "map"}}\nOffsets = {{{"0, 4999" if not ctx.thorough else "3"}}}\n'
    res = vf.tlc(ctx, "ExtConst", vf.tour_cfg(consts, inv=["AllOrNothing"]) + "PROPERTY OnceOnly\nPROPERTY FailClean\n")
    tour = vf.Tour(res)
    walks = list(tour.walks(ctx.rng, maxlen=200, limit=None if not ctx.thorough else 400000))

    def enc(a, t):
        o = a["op"]
        if o == "file":
            return f"file {a['loc']} {a['kind']}"
        if o == "path":
            return f"path {a['path']}"
        if o == "load":
            return f"load {a['m']} {a['size']} {int(a['le'])} {a['fault']}"
        if o == "resolve":
            return f"resolve {a['m']} {a['off']}"
        if o == "unload":
            return f"unload {a['m']}"
        return f"null {a['which']}"

    def cmp_for(variant):
        def cmp(a, t, ob):
            if "ret" in a and ob["ret"] != int(a["ret"]):
                return f"returned {bool(ob['ret'])}, the specification says {a['ret']}"
            if a["op"] == "null" and ob["ret"] > 0:
                return "a call with a null handle succeeded"
            if ob["fds"] != 0:
                return f"{ob['fds']} file descriptors left open"
            nl = 0
            bufs = t["buf"] if isinstance(t["buf"], list) else [t["buf"][k] for k in sorted(t["buf"])]
            ress = t["res"] if isinstance(t["res"], list) else [t["res"][k] for k in sorted(t["res"])]
            for m, (b, r) in enumerate(zip(bufs, ress)):
                want = "-" if b["loc"] == "-" else f"{b['loc']}/{b['kind']}"
                nl += b["loc"] != "-"
                if ob["m"][m]["buf"] != want:
                    return f"model {m} holds {ob['m'][m]['buf']}, the specification says {want}"
                if sorted(ob["m"][m]["res"]) != sorted(r):
                    return f"model {m} constants at offsets {ob['m'][m]['res']}, the specification says {sorted(r)}"
            if variant == "mmap" and ob["maps"] != nl:
                return f"{ob['maps']} mappings held for {nl} loaded models"
            if ob["heap"] != (nl if variant == "read" else 0):
                return f"{ob['heap']} heap blocks held for {nl} loaded models"
            return None
        return cmp
    for v, x in exes.items():
        vf.replay_walks(ctx, x, walks, enc, cmp_for(v), args=[ctx.work], label=f"{v} build: ")
    ctx.assumptions += ["files are replaced, not rewritten, while mapped", "a constant is resolved only while its model is loaded"]
