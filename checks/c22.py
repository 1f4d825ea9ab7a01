"""C22: SessCache.tla explored exhaustively, every transition replayed in the
real cache with stand-in sessions and a scratch cache folder."""
import os
import vf


def encode(a, t):
    return " ".join(str(x) for x in ([a["op"]] + ([a["k"]] if a["op"] not in ("victim", "clear", "restart") else []) + ([a["v"], a["w"]] if a["op"] in ("put", "insert") else [])))


def compare(a, t, o):
    if "exc" in o:
        return "raised " + o["exc"]
    if a["op"] == "get" and o["got"] != a["v"]:
        return f"lookup returned version {o['got']} (0 none, -5 another model), expected {a['v']}"
    if a["op"] == "again" and o["got"] != a["v"]:
        return f"lookup returned version {o['got']}, expected {a['v']}"
    if a["op"] == "victim" and o["victim"] != (a["k"] if a["ret"] == -1 else a["ret"]):
        return f"victim() returned {o['victim']}, expected {a['k'] or a['ret']}"
    mem = [x["k"] for x in t["mem"]]
    if o["len"] != len(mem) or o["held"] != sorted(mem):
        return f"holds {o['held']} (len {o['len']}), expected {mem}"
    if o["order"] != mem:
        return f"eviction order {o['order']}, expected {mem}"
    disk = {k: str(v) for k, v in t["disk"].items() if v}
    if o["disk"] != disk:
        return f"cache folder {o['disk']}, expected {disk}"


def run(ctx):
    exe = os.path.join(vf.HARN, "cache_h.py")
    src = os.path.join(vf.REPO, "src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py")
    if not os.path.exists(src):
        raise vf.CheckError("sessioncache.py missing")
    for cap, keys, vers in ([(1, 2, 2), (2, 3, 1), (3, 4, 1)] if not ctx.thorough else [(1, 3, 2), (2, 3, 2), (3, 4, 1), (2, 4, 2)]):
        c = f"CONSTANTS Keys = {{{', '.join(chr(34) + 'k%d' % i + chr(34) for i in range(1, keys + 1))}}}\n Vers = {{{', '.join(map(str, range(1, vers + 1)))}}}\n Cap = {cap}\n"
        res = vf.tlc(ctx, "SessCache", vf.tour_cfg(c, inv=("Bounded", "NoDup")) + "PROPERTIES Last Lru\n")
        tour = vf.Tour(res)
        vf.replay_walks(ctx, exe, tour.walks(ctx.rng, limit=None if ctx.thorough or tour.nedges < 30000 else 20000), encode, compare, args=[src, str(cap)], label=f"[capacity {cap}] ")
        ctx.add("edges", tour.nedges)
