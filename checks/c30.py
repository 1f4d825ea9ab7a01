"""C30: constants in the accelerator's layout, decided by Stickify.tla."""
import vf

C = lambda v: ",".join(map(str, v))
PLAIN = dict(use="plain", rnn="none", prev="none")
RANK = {"1D": 1, "2D": 2, "2DS": 2, "3D": 3, "3DS": 3, "4D": 4, "NHWC": 4, "NCHW": 4, "HWCK": 4}
CONST = "CONSTANTS Cells = 64 PerPage = 32\n"


def cmd(e):
    if e["op"] == "desc":
        return f"desc {e['lay']} {e['ty']} {C(e['sh'])} {e['u']['use']} {e['u']['rnn']} {e['u']['prev']}"
    if e["op"] == "buf":
        return f"buf {e['how']}"
    if e["op"] in ("stick", "weights"):
        return e["op"] + " " + " ".join(C(g) for g in e["d"])
    if e["op"] == "conv":
        return "conv " + " ".join(e["hex"])
    if e["op"] == "back":
        return f"back {e['first']} {e['n']}"
    return "alloc"


def fields(u):
    return [u >> 31, (u >> 23) & 255, u & 0x7FFFFF]


EDGE1 = [1, 2, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 72, 100, 127, 128, 129, 130, 191, 192, 193, 200]
EDGE2 = [1, 2, 3, 5, 31, 32, 33, 34, 63, 64, 65, 66, 67]


def shape(r, lay, lim):
    """A shape of few elements whose dimensions lie around the sizes of sticks and pages."""
    while True:
        n = RANK[lay]
        sh = [r.choice([1, 1, 2, 3, 4]) for _ in range(n)]
        big = {n - 1: EDGE1, n - 2: EDGE2}
        if lay == "NCHW":
            big = {1: EDGE1, 3: EDGE2}
        if lay == "2DS":
            big = {1: EDGE1}
        for i, e in big.items():
            if 0 <= i:
                sh[i] = r.choice(e) if r.random() < .8 else r.randint(1, 12)
        if r.random() < .1:
            sh[r.randrange(n)] = r.randint(1, 70)
        t = 1
        for x in sh:
            t *= x
        if t <= lim:
            return sh


def data(r, n, wt=False):
    if wt:
        return [r.randint(-128, 127) for _ in range(n)]
    return [0 if r.random() < .02 else r.choice([-1, 1]) * r.randint(1, 511) for _ in range(n)]


def prod(v):
    p = 1
    for x in v:
        p *= x
    return p


def history(r, lay, u, sh, ty="FP32", walk=False):
    """One tensor: described, given buffers good and bad, filled, filled again."""
    h = [dict(op="desc", lay=lay, u=u, sh=sh, ty=ty)]
    gates = {"lstm": 4, "gru": 3}.get(u["rnn"], 1)
    D = lambda: [data(r, prod(sh)) for _ in range(gates)]
    if u["use"] not in ("plain", "qw"):
        if u["use"][0] == "q":
            return h + [dict(op="alloc")]
        if lay != ("2DS" if u["use"] in ("b", "hb") else "3DS") or u["use"] == "w" and u["prev"] == "bidir" and sh[-2] % 2:
            return h
    h.append(dict(op="alloc"))
    if u["use"] == "qw":
        h.append(dict(op="buf", how="right"))
        h.append(dict(op="weights", d=[data(r, prod(sh), True)]))
        return h
    if not walk:
        return h + [dict(op="buf", how="right"), dict(op="stick", d=D())]
    for _ in range(r.randint(3, 7)):
        if r.random() < .5:
            h.append(dict(op="buf", how=r.choice(["right", "right", "null", "odd", "small"])))
        elif any(e["op"] == "buf" for e in h):
            h.append(dict(op="stick", d=D()))
    return h


def run(ctx):
    r = ctx.rng
    vf.tlc(ctx, "Stickify", "CONSTANTS Cells = 2 PerPage = 2\nSPECIFICATION SelfSpec\nINVARIANT SelfOK\nCHECK_DEADLOCK FALSE\n")
    vf.tlc(ctx, "Stickify", CONST + "SPECIFICATION NumSpec\nINVARIANT NumOK\nCHECK_DEADLOCK FALSE\n")
    N = "src/Accelerators/NNPA/Support/Stickify"
    exe = vf.build(ctx, "stick", [f"{vf.HARN}/stick_h.cpp", f"{N}/Stickify.cpp", f"{N}/Convert.cpp"], cflags=[f"-I{vf.HARN}/zdnn"],
                   cxxflags=vf.MLIR_CXX, ldflags=vf.MLIR_LINK)
    hs = []
    k, lim = (60, 6000) if ctx.thorough else (12, 2500)
    for lay in RANK:
        for _ in range(k):
            hs.append(history(r, lay, PLAIN, shape(r, lay, lim)))
        for _ in range(k // 2):
            hs.append(history(r, lay, PLAIN, shape(r, lay, 400), ty=r.choice(["FP32", "FP32", "FP32", "FP16", "BFLOAT", "INT8", "INT32"]), walk=True))
        for use in ("qdlf", "qint", "qw"):
            if lay == "HWCK" or lay == "NCHW" and use == "qw":
                continue
            for _ in range(k if use == "qw" else 4):
                hs.append(history(r, lay, dict(PLAIN, use=use), shape(r, lay, lim), ty="INT8"))
    for rnn in ("lstm", "gru"):
        for prev in ("uni", "bidir"):
            for use in ("w", "hw", "b", "hb"):
                u = dict(use=use, rnn=rnn, prev=prev)
                own = "2DS" if use in ("b", "hb") else "3DS"
                for i in range(k):
                    sh = shape(r, own, lim // 3)
                    if i % 4 and use == "w" and prev == "bidir" and sh[1] % 2:
                        sh[1] += 1
                    hs.append(history(r, own, u, sh))
                hs.append(history(r, own, u, shape(r, own, 300), walk=True))
                for lay in ("2D", "3D", "2DS", "3DS"):
                    hs.append(history(r, lay, u, shape(r, lay, 400)))
    # numbers: every pattern widened; around every pattern and between it and the next
    for a in range(0, 65536, 512):
        hs.append([dict(op="back", first=a, n=512)])
    us = []
    step = 1 if ctx.thorough else 7
    for p in sorted(set(range(r.randrange(step), 32767, step)) | set(range(20)) | set(range(32740, 32767)) | {e * 512 + d for e in range(64) for d in (0, 1, 511)}):
        e, f = p // 512, p % 512
        u = ((e - 31 + 127) << 23) | (f << 14)
        us += [u | r.choice([0, 1 << 31]) for u in (u, u + 8191, u + 8192, u + 8193, u + 1, u - 1, u + r.randrange(16384))]
    us += [0, 1 << 31, 1, 0x007FFFFF, 0x00800000, 0x7F7FFFFF, 0xFF7FFFFF, 0x7F800000, 0xFF800000, 0x7FC00000, 0xFFC00000, 0x7F800001]
    us += [r.getrandbits(32) for _ in range(20000 if ctx.thorough else 3000)]
    for i in range(0, len(us), 400):
        c = [u & 0xFFFFFFFF for u in us[i:i + 400]]
        hs.append([dict(op="conv", hex=[f"{u:08x}" for u in c], vs=[fields(u) for u in c])])

    def what(h, l):
        e = dict(h[l - 2])
        for f in ("vs", "d"):
            e.pop(f, None)
        return "; ".join(cmd(x)[:120] for x in h[max(0, l - 4):l - 1]) + " -> observed " + str(e.get("obs"))[:500]
    r.shuffle(hs)
    vf.record_and_validate(ctx, exe, "Stickify", hs, cmd, consts=CONST, what=what)
    ctx.assumptions.append("the interface of IBM's zDNN library (harness/zdnn/zdnn.h) is a stand-in: the library is not installed")
