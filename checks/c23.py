"""C23: every pattern widened, wide values around every rounding boundary
narrowed; each conversion decided by SmallFloat.tla."""
import struct
import vf

FM = dict(f16=(16, 10, 15, 31743), bf16=(16, 7, 127, 32639), e5m2=(8, 2, 15, 123), e4m3fn=(8, 3, 7, 126), e4m3fnuz=(8, 3, 8, 127), e5m2fnuz=(8, 2, 16, 127))


def val(fmt, p):
    w, mb, bias, mx = FM[fmt]
    ef, man = p >> mb, p & ((1 << mb) - 1)
    return man * 2.0 ** (1 - bias - mb) if ef == 0 else (2**mb + man) * 2.0 ** (ef - bias - mb)


def f32bits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def wide32(u):
    s, e, m = u >> 31, (u >> 23) & 255, u & 0x7FFFFF
    if e == 255:
        return ["nan", 0, 0, 0] if m else ["inf", s, 0, 0]
    return ["fin", s, m, -149] if e == 0 else ["fin", s, m | 0x800000, e - 150]


def wide64(u):
    s, e, m = u >> 63, (u >> 52) & 2047, u & ((1 << 52) - 1)
    if e == 2047:
        return ["nan", 0, 0, 0] if m else ["inf", s, 0, 0]
    if e == 0:
        return ["fin", s, 1 if m else 0, -1000 if m else 0]
    m |= 1 << 52
    return ["fin", s, (m >> 26) | (1 if m & ((1 << 26) - 1) else 0), e - 1075 + 26]


def cmd(e):
    if e["op"] == "widen":
        return f"widen {e['fmt']} {e['first']} {e['n']}"
    if e["op"] == "narrow":
        return f"narrow {e['fmt']} {e['ty']} " + " ".join(e["hex"])
    if e["op"] == "eq":
        return f"eq {e['fmt']} " + " ".join(f"{a} {b}" for a, b in e["ps"])
    return f"max {e['fmt']}"


def run(ctx):
    rng = ctx.rng
    vf.tlc(ctx, "SmallFloat", "SPECIFICATION SelfSpec\nINVARIANT SelfOK\nCHECK_DEADLOCK FALSE\n")
    builds = [("fp", [])]
    if "f16c" in open("/proc/cpuinfo").read():
        builds.append(("fp_native", ["-mf16c"]))
    for name, fl in builds:
        exe = vf.build(ctx, name, [f"{vf.HARN}/fp_h.cpp", "src/Support/SmallFP.cpp", "src/Support/SmallFPConversion.c"], cflags=fl,
                       cxxflags=vf.MLIR_CXX, ldflags=vf.MLIR_LINK, san=False)
        hs = []
        for fmt, (w, mb, bias, mx) in FM.items():
            if fl and fmt != "f16":
                continue
            hs.append([dict(op="max", fmt=fmt)])
            for first in range(0, 1 << w, 256):
                hs.append([dict(op="widen", fmt=fmt, first=first, n=256)])
            v32, v64 = [], []
            step = 1 if w == 8 or ctx.thorough else 5
            off = rng.randrange(step)
            ps = sorted(set(range(off, mx, step)) | set(range(0, min(mx, 40))) | set(range(mx - 40, mx)) | {mx} |
                        {k << mb for k in range((mx >> mb) + 1)} | {(k << mb) - 1 for k in range(1, (mx >> mb) + 1)})
            for p in ps:
                a = val(fmt, p)
                b = val(fmt, p + 1)        # above the largest: where the next step would be
                mid = (a + b) / 2
                sg = rng.choice([0, 1 << 31])
                for x in (mid,):
                    if x > 3.4028234663852886e38:
                        x = 3.4028234663852886e38
                    u = f32bits(x)
                    for d in (-1, 0, 1):
                        if 0 <= u + d <= 0x7F800000:
                            v32.append((u + d) | sg)
                    u = struct.unpack("<Q", struct.pack("<d", mid))[0]
                    for d in (-1, 0, 1):
                        v64.append((u + d) | (sg << 32))
                u = f32bits(a) if a < 3.4e38 else 0x7F7FFFFF
                v32 += [u | sg, (u + 1) | sg, u + (rng.randrange(1 << 14)), max(0, u - 1)]
            v32 += [0, 1 << 31, 0x7F800000, 0xFF800000, 0x7FC00000, 0xFFC00000, 0x7F800001, 0xFF800001, 0x7FFFFFFF, 0xFFFFFFFF, 0x7F80FFFF, 0x7F808000, 1, 0x80000001,
                    0x7F7FFFFF, 0xFF7FFFFF, 0x007FFFFF, 0x00800000]
            v32 += [rng.getrandbits(32) for _ in range(2000)] + [f32bits(float(rng.randint(-70000, 70000))) for _ in range(1000)]
            v64 += [0, 1 << 63, 0x7FF << 52, 0xFFF << 52, 0x7FF8 << 48, 0x7FEFFFFFFFFFFFFF] + [rng.getrandbits(64) for _ in range(1000)]
            for ty, vs, wf, wd in (("f", v32, wide32, 8), ("d", v64 if not fl else [], wide64, 16)):
                for i in range(0, len(vs), 300):
                    c = vs[i:i + 300]
                    hs.append([dict(op="narrow", fmt=fmt, ty=ty, hex=[f"{u:0{wd}x}" for u in c], vs=[wf(u) for u in c])])
            special = [0, 1 << (w - 1), mx, mx + 1, (1 << (w - 1)) | mx, (1 << w) - 1, 1, (1 << (w - 1)) | 1]
            prs = [[a, b] for a in special for b in special] + [[rng.randrange(1 << w)] * 2 for _ in range(100)] + [[rng.randrange(1 << w), rng.randrange(1 << w)] for _ in range(100)]
            hs.append([dict(op="eq", fmt=fmt, ps=prs)])

        def what(h, l):
            e = h[l - 2]
            return f"{e['op']} {e['fmt']} {e.get('first', '')} {e.get('hex', e.get('ps', ''))} -> {e['obs']}"[:1500]
        vf.record_and_validate(ctx, exe, "SmallFloat", hs, cmd, label=f"[{name}] ", what=what, post=lambda h: [{k: v for k, v in e.items() if k != "ps" or e["op"] == "eq"} for e in h])
    ctx.assumptions.append("narrowing from double is decided for the APFloat route; the converting constructor goes through float by its documentation")
