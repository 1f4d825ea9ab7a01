"""Shared by C03, C04, C05: typed value tables and the row_h harness."""
import struct
import vf

# dtype -> (struct format, ordered list of (key, value)); equal keys are equal values
I = float("inf")


def table(dt):
    ints = dict([(2, ("B", 0, 255)), (3, ("b", -128, 127)), (4, ("H", 0, 65535)), (5, ("h", -32768, 32767)),
                 (6, ("i", -2**31, 2**31 - 1)), (7, ("q", -2**63, 2**63 - 1)), (12, ("I", 0, 2**32 - 1)), (13, ("Q", 0, 2**64 - 1))])
    if dt in ints:
        f, lo, hi = ints[dt]
        vs = sorted({lo, lo + 1, lo // 2, -2, -1, 0, 1, 2, 3, 100, hi // 2, hi // 2 + 1, hi - 1, hi,
                     2**24, 2**24 + 1, 2**31 - 1, 2**31, 2**32, 2**53, 2**53 + 1, -2**31 - 1})
        vs = [v for v in vs if lo <= v <= hi]
        return f, [(i, v) for i, v in enumerate(vs)]
    if dt == 9:
        return "B", [(0, 0), (1, 1)]
    f, tiny, big = {1: ("f", 1.401298464324817e-45, 3.4028234663852886e38), 11: ("d", 5e-324, 1.7976931348623157e308),
                    10: ("e", 5.960464477539063e-08, 65504.0)}[dt]
    pos = [tiny, 2 * tiny, 0.5, 1.0, 1.5, 2.0, 1000.0, big, I]
    vs = sorted([-v for v in pos]) + [-0.0, 0.0] + pos
    k = {}
    return f, [(k.setdefault(v, len(k)), v) for v in vs]


DTYPES = [9, 2, 3, 4, 5, 12, 6, 13, 7, 10, 1, 11]


class Enc:
    def __init__(self, dt, rng, negzero=True):
        self.f, self.t = table(dt)
        self.dt, self.rng = dt, rng
        if not negzero:
            self.t = [(k, v) for k, v in self.t if not (isinstance(v, float) and v == 0 and str(v)[0] == "-")]
        self.bits = {struct.pack("<" + self.f, v): k for k, v in self.t}

    def domain(self, n):
        """n ordered entries of the table."""
        n = min(n, len(self.t))
        return sorted(self.rng.sample(range(len(self.t)), n))

    def pack(self, idx):
        return b"".join(struct.pack("<" + self.f, self.t[i][1]) for i in idx).hex() or "-"

    def keys(self, idx):
        return [self.t[i][0] for i in idx]

    def unpack(self, hx):
        b = bytes.fromhex(hx)
        s = struct.calcsize("<" + self.f)
        return [self.bits.get(b[i:i + s], -9) for i in range(0, len(b), s)]


def J(v):
    return ",".join(map(str, v)) or "-"


def rows_of(keys, n):
    return [keys[i:i + n] for i in range(0, len(keys), n)] if n else []


SRC = ["src/Runtime/OMSort.c", "src/Runtime/OMTopK.c", "src/Runtime/OMUnique.c", "src/Runtime/OMTensor.c",
       "src/Runtime/OMInstrument.c", "src/Runtime/OnnxDataType.c", "src/Support/SmallFPConversion.c"]


def exe(ctx):
    return vf.build(ctx, "row", SRC + [vf.HARN + "/row_h.cpp"])


def group(events, n=12):
    return [events[i:i + n] for i in range(0, len(events), n)]
