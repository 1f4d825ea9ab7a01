#!/opt/vp/venv/bin/python
"""Drives the Python session over a stand-in model.
argv: folder with PyRuntimeC*.so, PyRuntime.py's folder, model, tracker."""
import ctypes, gc, json, os, sys
sys.dont_write_bytecode = True
real = os.dup(1)
os.dup2(2, 1)
sys.path[:0] = [sys.argv[1], sys.argv[2]]
import numpy as np
trk = ctypes.CDLL(sys.argv[4])
mdl = ctypes.CDLL(sys.argv[3])
mdl.ctl_seen.restype = ctypes.c_char_p
import PyRuntime

K = dict(echo=0, aligned=1, const=2, alias=3, dup=4, off=5, val=6, str=7, fp8=8, bf16=9, nullt=10, behind=11, valal=12)
FAIL = {"": 0, "null": 1, "segv": 2, "abrt": 3}
NAME = {"f4": 1, "u1": 2, "i1": 3, "u2": 4, "i2": 5, "i4": 6, "i8": 7, "O": 8, "?": 9, "f2": 10, "f8": 11, "u4": 12, "u8": 13, "c8": 14, "c16": 15}
NUM = {v: k for k, v in NAME.items()}
N = 64


def npdt(dt):
    if dt in ("Oint", "Omix"):
        return np.dtype("O")
    if dt == "rec":
        return np.dtype([("a", "i4"), ("b", "f4")])
    return np.dtype(dt)


def enc(dt, v):
    """One element: an object, or the bytes of value number v."""
    if dt == "O":
        return ["", "a", "é", "x" * 9][v % 4] + (str(v) if v else "")
    if dt == "Oint":
        return v
    if dt == "Omix":
        return v if v % 3 == 0 else str(v)
    d = npdt(dt)
    if dt == "?":
        return bytes([v % 2])
    if d.kind == "f" and d.itemsize <= 8:
        sp = [-0.0, float("inf"), float("nan"), float("-inf")]
        return np.array([sp[v] if v < 4 else v * 0.5 - 7], d).tobytes()
    if d.kind == "c":
        return np.array([complex(v - 3, float("nan") if v == 1 else 2.5 * v + 1)], d).tobytes()
    if d.kind == "i":
        return np.array([v - 5 if v % 5 else (1 << (8 * d.itemsize - 1)) - 1 - v], d).tobytes()
    if d.kind == "u":
        return np.array([v if v % 5 else (1 << (8 * d.itemsize)) - 1 - v], d).tobytes()
    return (bytes([v]) * d.itemsize)[:d.itemsize]


DEC = {}
for _dt in NAME:
    DEC[_dt] = {}
    for _v in range(N):
        e = enc(_dt, _v)
        DEC[_dt].setdefault(e.encode() if isinstance(e, str) else e, _v)


def make(dt, vals, mis):
    d = npdt(dt)
    if d.kind == "O":
        a = np.empty(len(vals), d)
        for i, v in enumerate(vals):
            a[i] = enc(dt, v)
        return a
    raw = b"".join(enc(dt, v) for v in vals)
    a = np.frombuffer(bytearray(b"\0" * mis + raw), dtype=d, offset=mis, count=len(vals)) if len(vals) or mis else np.zeros(0, d)
    return a


def elems(a, dt):
    """Value numbers in logical order."""
    r = []
    for ix in np.ndindex(*a.shape):
        x = a[ix]
        if dt not in NAME:
            r.append(0)
        elif dt == "O":
            r.append(DEC[dt].get(x.encode(), -1) if isinstance(x, str) else -2)
        else:
            r.append(DEC[dt].get(np.asarray(x).tobytes(), -1))
    return r


def dtcode(a):
    for k in NAME:
        if a.dtype == np.dtype(k) and a.dtype.isnative:
            return k
    return str(a.dtype)


def one(h):
    """The value of an output of the ownership walks."""
    a = [int(x) for x in h]
    v = a[0] - (1000 if len(a) == 2 else 0)
    return v if [x - v for x in a] == ([1000, 2000] if len(a) == 2 else [0, 1000, 2000]) else -9


bases, views, outs, slots = {}, {}, {}, {}
sess = None
anon0 = 0


def ctl(outspec, fail):
    ks = (ctypes.c_int * 16)(*[K[o["k"]] for o in outspec])
    ar = (ctypes.c_int * 16)(*[o["a"] for o in outspec])
    mdl.ctl(len(outspec), ks, ar, FAIL[fail])


def newsess(**kw):
    return PyRuntime.OMExecutionSession(sys.argv[3], tag="NONE", **kw)


def call(s, arrays, mode):
    if mode == "plain":
        return s.run(arrays)
    return s.run_debug(arrays, with_signal_handler="s" in mode, force_output_data_copy="c" in mode)


def health():
    gc.collect()
    return dict(named=trk.trk_named(), leak=trk.trk_anon() - anon0, bad=trk.trk_bad())


inp = None
for line in sys.stdin:
    r = {}
    try:
        w = line.split(" ", 1)
        e = json.loads(w[1]) if len(w) > 1 else {}
        op = w[0].strip()
        if op == "RESET":
            for d in (bases, views, outs, slots):
                d.clear()
            sess = inp = None
            gc.collect()
            r["named"] = trk.trk_named()
            trk.trk_reset()
            anon0 = 0
            sess = newsess()
            inp = np.array([0, 1000, 2000], np.int64)
        elif op == "base":
            a = make(e["dt"], e["vals"], e["mis"])
            bases[e["id"]] = (a, e["dt"])
            views[e["id"]] = a
            r["elems"] = elems(a, e["dt"])
        elif op == "view":
            a = views[e["of"]]
            f, x = e["f"], e["x"]
            if f == "shape":
                a = a.reshape(x, order="C")
            elif f == "shapeF":
                a = a.reshape(x, order="F")
            elif f == "perm":
                a = a.transpose([i - 1 for i in x])
            elif f == "slice":
                ax, start, step, n = x
                stop = start + step * n
                ix = [slice(None)] * a.ndim
                ix[ax - 1] = slice(start, None if stop < 0 else stop, step) if n else slice(0, 0)
                a = a[tuple(ix)]
            elif f == "new":
                a = np.expand_dims(a, x[0] - 1)
            elif f == "index":
                ix = [slice(None)] * a.ndim
                ix[x[0] - 1] = x[1]
                a = a[tuple(ix + [...])]
            elif f == "bcast":
                s = list(a.shape)
                s[x[0] - 1] = x[1]
                a = np.broadcast_to(a, s)
            elif f == "ro":
                a = a[...]
                a.flags.writeable = False
            views[e["id"]] = a
            dt = e["dt"]
            r["elems"] = elems(a, dt)
            r["shape"] = list(a.shape)
        elif op == "run":
            ctl(e["outs"], e["fail"])
            s = newsess(use_default_entry_point=False) if e["noentry"] else sess
            got = []
            try:
                got = call(s, [views[i] for i in e["ins"]], e["mode"])
                r["err"] = 0
            except RecursionError:
                raise
            except Exception as x:
                r["err"] = 1
                r["msg"] = f"{type(x).__name__}: {x}"[:200]
            del s
            sn = json.loads(mdl.ctl_seen() or b"[]")
            r["seen"] = [dict(dt=NUM.get(t["dt"], "?%d" % t["dt"]), shape=t["shape"], elems=[DEC.get(NUM.get(t["dt"]), {}).get(bytes.fromhex(h), -1) for h in t["raw"]]) for t in sn]
            r["outs"] = [dict(dt=dtcode(a), shape=list(a.shape), elems=elems(a, dtcode(a))) for a in got]
            for j, i in enumerate(e["keep"]):
                if j < len(got):
                    outs[i] = got[j]
            got = None
            r["after"] = [elems(b, dt) for b, dt in bases.values()]
        elif op == "drop":
            for i in e["outs"]:
                outs.pop(i, None)
        elif op == "scratch":   # the caller overwrites all the arrays passed
            for b, dt in bases.values():
                if dt in NAME:
                    if b.dtype.kind == "O":
                        for i in range(len(b)):
                            b[i] = enc("O", 63)
                    else:
                        b[...] = np.frombuffer(enc(dt, 63), b.dtype)
            if e["forget"]:
                bases.clear()
                views.clear()
            r["after"] = [elems(b, dt) for b, dt in bases.values()]
        elif op == "close":
            sess = None
        elif op == "look":
            r["vals"] = [dict(id=i, dt=dtcode(a), shape=list(a.shape), elems=elems(a, dtcode(a))) for i, a in sorted(outs.items())]
        elif op == "fill":
            mdl.ctl_sig(e["sig"].encode())
            try:
                got = sess.fill_input_debug(seed=e["seed"], value_info=e["vi"])
                r["err"] = 0
                r["outs"] = [dict(dt=dtcode(a), shape=list(a.shape), good=int(all(isinstance(x, str) for x in a.flat) if a.dtype.kind == "O" else all(x == e["val"] for x in a.flat))) for a in got]
                del got
            except Exception as x:
                r["err"] = 1
                r["msg"] = f"{type(x).__name__}: {x}"[:200]
        # ---- ownership walks
        elif op == "orun":
            ctl(e["outs"], e["fail"])
            n = 0
            try:
                got = call(sess, [inp], e["mode"])
                n = len(got)
                free = [i for i in (1, 2, 3, 4, 5) if i not in slots]
                for i, a in zip(free, got):
                    slots[i] = a
                del got, a
                r["err"] = 0
            except RecursionError:
                raise
            except Exception as x:
                r["err"] = 1
                r["msg"] = f"{type(x).__name__}: {x}"[:200]
        elif op == "odel":
            del slots[e["i"]]
        elif op == "oview":
            slots[e["i"]] = slots[e["i"]][...]
        elif op == "owrite":
            slots[e["i"]][...] = [99 + 1000 * i for i in range(len(slots[e["i"]]))] if slots[e["i"]].dtype.kind != "O" else [str(99 + 1000 * i) for i in range(3)]
            if len(slots[e["i"]]) == 2:
                slots[e["i"]][...] = [1099, 2099]
        elif op == "oin":
            v = e["v"]
            if e["how"] == "new":
                inp = np.array([v, v + 1000, v + 2000], np.int64)
            else:
                inp[...] = [v, v + 1000, v + 2000]
        elif op == "oclose":
            sess = None
        elif op == "oopen":
            sess = newsess()
        else:
            sys.exit(3)
        if op[0] == "o":
            r["vals"] = {str(i): one(a) for i, a in slots.items()}
            r["inp"] = one(inp)
        if op != "RESET":
            r.update(health())
    except KeyError:
        raise
    except Exception as x:
        r["exc"] = f"{type(x).__name__}: {x}"[:300]
    os.write(real, ("@" + json.dumps(r) + "\n").encode())
