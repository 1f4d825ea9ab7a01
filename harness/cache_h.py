#!/usr/bin/env python3
"""Drives torch_onnxmlir/sessioncache.py with stand-in sessions.
argv: sessioncache.py, capacity."""
import copy, importlib.util, json, os, shutil, sys, tempfile, types
sys.dont_write_bytecode = True
base = tempfile.mkdtemp(prefix="cache-", dir=os.getcwd())


class InferenceSession:
    """Stands for the real session: knows its library and what was in it."""

    def __init__(self, path, tag="", **kw):
        self.path, self.tag = str(path), tag
        self.body = open(path).read()

    def get_shared_lib_path(self):
        return self.path

    def compilation_info(self):
        return "{}"

    def input_signature(self):
        return "in" + self.body

    def output_signature(self):
        return "out" + self.body


m = types.ModuleType("om_pyrt")
m.InferenceSession = InferenceSession
sys.modules["om_pyrt"] = m
cap = int(sys.argv[2])
real = os.dup(1)
sys.stdout = open(os.devnull, "w")
os.environ["HOME"] = base
mod = None
n = 0
cache = None
puts = {}


def load():
    global mod
    spec = importlib.util.spec_from_file_location("sessioncache", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    sys.modules["sessioncache"] = mod
    spec.loader.exec_module(mod)


def fresh():
    global cache
    os.environ["TORCHONNXMLIR_CACHE_DIR"] = root
    load()
    cache = mod.SessionCache(cap)


def make(k, v):
    d = tempfile.mkdtemp(prefix="src-", dir=base)
    p = os.path.join(d, f"model{k}.so")
    open(p, "w").write(f"{k}/{v}")
    open(os.path.join(d, "model.constants.bin"), "w").write("c%s" % v)
    open(os.path.join(d, "junk.o"), "w").write("x")
    return mod.CacheValue(tag=k, sess=InferenceSession(p, tag=k), example_inputs_indices=list(range(int(v))))


def show(k, c):
    if c is None:
        return 0
    kk, v = c.sess.body.split("/")
    good = kk == k and c.tag == k and c.sess.tag == k and list(c.example_inputs_indices) == list(range(int(v)))
    return int(v) if good else -5


def order():
    c = copy.deepcopy(cache)
    c.capacity = 1
    o = []
    while len(c) and len(o) < 20:
        o.append(c.victim())
    return o


for line in sys.stdin:
    w = line.split()
    if not w:
        continue
    r = {}
    try:
        if w[0] == "RESET":
            shutil.rmtree(base, True)
            os.mkdir(base)
            n += 1
            root = os.path.join(base, "c%d" % n, "sub")
            fresh()
        elif w[0] == "put":
            cache.put(w[1], make(w[1], w[2]), w[3] == "1") if w[3] == "0" else cache.put(w[1], make(w[1], w[2]))
        elif w[0] == "insert":
            cache.victim()
            cache.put(w[1], make(w[1], w[2]))
        elif w[0] == "victim":
            r["victim"] = cache.victim()
        elif w[0] == "get":
            r["got"] = show(w[1], cache.get(w[1]))
        elif w[0] == "again":
            c = cache.get(w[1])
            r["got"] = show(w[1], c)
            cache.put(w[1], c)
        elif w[0] == "remove":
            cache.remove(w[1])
        elif w[0] == "clear":
            cache.clear()
        elif w[0] == "rmdisk":
            shutil.rmtree(os.path.join(root, w[1]))
        elif w[0] == "restart":
            fresh()
        r["len"] = len(cache)
        r["held"] = sorted(k for k in ("k1", "k2", "k3", "k4") if k in cache)
        r["order"] = order()
        r["disk"] = {k: open(os.path.join(root, k, f"model{k}.so")).read().split("/")[-1] for k in sorted(os.listdir(root))}
    except Exception as e:
        r["exc"] = f"{type(e).__name__}: {e}"
    os.write(real, ("@" + json.dumps(r) + "\n").encode())
shutil.rmtree(base, True)
