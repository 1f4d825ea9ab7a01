"""Runs models of onnxgen through the compiler (harness/omc.cpp) in several
forms and turns what happened into the "obs" event of OnnxRun.tla."""
import queue
import random
import subprocess
import threading

import onnxgen as og
import vf

RT = {"ui8": "u8", "ui16": "u16", "ui32": "u32", "ui64": "u64"}
BAD = -1999999999


def code(ty, s):
    """(exact code, value times a thousand)"""
    if ty in og.FLOATS:
        v = float(s)
        if v != v:
            return og.NAN, BAD
        if abs(v) == float("inf"):
            return (og.INF if v > 0 else og.NINF), BAD
        c = round(v * 4)
        c = c if c == v * 4 and abs(c) < 1900000000 else BAD
        w = round(v * 1000)
        return c, w if abs(w) < 1900000000 else BAD
    c = int(s)
    return (c if abs(c) < 1900000000 else BAD), 0


def tensor(line):
    p = line.split(" ")
    if len(p) < 2 or p[0] == "?":
        return dict(ty="?", sh=[], v=[], w=[])
    ty = RT.get(p[0], p[0])
    sh = [] if p[1] == "-" else [int(x) for x in p[1].split(",")]
    cs = [code(ty, x) for x in p[2].split(",")] if len(p) > 2 and p[2] else []
    return dict(ty=ty, sh=sh, v=[c[0] for c in cs], w=[c[1] for c in cs])


def mtype(t):
    t = t.strip()
    if not t.startswith("tensor<"):
        return dict(ty="?", ranked=0, sh=[])
    b = t[7:-1].split("x")
    if b[0] == "*":
        return dict(ty=RT.get(b[-1], b[-1]), ranked=0, sh=[])
    return dict(ty=RT.get(b[-1], b[-1]), ranked=1, sh=[-1 if d == "?" else int(d) for d in b[:-1]])


def show(ty, c):
    if ty in og.FLOATS:
        return {og.NAN: "nan", og.INF: "inf", og.NINF: "-inf"}.get(c) or repr(c / 4)
    return str(c)


class Died(Exception):
    pass


SLOW = []


class Omc:
    def __init__(s, exe, opts):
        s.exe, s.opts = exe, opts
        s.p = None

    def start(s):
        s.p = subprocess.Popen([s.exe, *s.opts], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, bufsize=1)
        s.err = []
        s.reader = threading.Thread(target=lambda p, e: [e.append(l) or (len(e) > 60 and e.pop(0)) for l in p.stderr], args=(s.p, s.err), daemon=True)
        s.reader.start()

    def ask(s, lines):
        if not s.p:
            s.start()
        try:
            s.p.stdin.write("\n".join(lines) + "\n")
            s.p.stdin.flush()
        except BrokenPipeError:
            pass
        return s.line()

    def late(s):
        SLOW.append(s.opts)
        s.p.kill()

    def line(s):
        # plenty of time, unless the compiler keeps hanging
        t = threading.Timer(120 if len(SLOW) < 9 else 15, s.late)
        t.start()
        try:
            l = s.p.stdout.readline()
        finally:
            t.cancel()
        if not l:
            s.p.wait()
            rc = s.p.returncode
            s.p = None
            s.reader.join(20)
            e = [x for x in s.err if "Assertion" in x or "rror" in x or "ERIFY" in x]
            raise Died(f"exit {rc}: " + (e[0] if e else "".join(s.err[:2])).strip()[:300])
        return l.rstrip("\n")

    def close(s):
        if s.p:
            try:
                s.p.stdin.write("quit\n")
                s.p.stdin.flush()
                s.p.wait(10)
            except Exception:
                s.p.kill()
            s.p = None


def one(omc, text, ins, times=1, direct=False, stop=None):
    """Returns dict(stage=..., msg=..., types, consts, runs)."""
    r = dict(stage="done", msg="", types=None, consts=None, runs=[])
    try:
        a = omc.ask([f"model {len(text)}"] + text)
        if not a.endswith("ok"):
            return dict(r, stage="parse", msg=a)
        if not direct:
            a = omc.ask(["opt"])
            if not a.endswith("ok"):
                return dict(r, stage="opt", msg=a)
            r["types"] = [mtype(t) for t in omc.ask(["types"])[6:].split(";") if t.strip()]
            n = int(omc.ask(["consts"]).split()[1])
            r["consts"] = [tensor(omc.line()) for _ in range(n)]
        if stop == "types":
            return r
        a = omc.ask(["compile"])
        if not a.endswith("ok"):
            return dict(r, stage="compile", msg=a)
        for _ in range(times):
            a = omc.ask([f"run {len(ins)}"] + [
                f"{og.mt(ty)} {','.join(map(str, sh)) or '-'} {','.join(show(ty, c) for c in v)}" for _, ty, sh, v in ins])
            if not a.startswith("out "):
                return dict(r, stage="run", msg=a)
            k = a.split()
            outs = [tensor(omc.line()) for _ in range(int(k[1]))]
            r["runs"].append(dict(out=outs, inputs=int(k[2]), left=int(k[3])))
    except Died as e:
        r.update(stage="died", msg=str(e))
    return r


def run_models(exe, jobs, n=8, times=1, stop=None):
    """jobs: list of (model, [form...]).
    Returns results[i] = list of (form, text, ins, result)."""
    res = [None] * len(jobs)
    q = queue.Queue()
    for i in range(len(jobs)):
        q.put(i)

    def work(k):
        pool = {}
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                break
            m, forms = jobs[i]
            out = []
            for f in forms:
                rng = random.Random(f["seed"])
                text, ins = og.text(m, f, rng)
                o = tuple(f.get("opts", ()))
                if o not in pool:
                    pool[o] = Omc(exe, o)
                out.append((f, text, ins, one(pool[o], text, ins, times, f.get("direct", False), stop)))
            res[i] = out
        for o in pool.values():
            o.close()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res
