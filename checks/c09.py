"""C09: recorded histories of execution sessions over stand-in model
libraries, decided by ExecSess.tla."""
import os, subprocess
import vf

FULL = ("omQueryEntryPoints", "omInputSignature", "omOutputSignature", "omCompilationInfo")
# file: {tag suffix: (runtime symbols, entry points)}, instrumentation printing
LIBS = {
    "a/m1.so": ({"_m1": (FULL, ["run_main_graph_m1", "run_second_m1"])}, 1),
    "b/m2.so": ({"": (FULL, ["run_main_graph", "run_other"])}, 0),
    "a/MyModel.so": ({"_mymodel": (FULL, ["run_main_graph_mymodel"])}, 1),
    "c/two.so": ({"_two": (FULL, ["run_main_graph_two", "run_x_two"]), "_Alt": (FULL, ["run_main_graph_Alt"]), "": (FULL, ["run_main_graph", "run_y"])}, 1),
    "c/v1.2.so": ({"_v1.2": (FULL, ["run_main_graph_v1.2"]), "_v1": (FULL, ["run_main_graph_v1"])}, 0),
    "c/noin.so": ({"_noin": ((FULL[0], FULL[2], FULL[3]), ["run_main_graph_noin"]), "": (FULL, ["run_main_graph"])}, 0),
    "c/noout.so": ({"_noout": ((FULL[0], FULL[1], FULL[3]), ["run_main_graph_noout"])}, 1),
    "c/noq.so": ({"_noq": (FULL[1:], ["run_main_graph_noq"]), "_q": (FULL, ["run_main_graph_q"])}, 1),
    "d d/noinfo.so": ({"_noinfo": (FULL[:3], ["run_main_graph_noinfo"])}, 0),
    "d d/nodef.so": ({"_nodef": (FULL, ["run_a_nodef", "run_b_nodef"])}, 1),
    "flat/plain": ({"_plain": (FULL, ["run_main_graph_plain"])}, 1),
    "flat/flat.so": ({"_flat": (FULL, ["run_main_graph_flat"])}, 1),
}


def source(name, tags, prt):
    o = ["#include <stdint.h>", "#include <stdio.h>", "extern void vf_ctor(const char*), vf_dtor(const char*), vf_print(const char*); extern void *vf_run(const char*, const char*, void*);",
         f'__attribute__((constructor)) static void ct(void) {{ vf_ctor("{name}"); }}', f'__attribute__((destructor)) static void dt(void) {{ vf_dtor("{name}"); }}']
    if prt:
        o.append(f'void omInstrumentPrint(void) {{ vf_print("{name}"); }}')
    n = 0
    for low, (syms, entries) in tags.items():
        for s in syms:
            n += 1
            q = f'__asm__("{s}{low}")'
            if s == FULL[0]:
                o.append(f'const char **f{n}(int64_t*) {q}; const char **f{n}(int64_t *n) {{ static const char *e[] = {{ {", ".join(chr(34) + x + chr(34) for x in entries)}, 0 }}; if (n) *n = {len(entries)}; return e; }}')
            elif s == FULL[3]:
                o.append(f'const char *f{n}(void) {q}; const char *f{n}(void) {{ return "{{ \\"info\\" : \\"{name}{low}\\" }}"; }}')
            else:
                io = "in" if s == FULL[1] else "out"
                o.append(f'const char *f{n}(const char*) {q}; const char *f{n}(const char *e) {{ static char b[300]; snprintf(b, 300, "[ {{ \\"type\\" : \\"i64\\" , \\"dims\\" : [1 , 3] , \\"name\\" : \\"{io}/{name}{low}/%s\\" }} ]", e); return b; }}')
        for s in entries:
            n += 1
            o.append(f'void *f{n}(void*) __asm__("{s}"); void *f{n}(void *i) {{ return vf_run("{name}", "{s}", i); }}')
    return "\n".join(o) + "\n"


def hx(s):
    return s.encode().hex() or "-"


def cmd(e):
    op = e["op"]
    if op == "env":
        return "env " + ("unset" if e["val"] == "<unset>" else hx(e["val"]))
    if op == "sigs":
        return "sigs " + e["s"]
    c = f"{op} {e['k']}"
    if op in ("new", "load"):
        return f"{c} {hx(''.join(e['path']))} {hx(''.join(e['tag']))} {int(e['deflt'])}"
    if op == "set":
        return f"{c} {hx(e['name'])}"
    if op == "fill":
        return f"{c} {e['seed']}"
    if op == "run":
        return f"{c} {e['var']} {e['mode']} {e['n']} {e['stamp']} {','.join(map(str, e['ins'])) or '-'}"
    return c


def run(ctx):
    exe = vf.build(ctx, "exec", [f"{vf.HARN}/exec_h.cpp", "src/Runtime/ExecutionSession.cpp", "src/Runtime/OMTensorHelper.cpp", "src/Runtime/OMTensorListHelper.cpp", "src/Runtime/OMTensor.c", "src/Runtime/OMTensorList.c",
                                 "src/Support/SmallFPConversion.c", "src/Runtime/OnnxDataType.c", "src/Runtime/OMInstrument.c"], ldflags=["-rdynamic"])
    rng = ctx.rng
    base = os.path.join(ctx.work, "m")
    libs = {}
    procs = []
    for f, (tags, prt) in LIBS.items():
        p = os.path.join(base, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p + ".c", "w").write(source(f, tags, prt))
        procs.append(subprocess.Popen(["gcc", "-shared", "-fPIC", "-w", "-o", p, p + ".c"]))
        libs[f] = dict(id=f, elf=True, syms=sorted({s + low for low, (ss, _) in tags.items() for s in ss} | {x for _, es in tags.values() for x in es} | ({"omInstrumentPrint"} if prt else set())),
                       entries={low: es for low, (_, es) in tags.items()})
    if any(p.wait() for p in procs):
        raise vf.CheckError("cannot build the stand-in models")
    open(base + "/c/bad.so", "w").write("not a library\n")
    none = dict(id="", elf=False, syms=["-"], entries={"-": ["-"]})
    allent = sorted({x for t, _ in LIBS.values() for _, es in t.values() for x in es})

    def load(op, k):
        f = rng.choice(list(LIBS) + ["a/m1.so", "c/two.so", "b/m2.so", "c/bad.so", "c/missing.so"])
        lib = libs.get(f, none)
        path = rng.choice([f"{base}/{f}", f"m/{f}", f"./m/{f}"])
        if f.startswith("flat/") and rng.random() < .6:
            path = f[5:]
        tags = [t[1:] for t in lib["entries"] if t] + ["NONE", "none", "nosuch", "M1", "alt", "Alt", "None", "nonex"]
        tag = rng.choice(["", "", "", rng.choice(tags), rng.choice(tags)])
        if f == "b/m2.so" and rng.random() < .7:
            tag = rng.choice(["NONE", "none", "NoNe"])
        return dict(op=op, k=k, path=list(path), tag=list(tag), deflt=rng.random() < .7, lib=lib)

    def history():
        h = []
        state = {1: "absent", 2: "absent"}
        last = {}
        for _ in range(rng.randint(3, 40)):
            r = rng.random()
            k = rng.randint(1, 2)
            if r < .06:
                h.append(dict(op="env", val=rng.choice(["<unset>", "<unset>", "", "/x y", base])))
            elif r < .10:
                h.append(dict(op="sigs", s="".join(rng.choice("dihso") for _ in range(5))))
            elif state[k] == "absent":
                if rng.random() < .25:
                    h.append(dict(op="raw", k=k))
                    state[k] = "some"
                else:
                    e = load("new", k)
                    h.append(e)
                    e["maybe"] = 1
                    # whether it succeeds is for the specification; keep the generator's idea of it
                    low = e["tag"] and "".join(e["tag"]) or os.path.splitext(os.path.basename("".join(e["path"])))[0].lower()
                    low = "" if low.lower() == "none" else "_" + low
                    s = set(e["lib"]["syms"])
                    if all(x + low in s for x in FULL[:3]) and (not e["deflt"] or "run_main_graph" + low in s):
                        state[k] = "some"
                        last[k] = e["lib"]
            elif r < .2:
                e = load("load", k)
                h.append(e)
                last.setdefault(k, e["lib"])
            elif r < .27:
                h.append(dict(op="end", k=k))
                state[k] = "absent"
                last.pop(k, None)
            elif r < .4:
                own = [x for es in last.get(k, none)["entries"].values() for x in es]
                h.append(dict(op="set", k=k, name=rng.choice(own) if own and rng.random() < .6 else rng.choice(allent + ["run_none", "run_main_graph_", "", "run_main_grap"])))
            elif r < .65:
                h.append(dict(op=rng.choice(["query", "insig", "outsig", "info", "print", "path", "insig", "outsig"]), k=k))
            elif r < .68:
                h.append(dict(op="fill", k=k, seed=rng.randint(0, 99)))
            else:
                var = rng.choice(["vec", "list", "dbg0", "dbg1", "dbg1"])
                mode, n = rng.choice([("ok", rng.randint(0, 3)), ("ok", rng.randint(0, 3)), ("null", rng.choice([1, 2, 5, 12, 22, 95])), ("crash", rng.choice([11, 7, 8, 4, 6]))])
                if mode == "crash" and var != "dbg1":
                    mode, n = "ok", 1
                h.append(dict(op="run", k=k, var=var, mode=mode, n=n, stamp=rng.randint(0, 1 << 30), ins=[rng.randint(0, 99) for _ in range(rng.randint(0, 3))]))
        return h
    hs = [history() for _ in range(1500 if not ctx.thorough else 15000)]
    vf.record_and_validate(ctx, exe, "ExecSess", hs, cmd, env=dict(LD_LIBRARY_PATH=base + "/flat"), chunk=3000,
                           what=lambda h, l: "; ".join(cmd(e) for e in h[max(0, l - 8):l - 1]) + " -> " + str(h[l - 2].get("obs"))[:700])
    ctx.add("runs", sum(e["op"] == "run" for h in hs for e in h))
    ctx.assumptions.append("signals are raised by the inferring thread; entry point names are no symbols of the C library; sessions are not copied")
