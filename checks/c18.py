"""C18: recorded histories of commands and their executions, decided by
CmdExec.tla; the programs started are stand-ins in a scratch directory."""
import os, shutil
import vf


def hx(s):
    return s.encode("latin1").hex() or "-"


def cmd(e):
    op = e["op"]
    if op == "new":
        return f"new {hx(e['path'])} {e['verbose']}"
    if op == "app":
        return f"app {hx(e['arg'])}"
    if op == "list":
        return " ".join(["list"] + [hx(x) for x in e["list"]])
    if op == "redir":
        return f"redir {hx(e['log'])}"
    if op == "cd":
        return f"cd {hx(e['dir'])}"
    if op == "exec":
        return f"exec {hx(e['wdir'])} {e['what']} {e['n']} {e['alarm']} {e['pending']} {hx(e['logpath'])}"
    return op


ARGS = ["a", "-O3", "a b", "", "\"q\"", "'q'", "$HOME", "`id`", "*", "\\", "a\\ b", "\t", "\n", "x\ny", "\xc3\xa9", "--x=\"1 2\"", ";", "|", "&", ">f", "-", "--", "%s%n", " ", "a" * 3000, "#", "~", "{a,b}", "=", "!1"]


def run(ctx):
    kid = vf.build(ctx, "kid", [f"{vf.HARN}/kid.c"], san=False)
    exe = vf.build(ctx, "cmd", [f"{vf.HARN}/cmd_h.cpp", "src/Compiler/Command.cpp", "src/Compiler/CommandUtils.cpp"])
    rng = ctx.rng
    import concurrent.futures as cf

    def shard(i):
        base = os.path.join(ctx.work, f"w{i}")
        for d in ("bin", "d1", "d 2", "d1/sub", "path", "logs"):
            os.makedirs(os.path.join(base, d))
        for p in ("bin/kid", "path/inpathkid", "bin/a kid"):
            shutil.copy(kid, os.path.join(base, p))
            os.chmod(os.path.join(base, p), 0o755)
        open(os.path.join(base, "bin/noexec"), "w").write("x")
        os.chmod(os.path.join(base, "bin/noexec"), 0o644)
        return base
    N = vf.NCPU
    bases = [shard(i) for i in range(N)]

    def history(base, n):
        h = []
        cwd = base
        logs = {}
        log = ""
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .2:
                cwd = os.path.join(base, rng.choice(["", "d1", "d 2"])).rstrip("/")
                h.append(dict(op="cd", dir=cwd))
            elif not h:
                h.append(dict(op="cd", dir=base))
            log = ""
            path, kind = rng.choice([(base + "/bin/kid", "run")] * 4 + [("inpathkid", "run"), (base + "/bin/a kid", "run"), (base + "/bin/none", "missing"), ("no-such-kid-vf", "missing"),
                                    (base + "/bin/noexec", "noexec"), (base + "/bin", "noexec"), ("./bin/kid", "rel"), ("", "empty")])
            if kind == "rel":
                path, kind = (os.path.relpath(base + "/bin/kid", cwd), "run") if rng.random() < .7 else (base + "/bin/kid", "run")
                if not path.startswith(("/", ".")):
                    path = "./" + path
            rel = path.startswith(".")
            h.append(dict(op="new", path=path, kind=kind, base=os.path.basename(path), verbose=int(rng.random() < .15)))
            if kind == "empty":
                continue
            for _ in range(rng.randint(1, 4)):
                for _ in range(rng.randint(0, 3)):
                    r = rng.random()
                    if r < .5:
                        h.append(dict(op="app", arg=rng.choice(ARGS)))
                    elif r < .75:
                        h.append(dict(op="list", list=[rng.choice(ARGS) for _ in range(rng.randint(0, 4))]))
                    elif r < .85:
                        h.append(dict(op="reset"))
                    else:
                        log = rng.choice(["", f"{base}/logs/{n}-a", f"{base}/logs/{n} b"])
                        h.append(dict(op="redir", log=log))
                wdir, wok = rng.choice([("", True)] * 3 + [(base + "/d1", True), (base + "/d 2", True), ("REL", True), (base + "/none", False), (base + "/bin/kid", False)])
                if rel:
                    wdir, wok = "", True
                wabs = wdir
                if wdir == "REL":
                    wabs = base + "/d1/sub"
                    wdir = os.path.relpath(wabs, cwd)
                what, v = rng.choice([("exit", 0)] * 3 + [("exit", rng.choice([1, 2, 3, 15, 16, 100, 127, 128, 137, 255]))] * 2 + [("sig", rng.choice([1, 2, 3, 4, 6, 8, 9, 10, 11, 13, 15, 7, 31]))])
                before = logs.get(log, "<none>") if log else "<none>"
                h.append(dict(op="exec", wdir=wdir, wabs=wabs, wok=wok, what=what, n=v, alarm=int(rng.random() < .05), pending=int(rng.random() < .4), logpath=log, before=before))
                if wok and kind == "run" and log:
                    logs[log] = "OUT;ERR;END\n"
                elif wok and log:
                    logs[log] = None     # holds a message
                h = [dict(e) for e in h]
        return h
    total = 1600 if not ctx.thorough else 16000

    def one(i):
        base = bases[i]
        hs = []
        for k in range(total // N):
            h = history(base, k)
            # a log holding the message of a failed start is no longer compared
            if any(e["op"] == "exec" and e["before"] is None and not e["wok"] for e in h):
                continue
            for e in h:
                if e["op"] == "exec" and e["before"] is None:
                    e["before"] = "<message>"
            hs.append(h)
        return hs
    hists = [one(i) for i in range(N)]

    def rec(i):
        return vf.record(ctx, exe, hists[i], cmd, cwd=bases[i], env=dict(PATH=bases[i] + "/path:" + os.environ.get("PATH", "/usr/bin:/bin")), single=True)
    with cf.ThreadPoolExecutor(N) as ex:
        done = [h for r in ex.map(rec, range(N)) for h in r]
    vf.validate(ctx, "CmdExec", done, what=lambda h, l: "; ".join(cmd(e) for e in h[max(0, l - 6):l - 1]) + " -> " + str(h[l - 2].get("obs"))[:700])
    ctx.add("executions", sum(e["op"] == "exec" for h in done for e in h))
    ctx.assumptions.append("the log can be created; a relative program or log path is used without another working directory; empty arguments are skipped, as the option lists rely on")
