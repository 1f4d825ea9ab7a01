"""Shared machinery of the checks: build harnesses from /repo's working tree,
run TLC, turn TLC's transition dump into covering walks, replay them in the
harness, validate recorded traces with TLC, write evidence, report."""
import atexit, collections, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build") if REPO == "/repo" else os.path.join(VERIF, "build", "alt-" + os.path.basename(REPO))
NCPU = os.cpu_count() or 4
TLAJARS = ["/opt/veriftools/tla/tla2tools.jar",
           "/opt/veriftools/tla/CommunityModules-deps.jar"]
LLVM = "/usr/lib/llvm-20"
PYVENV = "/opt/vp/venv"


class CheckError(Exception):
    """The check itself failed (no verdict)."""


class Violation(Exception):
    pass


def log(*a):
    print("[vf]", *a, file=sys.stderr, flush=True)


class Ctx:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(self.seed * 1000003 + int(re.sub(r"\D", "", pid)))
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=f"{pid}-", dir=BUILD)
        atexit.register(shutil.rmtree, self.work, True)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        samples=[])
        self.assumptions = []
        self.violations = []
        self.known_hits = {}
        self.known = load_known(pid)
        self.extra = {}

    # ------------------------------------------------------------ reporting
    def sample(self, s, limit=8):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s if isinstance(s, (dict, list)) else str(s)[:600])

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def fail(self, what, replay, key=None):
        """Record a divergence between the specification and the code.
        key identifies the failing input; if it is listed in
        known_findings.jsonl the divergence is a known finding."""
        if key is not None:
            for k in self.known:
                if k["key"] == key:
                    self.known_hits[key] = k["what"]
                    return
        if len(self.violations) < 50:
            self.violations.append((what, replay))

    def finish(self):
        for key, what in self.known_hits.items():
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        rc = 0
        if self.violations:
            rdir = os.path.join(BUILD, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump([dict(what=w, replay=r) for w, r in self.violations], f,
                          indent=1, default=str)
            for w, _ in self.violations[:10]:
                print(f"  {self.pid}: {w}"[:1500])
            print(f"VIOLATION property={self.pid} replay={path}")
            rc = 1
        self.write_evidence()
        sys.stdout.flush()
        return rc

    def write_evidence(self):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        d = os.path.join(VERIF, "evidence") if REPO == "/repo" else BUILD
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.pid}.json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + ".tmp", p)


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("fixed:") or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("property") == pid:
                out.append(d)
    return out


# ---------------------------------------------------------------- building
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
MLIR_CXX = ["-std=c++17", f"-I{LLVM}/include", "-D_GNU_SOURCE",
            "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
            "-D__STDC_LIMIT_MACROS"]
MLIR_LINK = [f"-L{LLVM}/lib", f"-Wl,-rpath,{LLVM}/lib", "-lMLIR", "-lLLVM-20"]


def build(ctx, name, sources, cflags=(), ldflags=(), shared=False, opt="-O1",
          san=True, cxxflags=("-std=c++17",), per_source=None):
    """Compile sources (absolute paths, or relative to /repo) into
    build/<pid>/<name>/<name> with ninja; incremental in a working copy."""
    d = os.path.join(BUILD, "obj", ctx.pid, name)
    os.makedirs(d, exist_ok=True)
    inc = [f"-I{REPO}/include", f"-I{REPO}", f"-I{HARN}"]
    common = [opt, "-g1", "-w", "-fPIC", "-UNDEBUG"] + (SAN if san else []) + inc + list(cflags)
    out = os.path.join(d, name + (".so" if shared else ""))
    lines = ["rule cc\n command = gcc -MD -MF $out.d $flags -c $in -o $out\n depfile = $out.d\n deps = gcc\n",
             "rule cxx\n command = g++ -MD -MF $out.d $flags -c $in -o $out\n depfile = $out.d\n deps = gcc\n",
             "rule link\n command = g++ $in -o $out $ldflags\n"]
    objs = []
    seen = {}
    for s in sources:
        src = s if os.path.isabs(s) else os.path.join(REPO, s)
        if not os.path.exists(src):
            raise CheckError(f"source missing: {src}")
        base = re.sub(r"[^A-Za-z0-9_.]", "_", os.path.relpath(src, "/")) + ".o"
        fl = list(common)
        if per_source and s in per_source:
            fl += per_source[s]
        rule = "cc" if src.endswith(".c") else "cxx"
        if rule == "cxx":
            fl += list(cxxflags)
        objs.append(base)
        lines.append(f"build {base}: {rule} {src}\n flags = {' '.join(fl)}\n")
    ld = list(ldflags) + (SAN if san else []) + (["-shared"] if shared else []) + ["-ldl", "-lpthread", "-lm"]
    lines.append(f"build {out}: link {' '.join(objs)}\n ldflags = {' '.join(ld)}\n")
    txt = "\n".join(lines)
    nf = os.path.join(d, "build.ninja")
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    t = time.time()
    r = subprocess.run(["ninja", "-C", d, out], capture_output=True, text=True)
    if r.returncode:
        raise CheckError(f"build of {name} failed:\n" + r.stdout[-6000:] + r.stderr[-2000:])
    log(f"built {name} in {time.time()-t:.1f}s")
    return out


# -------------------------------------------------------------------- TLC
def tlc(ctx, module, cfg, workers=None, env=None, args=(), timeout=800, depth=None,
        simulate=None, count=True, heap="8g", allow_fail=False):
    """Run TLC on spec/<module>.tla with cfg (text, or file name in spec/).
    Returns a result object; count adds states/transitions to the evidence."""
    wd = tempfile.mkdtemp(prefix="tlc-", dir=ctx.work)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(wd, f))
    cfgp = os.path.join(wd, "run.cfg")
    if "\n" not in cfg and cfg.endswith(".cfg"):
        cfg = open(os.path.join(SPEC, cfg)).read()
    open(cfgp, "w").write(cfg)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={min(4, NCPU)}",
           "-cp", ":".join(TLAJARS), "tlc2.TLC", "-workers", str(workers or NCPU),
           "-metadir", os.path.join(wd, "meta"), "-config", cfgp, "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", simulate, "-seed", str(ctx.seed)]
    if depth:
        cmd += ["-depth", str(depth)]
    cmd += list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    outp = os.path.join(wd, "out.txt")
    t = time.time()
    with open(outp, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=wd, stdout=f, stderr=subprocess.STDOUT,
                                env=e, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timeout on {module}")
    res = TLCResult(outp, rc, module)
    log(f"TLC {module}: rc={rc} states={res.distinct} transitions={res.generated} {time.time()-t:.1f}s")
    if count:
        ctx.cov["states"] += res.distinct
        ctx.cov["transitions"] += res.generated
    if res.error and not res.violated:
        raise CheckError(f"TLC error in {module}:\n" + res.tail())
    if res.violated and not allow_fail:
        raise CheckError(f"the specification itself violates {res.violated} in {module}:\n" + res.tail(6000))
    return res


class TLCResult:
    def __init__(self, path, rc, module):
        self.path, self.rc, self.module = path, rc, module
        self.generated = self.distinct = 0
        self.violated = None
        self.error = False
        for line in open(path, errors="replace"):
            if line[:1] == '"':
                continue
            m = re.match(r"(\d+) states generated.*?, (\d+) distinct states found", line)
            if m:
                self.generated, self.distinct = int(m[1]), int(m[2])
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                self.generated = int(m[1]); self.distinct = max(self.distinct, 0)
            m = re.match(r"Error: (Invariant|Action property|Temporal|.*Postcondition).*", line)
            if m:
                self.violated = self.violated or line.strip()
            elif line.startswith("Error:"):
                if "is violated" in line or "was violated" in line or "Deadlock" in line:
                    self.violated = self.violated or line.strip()
                elif not line.startswith("Error: The behavior up to this point is") and not line.startswith("Error: The following behavior"):
                    self.error = True
        if rc and not self.violated:
            self.error = True
        if rc == 0:
            self.error = False

    def tail(self, n=4000):
        txt = open(self.path, errors="replace").read()
        txt = "\n".join(l for l in txt.split("\n") if not l.startswith('"'))
        return txt[-n:]

    def prints(self):
        """The JSON values printed with PrintT(ToJson(..))."""
        for line in open(self.path, errors="replace"):
            if line[:2] in ('"{', '"['):
                line = line.rstrip("\n")
                if not line.endswith('"'):
                    raise CheckError("truncated TLC print: " + line[:200])
                yield json.loads(json.loads(line))

    def trace_states(self):
        """Variables of the states of the reported counterexamples: list of
        dicts name->text."""
        out, cur = [], None
        for line in open(self.path, errors="replace"):
            if re.match(r"State \d+:|\d+: ", line) or line.startswith("Error: Invariant"):
                cur = {}
                out.append(cur)
            m = re.match(r"(?:/\\ )?(\w+) = (.*)", line)
            if m and cur is not None:
                cur[m[1]] = m[2].strip()
        return out


def model_check(ctx, module, cfg, **kw):
    return tlc(ctx, module, cfg, **kw)


# ------------------------------------------------------------------- tours
def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class Tour:
    """Transition graph dumped by TLC, and walks that cover every edge."""

    def __init__(self, res):
        self.inits = []
        self.edges = collections.defaultdict(list)   # key -> [(act, tokey)]
        self.state = {}
        seen = set()
        for p in res.prints():
            if "init" in p:
                k = canon(p["init"])
                self.state[k] = p["init"]
                if k not in self.inits:
                    self.inits.append(k)
                continue
            f, t, a = canon(p["f"]), canon(p["t"]), p["a"]
            sig = (f, canon(a), t)
            if sig in seen:
                continue
            seen.add(sig)
            self.state[f] = p["f"]
            self.state[t] = p["t"]
            self.edges[f].append((a, t))
        self.nedges = len(seen)
        if not self.inits or not self.edges:
            raise CheckError("empty transition dump")

    def _index(self):
        keys = list(self.state)
        num = {k: i for i, k in enumerate(keys)}
        adj = [[] for _ in keys]
        for k, es in self.edges.items():
            adj[num[k]] = [(a, num[t]) for a, t in es]
        # breadth-first tree from the initial states
        pred = {}
        q = collections.deque()
        for k in self.inits:
            pred[num[k]] = None
            q.append(num[k])
        order = []
        while q:
            i = q.popleft()
            order.append(i)
            for j, (a, t) in enumerate(adj[i]):
                if t not in pred:
                    pred[t] = (i, j)
                    q.append(t)
        return keys, adj, pred, order

    def walks(self, rng, maxlen=150, limit=None, near=300):
        """Yield (init, [(act, to_state)...]) walks that together cover every
        reachable edge (or about `limit` of them, randomly chosen)."""
        keys, adj, pred, order = self._index()
        states = [self.state[k] for k in keys]
        un = [list(range(len(v))) for v in adj]
        for v in un:
            rng.shuffle(v)
        if limit is not None:
            rng.shuffle(order)
        done = 0
        for src in order:
            while un[src] and (limit is None or done < limit):
                walk = []
                i = src
                while pred[i] is not None:
                    p, j = pred[i]
                    walk.append((p, j))
                    i = p
                init = i
                walk.reverse()
                cur = src
                for p, j in walk:
                    if j in un[p]:
                        un[p].remove(j)
                        done += 1
                while len(walk) < maxlen:
                    if un[cur]:
                        j = un[cur].pop()
                        done += 1
                        walk.append((cur, j))
                        cur = adj[cur][j][1]
                        continue
                    path = self._near(cur, adj, un, near)
                    if path is None or (len(walk) + len(path) > maxlen):
                        break
                    walk += path
                    cur = adj[path[-1][0]][path[-1][1]][1]
                yield states[init], [(adj[p][j][0], states[adj[p][j][1]]) for p, j in walk]

    @staticmethod
    def _near(src, adj, un, cap):
        prev = {src: None}
        q = collections.deque([src])
        while q and len(prev) < cap:
            i = q.popleft()
            for j, (a, t) in enumerate(adj[i]):
                if t not in prev:
                    prev[t] = (i, j)
                    if un[t]:
                        path = []
                        while prev[t] is not None:
                            path.append(prev[t])
                            t = prev[t][0]
                        return path[::-1]
                    q.append(t)
        return None


def tour_cfg(consts="", spec="Spec", inv=(), view="View", constraint=None):
    s = f"SPECIFICATION {spec}\nVIEW {view}\nACTION_CONSTRAINT Dump\nCHECK_DEADLOCK FALSE\n"
    if constraint:
        s += f"CONSTRAINT {constraint}\n"
    for i in inv:
        s += f"INVARIANT {i}\n"
    return s + consts + "\n"


# ---------------------------------------------------------------- harness
def run_harness(exe, inp, ctx, args=(), env=None, timeout=300, cwd=None, name="harness"):
    """Feed text to a harness; returns (returncode, stdout lines, stderr)."""
    e = dict(os.environ)
    e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:malloc_context_size=4",
              "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1"})
    if env:
        e.update(env)
    try:
        r = subprocess.run([exe, *args], input=inp.encode("utf-8", "surrogateescape") if isinstance(inp, str) else inp,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                           timeout=timeout, cwd=cwd or ctx.work)
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode("utf-8", "replace").split("\n")
        return -999, out, "TIMEOUT after %ss\n" % timeout + (x.stderr or b"").decode("utf-8", "replace")
    return r.returncode, r.stdout.decode("utf-8", "replace").split("\n"), r.stderr.decode("utf-8", "replace")


def replay_walks(ctx, exe, walks, encode, compare, args=(), env=None, reset="RESET",
                 label="", timeout=600, shard=True, cwd=None):
    """Replay walks through the harness: one command line per step, one JSON
    line per command. encode(act, to) -> command line; compare(act, to, obs)
    -> None or a text describing the divergence."""
    walks = list(walks)
    n = min(NCPU, max(1, len(walks))) if shard else 1
    parts = [walks[i::n] for i in range(n)]
    import concurrent.futures as cf

    def one(part):
        if not part:
            return 0
        cmds = []
        for init, w in part:
            cmds.append(reset + (" " + encode_init(init) if False else ""))
            for a, t in w:
                c = encode(a, t)
                assert "\n" not in c, c
                cmds.append(c)
        cmds.append(reset)
        rc, out, err = run_harness(exe, "\n".join(cmds) + "\n", ctx, args=args, env=env, timeout=timeout, cwd=cwd)
        out = [l for l in out if l.startswith("@")]
        pos = 0
        steps = 0
        for init, w in part:
            hist = []
            rst = out[pos] if pos < len(out) else None
            pos += 1
            if rst is None:
                ctx.fail(f"{label}harness died (rc={rc}) at reset: {err[-800:]}", dict(init=init, stderr=err[-3000:]))
                return steps
            d = compare({"op": "RESET"}, init, json.loads(rst[1:]))
            if d:
                ctx.fail(f"{label}after reset: {d}", dict(init=init, obs=rst))
                return steps
            for a, t in w:
                hist.append(encode(a, t))
                if pos >= len(out):
                    ctx.fail(f"{label}real code died (rc={rc}) executing '{hist[-1]}': {err_summary(err)}",
                             dict(init=init, history=hist, stderr=err[-4000:]))
                    return steps
                obs = json.loads(out[pos][1:])
                pos += 1
                steps += 1
                d = compare(a, t, obs)
                if d:
                    ctx.fail(f"{label}step '{hist[-1]}' (after {len(hist)-1} steps): {d}",
                             dict(init=init, history=hist, act=a, expected=t, observed=obs))
                    return steps
        if pos >= len(out):
            ctx.fail(f"{label}real code died (rc={rc}) at the final reset: {err_summary(err)}", dict(stderr=err[-4000:]))
            return steps
        d = compare({"op": "RESET"}, part[-1][0], json.loads(out[pos][1:]))
        if d:
            ctx.fail(f"{label}after final reset: {d}", dict(history=cmds[-60:]))
        elif rc != 0:
            ctx.fail(f"{label}harness ended with rc={rc}: {err_summary(err)}", dict(stderr=err[-4000:]))
        return steps

    with cf.ThreadPoolExecutor(n) as ex:
        steps = sum(ex.map(one, parts))
    ctx.cov["traces_validated_against_impl"] += len(walks)
    ctx.add("replayed_steps", steps)
    if walks:
        ctx.sample(dict(walk=[encode(a, t) for a, t in walks[0][1][:12]]))
    return steps


def err_summary(err):
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|Assertion [^\n]*|[^\n]*runtime error:[^\n]*|TIMEOUT[^\n]*|terminate called[^\n]*)", err)
    if m:
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", err)[:6]
        return m[1][:300] + (" in " + " < ".join(fr) if fr else "")
    return err[-400:]


# --------------------------------------------------------- trace validation
def validate(ctx, module, histories, consts="", label="", spec="Spec", inv="Accepted",
             what=None, heap="8g", timeout=800, key=None, workers=None, maxfail=20):
    """Write histories (list of JSON values) to an ndjson file and have TLC
    check each against spec/<module>.tla. The module has variables h, l, ok
    and invariant Accepted. Reports each rejected history."""
    if not histories:
        raise CheckError("no histories to validate")
    p = os.path.join(ctx.work, f"{module}-{len(os.listdir(ctx.work))}.ndjson")
    with open(p, "w") as f:
        for h in histories:
            f.write(json.dumps(h) + "\n")
    cfg = f"SPECIFICATION {spec}\nINVARIANT {inv}\nCHECK_DEADLOCK FALSE\n{consts}\n"
    res = tlc(ctx, module, cfg, env={"TRACE": p}, args=["-continue"], allow_fail=True, heap=heap, timeout=timeout, workers=workers)
    bad = {}
    if res.violated:
        for s in res.trace_states():
            if s.get("ok") == "FALSE":
                bad.setdefault(int(s["h"]), int(s.get("l", "0")))
        if not bad:
            raise CheckError(f"cannot read the rejection of {module}:\n" + res.tail(3000))
    rejected = []
    for h, l in sorted(bad.items())[:200]:
        hist = histories[h - 1]
        rejected.append((hist, l))
    ctx.cov["traces_validated_against_impl"] += len(histories) - len(bad)
    if histories:
        ctx.sample(dict(trace=json.dumps(histories[0])[:500]))
    for hist, l in rejected[:maxfail * 10]:
        k = key(hist, l) if key else None
        w = what(hist, l) if what else json.dumps(hist)[:700]
        ctx.fail(f"{label}TLC rejects a behaviour recorded from the code (at event {l-1}): {w}", dict(module=module, history=hist, at=l - 1), key=k)
    return res, bad


def main(pid, fn, level="model_checking"):
    ctx = Ctx(pid, level)
    try:
        fn(ctx)
        rc = ctx.finish()
    except CheckError as e:
        print(f"CHECK ERROR property={pid}: {e}", file=sys.stderr)
        if ctx.violations:
            # a divergence was already established before the machinery failed
            rc = ctx.finish()
        else:
            rc = 3
    sys.exit(rc)


def record(ctx, exe, histories, cmd, reset="RESET", args=(), env=None, timeout=600, label="", cwd=None, key=None, single=False):
    """Run each history (list of event dicts) through the harness and store
    the reply of event e in e['obs']. A death of the real code is a violation.
    Returns the histories completely executed."""
    import concurrent.futures as cf
    n = 1 if single else min(NCPU, max(1, len(histories)))
    parts = [histories[i::n] for i in range(n)]

    def one(part):
        done = []
        todo = list(part)
        restarts = 0
        while todo:
            cmds = []
            for h in todo:
                cmds.append(reset)
                for e in h:
                    c = cmd(e)
                    assert "\n" not in c, c
                    cmds.append(c)
            rc, out, err = run_harness(exe, "\n".join(cmds) + "\n", ctx, args=args, env=env, timeout=timeout, cwd=cwd)
            out = [l for l in out if l.startswith("@") and l.endswith("}")]
            pos = 0
            died = None
            for k, h in enumerate(todo):
                if pos >= len(out):
                    died = (k, -1)
                    break
                pos += 1
                for j, e in enumerate(h):
                    if pos >= len(out):
                        died = (k, j)
                        break
                    e["obs"] = json.loads(out[pos][1:])
                    pos += 1
                if died:
                    break
                done.append(h)
            if died is None:
                if rc != 0:
                    ctx.fail(f"{label}harness ended with rc={rc}: {err_summary(err)}", dict(stderr=err[-4000:]))
                break
            k, j = died
            h = todo[k]
            if rc == 3:
                raise CheckError(f"harness refused a command: {err[-500:]}")
            ctx.fail(f"{label}real code died (rc={rc}) executing '{cmd(h[j]) if j >= 0 else 'RESET'}': {err_summary(err)}",
                     dict(history=[cmd(e) for e in h], stderr=err[-4000:]), key=key(h, j + 2) if key else None)
            todo = todo[k + 1:]
            restarts += 1
            if restarts > 30 or rc == -999:     # one hang costs the whole time limit
                break
        return done

    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, parts))
    return [h for r in res for h in r]


def record_and_validate(ctx, exe, module, histories, cmd, label="", consts="", key=None, args=(), env=None,
                        what=None, timeout=600, chunk=20000, cwd=None, post=None, spec="Spec"):
    done = record(ctx, exe, histories, cmd, args=args, env=env, label=label, timeout=timeout, cwd=cwd, key=key)
    if post:
        done = [post(h) for h in done]
    for i in range(0, len(done), chunk):
        validate(ctx, module, done[i:i + chunk], consts=consts, label=label, key=key, spec=spec,
                 what=what or (lambda h, l: "; ".join(cmd(e) for e in h[max(0, l - 4):l - 1]) + " -> observed " + json.dumps(h[l - 2].get("obs"))[:600]))
    ctx.add("recorded_events", sum(len(h) for h in done))
    return done
