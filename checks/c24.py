"""C24: DocCheck.tla explored exhaustively for small documents, every verdict
replayed in the real checker; larger random documents decided by DocCheckTrace."""
import json, os, sys
import vf

FILES = {"f": ["A"], "g": ["A", "B"], "e": [], "w": ["A", ""]}


def ftext(ls, eol="\n", last=True):
    t = eol.join(ls)
    return t + eol if ls and last else t


def mark(rng, m):
    pre, post = ("", "")
    if rng:
        pre, post = rng.choice([("", ""), ("see ", ""), ("  ", "  "), ("", " trailing")])
    if m["cfg"] == "ok":
        if m["sd"] == 0 and m["sr"] == 0 and (not rng or rng.random() < .6):
            c = m["ref"]
        else:
            d = {"ref": m["ref"]}
            if m["sd"]:
                d["skip-doc"] = m["sd"]
            if m["sr"]:
                d["skip-ref"] = m["sr"]
            c = json.dumps(d) if not rng or rng.random() < .7 else repr(d)
        return f"{pre}[same-as-file]: <> ({c}){post}"
    return {"empty": "[same-as-file]: <> ()", "nokey": '[same-as-file]: <> ({"skip-doc": 1})', "broken": '[same-as-file]: <> ({"ref": "f",, })',
            "twice": "[same-as-file]: <> (f) [same-as-file]: <> (f)", "badskip": '[same-as-file]: <> ({"ref": "f", "skip-ref": "x"})'}[m["cfg"]]


def render(lines, rng=None, eol="\n", last=True):
    out = []
    for ln in lines:
        k = ln["k"]
        out.append(mark(rng, ln) if k == "mark" else ln["c"])
    t = eol.join(out)
    return t + eol if out and last else t


def cmd(e):
    return json.dumps(dict(tree=e["tree"], ex=e["exs"], rel=e.get("rel", 0)))


def run(ctx):
    rng = ctx.rng
    exe = os.path.join(vf.HARN, "doc_h.py")
    dc = os.path.join(vf.REPO, "docs", "doc_check")
    N = 6 if ctx.thorough else 5
    res = vf.tlc(ctx, "DocCheck", f"SPECIFICATION Spec\nVIEW View\nINVARIANTS Agree DumpDoc\nPROPERTY Sticky\nCHECK_DEADLOCK FALSE\nCONSTANT N = {N}\n")
    cases = [p for p in res.prints()]
    tree0 = {n: ftext(ls) for n, ls in FILES.items()}
    # documents that pass are rare: keep all of them and a sample of the others
    good = [c for c in cases if c["ok"]]
    badc = [c for c in cases if not c["ok"]]
    rng.shuffle(good)
    rng.shuffle(badc)
    cap = 6000 if not ctx.thorough else 100000
    interesting = [c for c in good if any(x["k"] == "mark" for x in c["d"])]
    plain = [c for c in good if not any(x["k"] == "mark" for x in c["d"])]
    sel = interesting[:cap] + plain[:cap // 8] + badc[:cap]
    hs = [[dict(tree=dict(tree0, **{"d.md": render(c["d"])}), exs=[], want=int(c["ok"]))] for c in sel]
    done = vf.record(ctx, exe, hs, cmd, args=[dc], label="[small] ", timeout=800)
    for h in done:
        e = h[0]
        if e["obs"]["ok"] != e["want"]:
            ctx.fail(f"document {e['tree']['d.md']!r}: the specification says {'faithful' if e['want'] else 'unfaithful'}, the checker {'accepts' if e['obs']['ok'] else 'rejects'} it ({e['obs']})",
                     dict(tree=e["tree"]))
    ctx.cov["traces_validated_against_impl"] += len(done)
    ctx.add("small_documents", len(done))

    # ---- larger documents: mutations of faithful ones
    def T(c):
        return dict(k="text" if c.strip() else "blank", c=c)

    WORDS = ["A", "B", " A", "A ", "int x;", "", "  ", "# t", "é", "A  B", "``", "x ``` y", "(f)", "[other]: <> (f)", "[same-as-file]:<> (f)", "file-same-as-stdout(x)", "\tA", "a,b"]

    def doc(files):
        ls = []
        for _ in range(rng.randint(0, 3)):
            for _ in range(rng.randint(0, 2)):
                ls.append(T(rng.choice(WORDS)))
            if rng.random() < .15:
                ls += [dict(k="fence", c="```"), T("A"), dict(k="fence", c="```")]
            ref = rng.choice(list(files))
            sr = rng.choice([0, 0, 1, 2, 3])
            sd = rng.choice([0, 0, 1, 2])
            cfg = "ok"
            if rng.random() < .06:
                cfg, ref, sd, sr = rng.choice(["empty", "nokey", "broken", "twice", "badskip"]), "f", 0, 0
            ls.append(dict(k="mark", c="[mark]", cfg=cfg, ref=ref, sd=sd, sr=sr))
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                ls.append(T(rng.choice(["", " "])))
            body = files[ref][max(0, sr):]
            f = "````" if any(x.startswith("```") for x in files[ref]) else "```"
            ls.append(dict(k="fence", c=f + rng.choice(["", "cpp", " bash"])))
            ls += [T(rng.choice(WORDS)) for _ in range(sd)]
            ls += [dict(k="fence", c=x) if x.strip().startswith("```") else T(x) for x in body]
            ls.append(dict(k="fence", c=f))
        for _ in range(rng.randint(0, 2)):
            ls.append(T(rng.choice(WORDS)))
        for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2])):       # spoil it, or not
            if not ls:
                break
            i = rng.randrange(len(ls))
            m = rng.random()
            if m < .3:
                del ls[i]
            elif m < .6:
                ls.insert(i, T(rng.choice(WORDS)))
            elif m < .75:
                ls[i] = T(rng.choice(WORDS))
            elif m < .85:
                ls.insert(i, dict(k="mark", c="[mark]", cfg=rng.choice(["empty", "nokey", "broken", "twice", "badskip"]), ref="f", sd=0, sr=0))
            elif m < .95:
                j = rng.randrange(len(ls))
                ls[i], ls[j] = ls[j], ls[i]
            else:
                ls = ls[:i]
        return ls

    hs = []
    for _ in range(4000 if not ctx.thorough else 40000):
        files = {"f": ["A"], "g": ["A", "B", "int x;", " A"], "sub/e": [], "w": ["A", "", "B", ""], "v.cpp": [rng.choice(WORDS[:11]) for _ in range(rng.randint(1, 6))],
                 "z": ["text", "```", "A", "```"]}
        eol = rng.choice(["\n", "\n", "\n", "\r\n"])
        last = rng.random() < .8
        fx = {n: (v if last or not v or v[-1] != "" else v[:-1]) for n, v in files.items()}
        tree = {n: ftext(v, eol=rng.choice(["\n", "\n", "\r\n"]), last=last) for n, v in files.items()}
        texts = dict(t1="dog\n", t2="a\nb\n", t3="", t4="dog")
        tree.update(texts)
        docs = []
        for i in range(rng.choice([1, 1, 1, 2, 3])):
            d = rng.choice(["", "", "sub/", "sub/deep/", "su/", "subx/"])
            ext = rng.choice(["md", "md", "md", "dc", "txt", "in.dc"])
            name = f"{d}d{i}.{ext}"
            ext = ext.split(".")[-1]
            if ext == "dc":
                cmds = []
                for _ in range(rng.randint(0, 2)):
                    out, c = rng.choice([("dog\n", ["echo", "dog"]), ("a\nb\n", ["printf", "a\\nb\\n"]), ("", ["true"]), ("dog", ["printf", "dog"]), ("a\n", ["echo", "a"]),
                                         ("dog\n", ["cat", "t1"]), ("", ["no-such-program"]), ("a\nb\n\n", ["printf", "a\\nb\\n\\n"])])
                    want = [k for k, v in texts.items() if v == out]
                    f = rng.choice(want) if want and rng.random() < .85 else rng.choice(["t1", "t2", "t4", "nofile"])
                    cfg = "ok" if rng.random() < .93 else rng.choice(["bad", "nokey"])
                    cmds.append(dict(cfg=cfg, file=f, out=out, runs=c[0] != "no-such-program", cmd=c))
                docs.append(dict(path=name.split("/"), ext="dc", cmds=cmds, lines=[]))
                tl = []
                for c in cmds:
                    s = f"file-same-as-stdout({json.dumps(dict(file=c['file'], cmd=c['cmd']))})"
                    if c["cfg"] == "bad":
                        s = s[:-2] + ",,})"
                    elif c["cfg"] == "nokey":
                        s = 'file-same-as-stdout({"cmd": ["true"]})'
                    tl.append(rng.choice(["", "# ", ""]) + s)
                    if rng.random() < .3:
                        tl.append(rng.choice(["", "text", "[same-as-file]: <> (nofile)"]))
                tree[name] = "\n".join(tl) + "\n"
            else:
                ls = doc(fx)
                el = last or not ls or ls[-1]["c"] != "" or ls[-1]["k"] != "blank"
                docs.append(dict(path=name.split("/"), ext=ext, cmds=[], lines=ls))
                tree[name] = render(ls, rng, eol, last=True)
                if not last and ls and ls[-1]["k"] in ("text", "fence"):
                    tree[name] = render(ls, rng, eol, last=False)
        exs = rng.choice([[], [], [], ["sub"], ["su"], ["sub/deep"], ["sub", "subx"], ["nodir"], ["sub/../su"], ["d0.md"]])
        ex = [os.path.normpath(x).split("/") for x in exs]
        hs.append([dict(tree=tree, exs=exs, ex=ex, docs=docs, files={n: v for n, v in fx.items()}, texts=texts, rel=rng.randint(0, 1))])
    done = vf.record(ctx, exe, hs, cmd, args=[dc], label="[large] ", timeout=800)
    ctx.add("large_accepted", sum(h[0]["obs"]["ok"] for h in done))
    vf.validate(ctx, "DocCheckTrace", done, consts="CONSTANT N = 1", spec="TSpec",
                what=lambda h, l: f"tree {h[l-2]['tree']} excluded {h[l-2]['exs']} -> {h[l-2]['obs']}")
    ctx.assumptions.append("line skips declared by a marker do not reach beyond its block; quoted fences are shorter than the quoting ones")
