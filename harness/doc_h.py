#!/usr/bin/env python3
"""Runs docs/doc_check/check.py main() on trees described on stdin, one reply
per line.  argv: the doc_check directory."""
import json, logging, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import check
logging.disable(logging.CRITICAL)
real = os.dup(1)
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
sys.stdout = open(os.devnull, "w")
base = tempfile.mkdtemp(prefix="doc-", dir=os.getcwd())
n = 0
for line in sys.stdin:
    line = line.strip()
    if not line:
        continue
    if line == "RESET":
        os.write(real, b"@{}\n")
        continue
    c = json.loads(line)
    n += 1
    root = os.path.join(base, str(n))
    os.mkdir(root)
    for name, text in c["tree"].items():
        p = os.path.join(root, name)
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(text.encode("utf-8"))
    arg = root
    old = os.getcwd()
    if c.get("rel"):
        os.chdir(base)
        arg = str(n)
    try:
        check.main(arg, list(c["ex"]))
        r = dict(ok=1)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        r = dict(ok=0, err=type(e).__name__)
    os.chdir(old)
    shutil.rmtree(root)
    os.write(real, ("@" + json.dumps(r) + "\n").encode())
shutil.rmtree(base)
