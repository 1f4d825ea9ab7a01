#!/bin/bash
# plant.sh ID   confirm a planted bug: applies, builds, stable tests pass, demo
# passes on /repo and fails with the patch; then runs the property's check.
set -u
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo && git status --porcelain | grep -q . && { echo "dirty /repo"; exit 2; }
S=/tmp/demo-$$; cp -a $D $S; rm -f $S/*.diff $S/meta.json
bash $S/demo.sh >/tmp/d-$$ 2>&1 || { echo "$1: demo fails unpatched"; tail -5 /tmp/d-$$; }
git apply $D/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/b-$$ 2>&1 || { echo "$1: no build"; tail -5 /tmp/b-$$; }
bash /opt/vp/test.sh /tmp/o-$$.json >/tmp/t-$$ 2>&1; grep -o "[0-9]* passed, [0-9]* failed" /tmp/t-$$ | tail -1
bash $S/demo.sh >/tmp/d-$$ 2>&1 && echo "$1: demo passes patched" || tail -2 /tmp/d-$$
[ "${2:-}" = nocheck ] || { python3 /verif/checks/run.py $P >/tmp/c-$$ 2>/dev/null; echo "$1 $P rc=$? $(grep -m1 VIOLATION /tmp/c-$$ | cut -c1-200)"; }
git checkout -q -- .
rm -rf $S /tmp/*-$$ /tmp/o-$$.json
