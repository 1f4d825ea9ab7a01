#!/bin/bash
# mut.sh PATCH CHECK...   run checks against a scratch copy of /repo with PATCH
# (a diff file, or -r COMMIT to reverse a commit, or -s FILE SEDSCRIPT) applied.
set -u
M=/tmp/mut-$$
cp -a /repo $M && cd $M || exit 2
if [ "$1" = -r ]; then git diff $2~1 $2 | git apply -R || { rm -rf $M; exit 2; }; shift 2
elif [ "$1" = -s ]; then sed -i -E "$3" "$2"; git diff --stat | tail -1; shift 3
else git apply "$1" || { rm -rf $M; exit 2; }; shift; fi
git diff --quiet && { echo "no change"; rm -rf $M; exit 2; }
for c in "$@"; do
  VERIF_REPO=$M python3 /verif/checks/run.py $c >/tmp/mut-$$.out 2>/tmp/mut-$$.err; rc=$?
  echo "$c rc=$rc $(grep -m1 -v '^$' /tmp/mut-$$.out | cut -c1-${W:-240})"
  [ $rc = 3 ] && tail -3 /tmp/mut-$$.err
done
rm -rf $M /tmp/mut-$$.out /tmp/mut-$$.err /verif/build/alt-mut-$$
exit 0
