#!/bin/bash
# revert_check.sh <commit> <property>...: does the check report the defect again
# when the fix is taken out of the working tree? Restores the tree afterwards.
c=$1; shift
git -C /repo diff --quiet || { echo "tree not clean"; exit 2; }
if ! git -C /repo show "$c" | git -C /repo apply -R -3 --index 2>/tmp/rv.err && true; then
  git -C /repo reset -q --hard; cat /tmp/rv.err; echo "cannot revert $c alone"; exit 2
fi
for p in "$@"; do echo "== without $(git -C /repo log -1 --format='%h %s' "$c")"; /verif/check.sh "$p" | tail -4 | cut -c1-400; done
git -C /repo reset -q --hard
