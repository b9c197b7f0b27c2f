#!/bin/bash
# tools/fixed.sh PROPERTY [n]: records the last n commits of /repo as repaired defects
n=${2:-1}
for h in $(git -C /repo log --reverse -$n --format=%h); do t=$(git -C /repo log -1 --format=%s $h)
case "$t" in fix:*) grep -q " $h " /verif/known-findings.txt || echo "fixed: property=$1 $h ${t#fix: }" >> /verif/known-findings.txt;; *) echo "not a fix: $t"; exit 1;; esac; done
