#!/bin/bash
# runs every check on the current /repo, 6 at a time, and prints its verdict
cd "$(dirname "$0")/.."
ids=${@:-$(ls checks | sed -n 's/^c\([0-9][0-9]\)\.py$/C\1/p')}
one() { s=$SECONDS; out=$(timeout 900 python3 check.py "$1" 2>&1); rc=$?; echo "$1 rc=$rc $((SECONDS-s))s $(echo "$out" | grep -c ^VIOLATION) viol; $(echo "$out" | grep -iE 'undecided|VIOLATION|Error' | head -3 | cut -c1-200 | tr '\n' '|')"; }
export -f one
printf '%s\n' $ids | xargs -P 6 -I{} bash -c 'one {}' | sort
