#!/bin/bash
# applies each behaviour-preserving edit in refactors/ to a scratch copy of /repo, runs the given checks (default all) on it
# usage: refac.sh [-c "C13 C14"] [names...]
cd "$(dirname "$0")/.."
checks=""
if [ "$1" = "-c" ]; then checks="$2"; shift 2; fi
names=${@:-$(ls refactors/*.diff | xargs -n1 basename | sed 's/\.diff$//')}
w=$(mktemp -d /tmp/refac.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; export VERIF_REPO="$w/repo"
git -C "$VERIF_REPO" checkout -q -- .
for n in $names; do
  git -C "$VERIF_REPO" apply "$PWD/refactors/$n.diff" || { echo "$n: does not apply"; continue; }
  echo "== $n"; tools/runall.sh $checks | grep -E "rc=[^0]|UNDECIDED|[1-9][0-9]* undecided|bounded|does not build" | cut -c1-400
  git -C "$VERIF_REPO" checkout -q -- .
done
