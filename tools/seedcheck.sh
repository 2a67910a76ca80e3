#!/bin/bash
# seedcheck.sh <id>: is the planted change valid (applies, builds, tests pass, demo discriminates) and is it caught?
id=$1; d=/verif/seeded/$id; w=/tmp/seedwork.$$
rm -rf "$w"; cp -a /repo "$w"; cd "$w" || exit 1
git -C "$w" checkout -q -- . ; 
. /opt/vp/env.sh; cd "$w"; export CARGO_TARGET_DIR=$w/target
dem() { mkdir -p "$w/demo" ; cp -r "$d"/. "$w/demo/"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json; (cd "$w"; timeout 300 bash "$w/demo/demo.sh" > "$w/demo.log" 2>&1); echo $?; }
a=$(dem); [ "$a" = 0 ] || tail -5 "$w/demo.log"
git -C "$w" apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$w"; exit 1; }
cargo test --offline 2>/dev/null > "$w/t.log"; t=$(grep -c '^test .* ok$' "$w/t.log")
b=$(dem); tail -2 "$w/demo.log"
echo "$id: demo clean=$a patched=$b tests ok=$t"
rm -rf "$w"
