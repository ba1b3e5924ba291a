#!/bin/bash
# plant.sh ID: builds and tests /verif/seeded/ID in a scratch copy of /repo:
# the demo must pass without the patch and fail with it; the stable tests must pass with it.
id=$1; d=/verif/seeded/$id
w=$(mktemp -d /tmp/plantXXXXXX)
cp -a /repo "$w/repo"; cp -a "$d" "$w/demo"
cd "$w/repo" || exit 2
a=0; timeout 300 bash "$w/demo/demo.sh" >"$w/out0" 2>&1 || a=$?
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -r "$w"; exit 1; }
go build ./... >"$w/b" 2>&1 || { echo "$id: does not build"; head -5 "$w/b"; }
t=0; go test ./... 2>&1 | grep -v 'no test files' >"$w/t"; grep -q FAIL "$w/t" && t=1
b=0; timeout 300 bash "$w/demo/demo.sh" >"$w/out1" 2>&1 || b=$?
echo "$id: demo clean=$a patched=$b tests_fail=$t"
[ $a -ne 0 ] && tail -15 "$w/out0" | cut -c1-300
[ $b -eq 0 ] && tail -5 "$w/out1" | cut -c1-300
[ $t -ne 0 ] && grep FAIL "$w/t" | head
rm -r "$w"
