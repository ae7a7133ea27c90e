#!/bin/bash
# tools/newseed.sh ID : verify a planted bug in a scratch copy: demo passes without, fails with the patch; the stable tests pass with it.
# (developer tool; not used by any check)
ID=$1; D=${SEEDED:-/verif/seeded}/$ID; S=/tmp/seedwt.$ID
rm -rf "$S"; cp -a /repo "$S" || exit 1
cd "$S"; git checkout -q -- . 
run_demo() { (cd "$S"; PYTHONPATH="$S" JAX_PLATFORMS=cpu timeout 300 bash "$D/demo.sh" >/tmp/seed.$ID.log 2>&1; echo $?); }
a=$(run_demo); git apply "$D/patch.diff" || { echo "NO APPLY"; rm -rf "$S"; exit 1; }
b=$(run_demo); echo "$ID demo clean=$a patched=$b"; tail -2 /tmp/seed.$ID.log
rm -rf "/tmp/seedwt.$ID"
