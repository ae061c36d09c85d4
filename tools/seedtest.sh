#!/bin/bash
# tools/seedtest.sh ID [check...]: verifies a planted bug in a scratch copy and says what the checks make of it.
# Prints one line: ID tests=.. demo_clean=.. demo_patched=.. CHECK=caught|missed...
ID=$1; shift
S=/verif/seeded/$ID
D=$(mktemp -d /tmp/seed_${ID}_XXXX)
trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"; rm -rf "$D/repo/.git"
PYV=/opt/venv/bin/python
cd "$D/repo"
mk() { (cd "$D/repo" && $PYV - <<'P'
import sys, os
sys.path.insert(0, "/verif/vf")
import build
build.REPO = os.getcwd()
import shutil, glob
shutil.rmtree("/".join([os.getcwd(), "..", "b"]), ignore_errors=True)
r = build.build(os.path.abspath("../b"))
for f in glob.glob(r + "/malstroem/algorithms/speedups/*.so"):
    shutil.copy(f, "malstroem/algorithms/speedups/")
P
); }
demo() { mkdir -p "$D/demo"; cp -r "$S"/. "$D/demo/"; rm -f "$D/demo"/*.diff "$D/demo/meta.json"; (cd "$D/repo"; PYTHONPATH= timeout 300 bash "$D/demo/demo.sh" >"$D/demo.log" 2>&1; echo $?); }
PROPID=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mk; c=$(demo); [ "$c" = 0 ] || cat "$D/demo.log" | tail -5
patch -s -p1 < "$S/patch.diff" || { echo "$ID PATCH-FAILS"; exit 1; }
mk || { echo "$ID BUILD-FAILS"; exit 1; }
if [ -z "$NOTESTS" ]; then t=$(PYTHONPATH="$D/repo" timeout 600 $PYV -m pytest -q -x -p no:cacheprovider --basetemp="$D/t" tests 2>&1 | tail -1); else t=skipped; fi
p=$(demo)
out="$ID [$PROPID] tests=[$t] demo_clean=$c demo_patched=$p"
[ "$#" = 0 ] && set -- $PROPID
for k in "$@"; do
  VF_REPO="$D/repo" VF_TMP="$D" VF_EVIDENCE="$D/ev" VERIF_SEED=1 timeout 900 /verif/bin/check $k quick > "$D/chk.log" 2>&1; rc=$?
  out="$out $k=$rc($(grep -m1 '^  case' "$D/chk.log" | cut -c1-150))"
done
echo "$out"
