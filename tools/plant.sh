#!/bin/bash
# plant.sh ID [notest] [PID ...]: try the planted bug seeded/ID in a scratch copy of /repo: it applies, the QA scripts
# still pass, the demo tells it apart, and which of the checks PID (default: the property it names) catch it.
cd "$(dirname "$0")/.." || exit 2
id=$1; shift
d=$PWD/seeded/$id
notest=; [ "$1" = notest ] && { notest=1; shift; }
S=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$S"' EXIT
cp -a ${RP:-/repo} "$S/repo"
. /opt/vp/env.sh
(cd "$S/repo" && bash "$d/demo.sh" >"$S/demo0" 2>&1) && echo "demo clean: 0" || { echo "demo clean FAILS"; tail -3 "$S/demo0"; }
git -C "$S/repo" apply "$d/patch.diff" || { echo "patch does not apply"; exit 1; }
(cd "$S/repo" && bash "$d/demo.sh" >"$S/demo1" 2>&1) && echo "demo patched PASSES (bad)" || { echo "demo patched: fails (good)"; tail -1 "$S/demo1"; }
if [ -z "$notest" ]; then
  export PYTHONPATH="/opt/vp:$S/repo:$S/repo/examples/electric-field-fno/neuraloperator"
  for s in "$S"/repo/QA/[1-9af]*.py "$S"/repo/examples/vector_1d_verification.py "$S"/repo/examples/vector_2d_verification.py; do
    (mkdir -p "$S/w/$(basename $s)"; cd "$S/w/$(basename $s)"; timeout 700 $PY "$s" >"$S/w/$(basename $s)/log" 2>&1 || { echo "TEST FAIL $s"; tail -3 log; }) &
  done; wait; echo tests done
fi
unset PYTHONPATH
for p in ${@:-$($PY -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do
  VERIF_REPO=$S/repo VERIF_EVIDENCE=$S/ev VERIF_SEED=${VERIF_SEED:-1} bash check.sh $p quick >"$S/out" 2>&1; rc=$?
  echo "$id by $p: exit $rc: $(grep -v VIOLATION "$S/out" | grep -c .) lines"; grep -v VIOLATION "$S/out" | cut -c1-300 | head -${LINES_OUT:-3}
done
