#!/bin/bash
# tools/sweep.sh [id ...]: runs each planted bug's own check on a scratch copy with the change applied
V="$(cd "$(dirname "$0")/.." && pwd)"; cd "$V"
D=/tmp/rstat-sweep; mkdir -p $D
export RSTAT_VERIF_BUILD=$D/build RSTAT_VERIF_REPO=$D/repo
ids="$*"; [ -z "$ids" ] && ids="$(ls seeded)"
for i in $ids; do
  rm -rf /tmp/rstat-sweep/repo; git clone -q /repo $D/repo
  git -C $D/repo apply "$V/seeded/$i/patch.diff" || { echo "$i patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  cp evidence/$p.json $D/ev.json 2>/dev/null
  out="$(./check $p ${TIER:-quick} 2>&1)"; rc=$?
  cp $D/ev.json evidence/$p.json 2>/dev/null
  if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$p"; then echo "CAUGHT $i ($p) $(echo "$out" | grep -c ^VIOLATION) violations$(echo "$out" | grep ^VIOLATION | grep -v no-failing | head -1 | grep -q . || echo ' [no-failing-input-found only]'): $(echo "$out" | grep '^obligation' | head -1 | cut -c1-150)"
  else echo "MISSED $i ($p) rc=$rc $(echo "$out" | tail -2 | cut -c1-300)"; fi
done
