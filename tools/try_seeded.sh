#!/bin/bash
# try_seeded.sh [ID...]: runs the check of each planted bug against a copy of /repo which has it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  c=$(mktemp -d /tmp/seeded_XXXXXX)
  cp -a /repo "$c/repo"
  git -C "$c/repo" apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  VERIF_REPO="$c/repo" VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $p quick > /tmp/try_$d.txt 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p " /tmp/try_$d.txt; then echo "CAUGHT $d by $p"; else echo "MISSED $d by $p (rc $rc)"; fi
  rm -rf "$c"
done
