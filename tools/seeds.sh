#!/bin/bash
# seeds.sh [ID...]: applies each planted bug to /repo, runs the check of its property, undoes it.
# With ALL=1 every claimed check is run against each bug.
cd "$(dirname "$0")/.."
REPO=${REPO:-/repo}   # a copy, if given
./setup.sh || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
git -C "$REPO" diff --quiet || { echo "$REPO is not clean"; exit 2; }
trap 'git -C "$REPO" checkout -q -- .' EXIT
for id in "$@"; do
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
  props=$prop
  [ -n "$ALL" ] && props=$(python3 -c 'import json;print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])')
  git -C "$REPO" apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  caught=
  for p in $props; do
    s=$(date +%s)
    VERIF_TIER=${VERIF_TIER:-quick} timeout 900 bin/engine -verif "$PWD" -repo "$REPO" "$p" > "$PWD/bin/seedrun.out" 2>&1
    rc=$?
    e=$(( $(date +%s) - s ))
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " "$PWD/bin/seedrun.out"; then caught="$caught $p(${e}s)"
    elif [ "$p" = "$prop" ]; then caught="$caught MISSED-$p(rc=$rc,${e}s)"; fi
  done
  git -C "$REPO" checkout -q -- .
  echo "$id:$caught"
done
