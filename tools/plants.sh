#!/bin/bash
# plants.sh [-b BUDGET] [-p PROPS] ID...: applies each seeded change in a scratch copy of
# /repo and runs the check of its property (or of PROPS) against that copy.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
budget=45s; props=
while getopts b:p: o; do case $o in b) budget=$OPTARG;; p) props=$OPTARG;; esac; done
shift $((OPTIND - 1))
. /opt/vp/env.sh
for id in "$@"; do
  d=$(mktemp -d /tmp/plantrun.XXXXXX)
  cp -a /repo "$d/repo"
  git -C "$d/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$d"; continue; }
  ps=${props:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$V/seeded/$id/meta.json")}
  for p in $ps; do
    kind=plain; race=; [ "$p" = C04 ] && kind=race && race=-race
    B=$(VERIF_REPO=$d/repo bash "$V/bin/build.sh" $kind 2>/dev/null) || { echo "$id $p: build failed"; continue; }
    mkdir -p "$d/v"; cp "$V/KNOWN_FINDINGS.txt" "$d/v/"
    s=$(date +%s)
    "$B/sim-$kind" check -prop "$p" -seed "${VERIF_SEED:-1}" -budget "$budget" -sites "$B/sites.json" -verif "$d/v" -level "$(cat "$B/level-$kind")" $race > "$d/out" 2>&1
    rc=$?
    echo "$id $p: rc=$rc $(($(date +%s) - s))s $(grep -m1 -E 'VIOLATION|exit' "$d/out" | cut -c1-60) $(grep -m1 -iE '^ *(what|reason|violation):' "$d/out" | cut -c1-200)"
    [ -n "${SHOW:-}" ] && head -${SHOW} "$d/out"
    rm -rf "$B"
  done
  rm -rf "$d"
done
