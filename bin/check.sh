#!/bin/bash
# check.sh PROPERTY: builds the simulator from /repo's working tree and searches
# for a violation.  VERIF_SEED and VERIF_TIER choose the seed and the depth.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
p=$1
tier=${VERIF_TIER:-quick}
case $tier in thorough) budget=${VERIF_BUDGET:-600s} ;; *) tier=quick; budget=${VERIF_BUDGET:-45s} ;; esac
kind=plain; race=
[ "$p" = C04 ] && kind=race && race=-race
B=$(bash "$V/bin/build.sh" $kind) || exit 2
[ -x "$B/sim-$kind" ] || exit 2
"$B/sim-$kind" check -prop "$p" -seed "${VERIF_SEED:-1}" -budget "$budget" -tier "$tier" -sites "$B/sites.json" -verif "$V" -level "$(cat "$B/level-$kind")" $race
rc=$?
case $rc in 0 | 1) exit $rc ;; *) exit 2 ;; esac
