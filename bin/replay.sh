#!/bin/bash
# replay.sh FILE: executes a replay file against /repo's working tree, twice.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
kind=plain
grep -q '"race": true' "$1" && kind=race
B=$(bash "$V/bin/build.sh" $kind) || exit 2
exec "$B/sim-$kind" replay -sites "$B/sites.json" "$1"
