#!/bin/bash
# build.sh [race]: builds the simulator with the library of /repo's working tree
# inside, and prints the directory that holds the binaries.
set -u
. /opt/vp/env.sh
V=$(cd "$(dirname "$0")/.." && pwd)
kind=${1:-plain}
repo=${VERIF_REPO:-/repo}
key=$( (cd "$repo" && find . -name '*.go' -not -path './.git/*' -o -name go.mod -o -name go.sum | LC_ALL=C sort | xargs sha256sum
        cd "$V" && find sim bin -type f | LC_ALL=C sort | xargs sha256sum; go version; echo "$repo") | sha256sum | cut -c1-16)
B=$V/build/$key
mkdir -p "$V/build"
exec 9> "$V/build/lock"
flock 9
if [ -x "$B/sim-$kind" ]; then echo "$B"; exit 0; fi
# keep only this tree's binaries
find "$V/build" -mindepth 1 -maxdepth 1 -type d ! -name "$key" -mmin +60 -exec rm -rf {} + 2>/dev/null
S=$B/src
mkdir -p "$S" || exit 2
cp -r "$V/sim/simrt" "$V/sim/simsync" "$V/sim/simrand" "$V/sim/simrand2" "$V/sim/harness" "$S/"
{
  echo "module verifsim"; echo; echo "go 1.26"; echo
  echo "require github.com/freerware/negotiator v0.0.0"
  echo "replace github.com/freerware/negotiator => $repo"
  # /repo's own requirements, at the same versions
  awk '/^require[ \t]*\(/{p=1} p{print} /^\)/{p=0} /^require[ \t]+[^( ]/{print} /^replace/{print}' "$repo/go.mod"
} > "$S/go.mod"
cp "$repo/go.sum" "$S/go.sum"
(cd "$V/sim/instr" && GO111MODULE=off GOFLAGS= go build -o "$B/instr" .) >&2 || { echo "build of instr failed" >&2; exit 2; }
P=github.com/freerware/negotiator
race=; [ "$kind" = race ] && race=-race && export CGO_ENABLED=1
ok=
for level in 0 1 2; do
  rm -rf "$B/ov$level"
  "$B/instr" -mod "$S" -prefix $P -out "$B/ov$level" -level $level ./harness >&2 || continue
  cp "$B/ov$level/sites.json" "$B/sites.json"
  if (cd "$S" && go build $race -overlay "$B/ov$level/overlay.json" -o "$B/sim-$kind.tmp" ./harness) 2> "$B/build$level.log"; then
    ok=1; echo "$level" > "$B/level-$kind"; break
  fi
  echo "overlay level $level does not build:" >&2; head -20 "$B/build$level.log" >&2
done
[ -n "$ok" ] || { echo "build failed" >&2; exit 2; }
mv "$B/sim-$kind.tmp" "$B/sim-$kind"
echo "$B"
