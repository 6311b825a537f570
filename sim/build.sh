#!/bin/bash
# Builds the simulator from /repo's working tree into $OUT (default
# /verif/.build). Usage: build.sh [race]
set -eu
here=$(cd "$(dirname "$0")" && pwd)
verif=$(dirname "$here")
out=${VERIF_BUILD:-$verif/.build}
race=${1:-}
mkdir -p "$out"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GONOSUMDB=* GONOSUMCHECK=1
export GOCACHE="${VERIF_GOCACHE:-$out/gocache}"
exec 9>"$out/lock"
flock 9
cd "$here"
go build -o "$out/instr" ./instr
one() {
rm -rf "$out/gen.new"
mkdir -p "$out/gen.new/h6"
"$out/instr" -level "$level" -repo "${VERIF_REPO:-/repo}" -out "$out/gen.new" 2>"$out/instr.log" || { cat "$out/instr.log" >&2; exit 2; }
for f in vals exec cost value; do
  sed -e 's/^package h4$/package h6/' -e 's#fam "gopkg.in/addrs.v1/ipv4"#fam "gopkg.in/addrs.v1/ipv6"#' "h4/$f.go" >"$out/gen.new/h6/$f.go"
done
cp h4/v6src/fam_v6.go.txt "$out/gen.new/h6/fam_v6.go"
rm -rf "$out/gen"
mv "$out/gen.new" "$out/gen"
python3 - "$out/gen" "$here" <<'P'
import json, sys
gen, here = sys.argv[1:]
o = json.load(open(gen + "/overlay.json"))
r = {k: v.replace("gen.new/", "gen/") for k, v in o["Replace"].items()}
for f in ("vals.go", "exec.go", "cost.go", "value.go", "fam_v6.go"):
    r[here + "/h6/" + f] = gen + "/h6/" + f
json.dump({"Replace": r}, open(gen + "/overlay.json", "w"), indent=1)
P
mod=()
if [ "${VERIF_REPO:-/repo}" != /repo ]; then
  sed "s#=> /repo#=> $VERIF_REPO#" go.mod >"$out/alt.mod"
  : >"$out/alt.sum"
  mod=(-modfile="$out/alt.mod")
fi
}
# Code which the instrumentation can't cope with gets less of it.
for level in 0 1 2 3; do
  one $level
  echo $level >"$out/gen/level"
  if go build "${mod[@]}" -overlay "$out/gen/overlay.json" -o "$out/simrun" ./cmd/simrun 2>"$out/build.log"; then
    break
  fi
  cat "$out/build.log" >&2
  [ $level = 3 ] && exit 2
  echo "build: trying again with less instrumentation (level $((level + 1)))" >&2
done
if [ "$race" = race ]; then
  go build "${mod[@]}" -race -overlay "$out/gen/overlay.json" -o "$out/simrun-race" ./cmd/simrun
fi
