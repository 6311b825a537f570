#!/bin/bash
# check.sh PROPERTY: builds from /repo's working tree and searches for
# violations of one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
verif=$(dirname "$here")
prop=$1
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
out=${VERIF_BUILD:-$verif/.build}
kind=
case $prop in C11 | C23 | C26) kind=race ;; esac
"$here/build.sh" $kind || { echo "build failed" >&2; exit 2; }
case "$tier" in
thorough) wall=${VERIF_WALL:-780} runs=${VERIF_RUNS:-100000000} ;;
*) wall=${VERIF_WALL:-200} runs=${VERIF_RUNS:-$("$here/runs.sh" "$prop")} ;;
esac
mkdir -p "$out/tmp" "${VERIF_REPLAYS:-$verif/replays}"
# the binaries are replaced by the next build: run from a private copy
bin=$(mktemp -d "$out/tmp/bin-XXXXXX")
trap 'rm -rf "$bin"' EXIT
cp "$out/simrun" "$bin/" && cp "$out/gen/sites.json" "$out/gen/level" "$bin/" || exit 2
[ -z "$kind" ] || cp "$out/simrun-race" "$bin/" || exit 2
"$bin/simrun" batch -prop "$prop" -tier "$tier" -seed "$seed" -runs "$runs" -wall "$wall" \
  -evidence "${VERIF_EVIDENCE:-$verif/evidence}/$prop.json" -replays "${VERIF_REPLAYS:-$verif/replays}" -tmp "$out/tmp" \
  -racebin "$bin/simrun-race" -known "$verif/known_findings.txt" -sites "$bin/sites.json"
