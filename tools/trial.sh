#!/bin/bash
# trial.sh ID [PROP...]: runs checks (by default the bug's own property) against
# a scratch copy of /repo with a planted bug.
id=$1; shift
src=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$src/meta.json'))['property'])")}
tmp=$(mktemp -d /tmp/trial-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
git clone -q /repo "$tmp/repo" && git -C "$tmp/repo" apply "$src/patch.diff" || exit 2
for p in $props; do
  s=$(date +%s)
  VERIF_REPO=$tmp/repo VERIF_BUILD=$tmp/build VERIF_EVIDENCE=$tmp/ev VERIF_REPLAYS=$tmp/replays VERIF_SEED=${VERIF_SEED:-1} VERIF_GOCACHE=/tmp/trial-gocache \
    bash /verif/sim/check.sh "$p" > "$tmp/log" 2>&1
  rc=$?
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -E '^run ' "$tmp/log" | head -1 | cut -c1-220)"
  [ $rc -gt 1 ] && tail -5 "$tmp/log"
done
