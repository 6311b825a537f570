#!/bin/bash
# quiet.sh REPO [PROP...]: runs the checks against another tree, which is
# expected to be right (a refactoring, say).
repo=$1; shift
props=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C23 C24 C25 C26 C27 C28}
tmp=$(mktemp -d /tmp/quiet-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
for p in $props; do
  VERIF_REPO=$repo VERIF_BUILD=$tmp/build VERIF_EVIDENCE=$tmp/ev VERIF_REPLAYS=$tmp/replays VERIF_SEED=${VERIF_SEED:-1} VERIF_GOCACHE=/tmp/trial-gocache \
    bash "$(dirname "$0")/../sim/check.sh" "$p" > "$tmp/log" 2>&1
  rc=$?
  echo "$p seed ${VERIF_SEED:-1} rc=$rc $(tail -1 "$tmp/log" | cut -c1-160)"
  [ $rc -ne 0 ] && grep -E '^run |VIOLATION' "$tmp/log" | head -3
done
