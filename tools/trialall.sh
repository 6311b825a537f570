#!/bin/bash
# trialall.sh [ID...]: trials of all planted bugs, outcomes to tools/caught.txt
cd "$(dirname "$0")/.."
for id in ${*:-$(ls seeded)}; do
  l=$(bash tools/trial.sh "$id" 2>&1)
  echo "$l"
  r=$(sed -n 's/.* rc=1 .*run \([0-9]*\):.*/\1/p' <<<"$l" | head -1)
  note=$(sed -n "s/^$id [^ ]* \(.*\)/\1/p" tools/caught.txt 2>/dev/null)
  sed -i "/^$id /d" tools/caught.txt
  echo "$id ${r:-missed} $note" | sed 's/ *$//' >> tools/caught.txt
done
sort -o tools/caught.txt tools/caught.txt
