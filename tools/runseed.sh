#!/bin/bash
# runseed.sh [id...]: applies each planted bug to /repo, runs the quick check of its property, undoes it.
D=${SEEDDIR:-/verif/seeded}; cd "$D" || exit 2
[ $# -gt 0 ] || set -- *
for i in "$@"; do
  p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$i/meta.json")
  git -C ${REPO:-/repo} apply "$D/$i/patch.diff" || { echo "$i does not apply"; continue; }
  s=$(date +%s)
  o=$(${RUN:-/verif/run.sh} "$p" quick 2>&1); rc=$?
  git -C ${REPO:-/repo} checkout -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" <<<"$o"; then r=caught; else r="MISSED rc=$rc"; fi
  echo "$i $p $r $(($(date +%s)-s))s $(grep -m1 '^driver' <<<"$o" | cut -c1-110)"
done
