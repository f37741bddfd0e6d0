#!/bin/bash
# run.sh <property> <quick|thorough>: builds the explorer against /repo's working tree and runs it.
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
WORK=$(mktemp -d /tmp/mc.XXXXXX) || exit 2
trap 'rm -rf -- "$WORK"' EXIT
export TMPDIR=$WORK VERIF_DIR=$HERE
cd "$HERE/mc" || exit 2
if ! go build -o "$WORK/mc" . && ! go build -o "$WORK/mc" . ; then
  echo "build failed" >&2
  exit 2
fi
BIN=$WORK/mc
if [ "$ID" = C16 ]; then
  # scheduling points before every statement of the library; a second binary with happens-before analysis
  mkdir -p "$WORK/ov"
  if "$WORK/mc" instrument /repo "$WORK/ov" && go build -overlay "$WORK/ov/overlay.json" -o "$WORK/mci" . ; then
    BIN=$WORK/mci
  else
    echo "note: instrumentation failed, scheduling points only at reads" >&2
  fi
  if CGO_ENABLED=1 go build -race -o "$WORK/mcrace" . ; then
    export MC_RACE_BIN=$WORK/mcrace
  else
    echo "note: no happens-before analysis" >&2
  fi
fi
"$BIN" check "$ID" "$TIER"
