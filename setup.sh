#!/bin/bash
# Offline build of the explorer (warms the Go build cache).
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
cd "$HERE/mc" && go build -o /dev/null .
