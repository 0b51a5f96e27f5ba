#!/bin/bash
# run.sh <property id>: builds the checker if needed and decides one property on /repo's current source.
dir=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
bin="$dir/bin/checker"
if [ ! -x "$bin" ] || [ -n "$(find "$dir/checker" -newer "$bin" -name '*.go' -print -quit 2>/dev/null)" ]; then
  mkdir -p "$dir/bin"
  (cd "$dir/checker" && GOFLAGS=-mod=mod go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "cannot build the checker" >&2; exit 2; }
fi
exec "$bin" -prop "$1" -repo "${REPO:-/repo}" -verif "$dir"
