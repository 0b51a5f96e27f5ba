#!/bin/bash
# runs the demonstration beside this script as a test of the package in the current tree (cwd: the repository)
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
pkg=$(cat "$here/pkg")
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
base=$(echo "$GOFLAGS" | sed -n 's/.*-overlay=\([^ ]*\).*/\1/p')
python3 - "$base" "$repo/$pkg/zz_demo_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])) if sys.argv[1] else {"Replace":{}}
o["Replace"][sys.argv[2]]=sys.argv[3]
print(json.dumps(o))
P
export GOFLAGS="-overlay=$tmp/overlay.json $(echo "$GOFLAGS" | sed 's/-overlay=[^ ]*//')"
timeout 200 go test -vet=off -count=1 -run 'TestZZDemo' ./$pkg
