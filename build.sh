#!/bin/bash
# builds the checker from the committed sources
dir=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
mkdir -p "$dir/bin"
cd "$dir/checker" && GOFLAGS=-mod=mod go build -o "$dir/bin/checker" .
