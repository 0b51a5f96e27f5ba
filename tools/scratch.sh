#!/bin/bash
# scratch.sh DIR: make a scratch copy of /repo's HEAD (or $REV) in DIR with an environment file DIR/env.sh for it.
set -e
d=$1; rev=${2:-HEAD}
mkdir -p "$d"
rm -rf "$d/repo"; mkdir "$d/repo"
git -C /repo archive "$rev" | tar -x -C "$d/repo"
cp /opt/vp/mod/go.mod "$d/go.mod"; cp /opt/vp/mod/go.sum "$d/go.sum" 2>/dev/null || true
sed "s#\"/repo/#\"$d/repo/#g; s#/opt/vp/mod/go.mod#$d/go.mod#" /opt/vp/mod/overlay.json > "$d/overlay.json"
cat > "$d/env.sh" <<X
. /opt/vp/env.sh
export GOFLAGS="-overlay=$d/overlay.json -modfile=$d/go.mod -mod=readonly"
X
