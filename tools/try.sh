#!/bin/bash
# try.sh PATCH [ids...]: apply a patch to a scratch copy, build, test, and run checks on it (development aid).
patch=$(realpath "$1"); shift
d=$(mktemp -d /tmp/tryXXXXXX)
bash "$(dirname "$0")/scratch.sh" "$d" ${REV:-HEAD}
. "$d/env.sh"
cd "$d/repo"
if ! git apply --unsafe-paths --directory="$d/repo" "$patch" 2>/dev/null && ! patch -s -p1 < "$patch"; then echo "PATCH FAILED"; rm -rf "$d"; exit 2; fi
go build ./... || { echo "BUILD FAILED"; rm -rf "$d"; exit 2; }
if [ -z "$NOTEST" ]; then go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files" | grep -v "^ok" && echo "TESTS FAIL"; fi
mkdir -p "$d/v"; cp /verif/known_findings.txt "$d/v/" 2>/dev/null
for id in ${@:-$(/verif/bin/checker -list)}; do
  out=$(/verif/bin/checker -prop $id -repo "$d/repo" -verif "$d/v" 2>&1); rc=$?
  if [ $rc -ne 0 ]; then echo "[$id rc=$rc]"; echo "$out" | grep -v "^  analysed\|^property" | head -${LINES_MAX:-6} | cut -c1-300; fi
done
rm -rf "$d"
