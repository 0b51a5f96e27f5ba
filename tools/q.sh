#!/bin/bash
# development aid: quick run of a freshly built checker: q.sh PROP (env REPO: another tree, T: time limit)
cd /verif/checker && GOFLAGS=-mod=mod go build -o /tmp/pc . || exit 9
r=${REPO:-/repo}; e=$(dirname $r)/env.sh; [ -f $e ] && . $e || . /opt/vp/env.sh
mkdir -p /tmp/v/evidence; cp /verif/known_findings.txt /tmp/v/
cd $r && timeout ${T:-300} /tmp/pc -repo $r -prop $1 -verif /tmp/v
