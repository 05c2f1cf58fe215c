#!/bin/bash
# usage: check.sh <property>; exit 0 = holds, 1 = VIOLATION line printed.
cd "$(dirname "$0")"
[ -x bin/gostlsa ] || bash setup.sh >&2
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
exec bin/gostlsa -prop "$1" -repo "${GOSTL_REPO:-/repo}" -verif "$PWD"
