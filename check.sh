#!/bin/bash
# check.sh <property> quick|thorough   decide one property on /repo's current tree
# check.sh replay <file>               replay a reported counterexample natively
# check.sh build                       build the symbolic executor
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GO111MODULE=on GOWORK=off CGO_ENABLED=0
export GOFLAGS="-mod=mod -buildvcs=false"
export VERIF_ROOT="$PWD"
build() {
  mkdir -p bin
  (cd engine && go build -o ../bin/symx .) || exit 2
}
if [ "$1" = build ]; then build; exit 0; fi
if [ ! -x bin/symx ] || [ -n "$(find engine -name '*.go' -newer bin/symx -print -quit)" ]; then build; fi
if [ "$1" = replay ]; then exec bin/symx replay "$2"; fi
exec bin/symx check "$1" "${2:-${VERIF_TIER:-quick}}"
