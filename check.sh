#!/bin/bash
# ./check.sh build | check <property> <quick|thorough> | replay <file> | debug <relpkg> <func> <args...>
cd "$(dirname "$0")" || exit 2
export GOSYM_VERIF="$PWD" GOSYM_REPO="${GOSYM_REPO:-/repo}"
mkdir -p .bin evidence
(
  flock 9
  cd engine && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o ../.bin/gosym .
) 9>.bin/lock || { echo "ERROR building the engine"; exit 2; }
[ "$1" = build ] && exit 0
exec ./.bin/gosym "$@"
