#!/bin/bash
# Runs demo.go (beside this file) as a main package of the module in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:$PATH GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GOWORK=off GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/internal/zzdemo/main.go":"%s/demo.go"}}' "$PWD" "$here" >"$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./internal/zzdemo || exit 3
timeout 250 "$t/demo"
