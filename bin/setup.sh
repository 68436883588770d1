#!/bin/bash
# warms the Go build cache and parses the specification once
set -e
cd "$(dirname "$0")/.."
mkdir -p work evidence
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
d=$(mktemp -d "$PWD/work/setup.XXXXXX")
trap 'rm -rf "$d"' EXIT
printf '{"Replace":{"/repo/verifharness/main.go":"%s/harness/main.go"}}' "$PWD" > "$d/overlay.json"
(cd /repo && go build -overlay "$d/overlay.json" -o "$d/harness" ./verifharness)
echo "setup done"
