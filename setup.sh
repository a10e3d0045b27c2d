#!/bin/bash
# Fills the Go build caches so that the first check does not pay for it.
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
printf '{"Replace": {"/repo/verifbridge/bridge.go": "%s/h/bridge/bridge.go.txt"}}\n' "$here" > "$work/overlay.json"
cd "$here/h" || exit 2
CGO_ENABLED=0 go build -overlay "$work/overlay.json" -o "$work/run" ./cmd/run || exit 2
CGO_ENABLED=0 go build -tags bridge -overlay "$work/overlay.json" -o "$work/run" ./cmd/run || exit 2
CGO_ENABLED=1 go build -race -overlay "$work/overlay.json" -o "$work/race" ./cmd/run || exit 2
CGO_ENABLED=0 go build -overlay "$work/overlay.json" -o "$work/limit" ./cmd/limit || exit 2
(cd /repo && CGO_ENABLED=0 go build -o "$work/mp4tool" ./cmd/mp4tool) || exit 2
mkdir -p "$here/evidence" "$here/replays"
