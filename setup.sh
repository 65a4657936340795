#!/bin/bash
# Warms the build cache: compiles the harness once. Checks rebuild from /repo themselves.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
cd harness && go build -o /dev/null ./cmd/e2e && go build -race -o /dev/null ./cmd/e2e
ov=$(mktemp)
printf '{"Replace":{"/repo/zz_verif_export.go":"%s"}}' "$PWD/overlay/export.go.txt" >"$ov"
go build -overlay "$ov" -o /dev/null ./cmd/tree && go build -race -overlay "$ov" -o /dev/null ./cmd/tree
out=$(mktemp -d)
go run ./cmd/mkplat /repo "$PWD" "$out" "$ov" "/repo/zz_verif_export.go=$PWD/overlay/export.go.txt"
go build -overlay "$ov" -o /dev/null ./cmd/plat
rm -rf "$ov" "$out"
