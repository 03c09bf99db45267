#!/bin/bash
# Runs the demonstration test beside this file inside the package named in PKG, by overlay.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
pkg=$(cat "$here/PKG")
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
printf '{"Replace":{"%s/%s/zz_planted_demo_test.go":"%s/demo_test.go"}}\n' "$PWD" "$pkg" "$tmp" > "$tmp/o.json"
timeout 240 go test -vet=off -count=1 -overlay "$tmp/o.json" -run '^TestPlantedDemo$' "./$pkg" || exit 1
