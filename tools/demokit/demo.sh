#!/bin/bash
# builds main.go with the small kit beside it against the repository in the current directory and runs it
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
export HOME=/root
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOROOT=/opt/veriftools/go1.23.12 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOENV=off CGO_ENABLED=1 GOFLAGS=
T=$(mktemp -d /tmp/gocfldemo.XXXXXX) || exit 99
trap 'case "$T" in /tmp/gocfldemo.*) rm -rf -- "$T";; esac' EXIT
cp "$HERE/gocfl.mod.txt" "$T/gocfl.mod"; cp "$HERE/gocfl.sum.txt" "$T/gocfl.sum"; cp "$HERE/kit.go.txt" "$T/kit.go"; cp "$HERE/main.go.txt" "$T/main.go"
echo "{\"Replace\":{\"$REPO/verifdemo/kit.go\":\"$T/kit.go\",\"$REPO/verifdemo/main.go\":\"$T/main.go\"}}" > "$T/overlay.json"
go build $RACE -mod=readonly -modfile="$T/gocfl.mod" -overlay="$T/overlay.json" -o "$T/demo" ./verifdemo || exit 98
cd "$T" && mkdir tmp && TMPDIR="$T/tmp" timeout 200 "$T/demo"
