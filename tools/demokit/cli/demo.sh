#!/bin/bash
# builds the gocfl command of the repository in the current directory (with a stand-in for the private
# logging module beside this file) and runs case.sh with it in a scratch folder
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOROOT=/opt/veriftools/go1.23.12 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOENV=off CGO_ENABLED=1 GOFLAGS=
T=$(mktemp -d /tmp/gocfldemo.XXXXXX) || exit 99
trap 'case "$T" in /tmp/gocfldemo.*) rm -rf -- "$T";; esac' EXIT
mkdir "$T/ublogger" "$T/w" "$T/home" "$T/ext"
cp "$HERE/ublogger.go.txt" "$T/ublogger/ublogger.go"; cp "$HERE/ublogger.mod.txt" "$T/ublogger/go.mod"
sed "s#UBLOGGER#$T/ublogger#" "$HERE/cli.mod.txt" > "$T/gocfl.mod"; cp "$HERE/cli.sum.txt" "$T/gocfl.sum"
HOME=/root go build -mod=mod -modfile="$T/gocfl.mod" -o "$T/gocfl" ./gocfl || exit 98
printf '[Indexer.XML]\nEnabled = true\n' > "$T/conf.toml"
export GOCFL="$T/gocfl" CONF="$T/conf.toml" EXT="$T/ext" HOME="$T/home"
# g ARGS...: runs gocfl with an empty configuration and without extensions
g() { "$GOCFL" "$@" --config "$CONF"; }
die() { echo "FAIL: $*"; exit 1; }
cd "$T/w"
. "$HERE/case.sh"
echo OK
exit 0
