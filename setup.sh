#!/bin/bash
# warms the build cache; every check builds again from /repo's working tree
HERE=$(cd "$(dirname "$0")" && pwd)
TMP=$(mktemp -d /tmp/gocflverif.XXXXXX) || exit 2
trap 'case "$TMP" in /tmp/gocflverif.*) rm -rf -- "$TMP";; esac' EXIT
"$HERE/build.sh" "$TMP" && "$HERE/build.sh" "$TMP" race
