#!/bin/bash
# check.sh ID: builds the monitoring harness against the current /repo tree and runs the check of property ID.
# exit 0 held, 1 violation (VIOLATION line), anything else: error of the check
HERE=$(cd "$(dirname "$0")" && pwd)
ID=$1
. "$HERE/env.sh"
TMP=$(mktemp -d /tmp/gocflverif.XXXXXX) || exit 2
trap 'case "$TMP" in /tmp/gocflverif.*) rm -rf -- "$TMP";; esac' EXIT
export VERIF_KNOWN="$HERE/known-findings.jsonl" VERIF_EVIDENCE="$HERE/evidence" VERIF_BIN="$TMP"
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
mkdir -p "$VERIF_EVIDENCE"
MODE=""
BIN=harness
case "$ID" in
C22|C26) MODE=race; BIN=harness-race;;
esac
if ! "$HERE/build.sh" "$TMP" $MODE >"$TMP/build.log" 2>&1; then
  echo "check error: the harness does not build against /repo"
  tail -n 40 "$TMP/build.log"
  exit 2
fi
case "$ID" in
C21|C29)
  if ! (cd /repo && go build -mod=mod "-modfile=$TMP/gocfl.mod" -o "$TMP/gocfl" ./gocfl) >"$TMP/build.log" 2>&1; then
    echo "check error: the gocfl command does not build"
    tail -n 40 "$TMP/build.log"
    exit 2
  fi;;
esac
export GORACE="halt_on_error=0 exitcode=0 log_path=$TMP/race"
"$TMP/$BIN" "$ID"
RC=$?
exit $RC
