#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_SEED, VERIF_TIER)
# Builds the verifier and the conformance program (both read /repo's current tree) and decides one property.
cd "$(dirname "$0")" || exit 2
. ./env.sh
T=$(mktemp -d /tmp/check.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
(cd replay && go build -o "$T/replay" . 2>"$T/replay.err") &
(cd govc && go build -o "$T/govc" .) || { echo "govc does not build"; exit 2; }
wait
[ -x "$T/replay" ] || { echo "conformance program does not build:"; head -20 "$T/replay.err"; }
export REPLAY_BIN="$T/replay" TMPDIR="$T"
"$T/govc" -prop "$1"
