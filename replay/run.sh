#!/bin/bash
# usage: run.sh -prop ID -seed S -case N      runs one case on the real code of /repo and prints it
cd "$(dirname "$0")" || exit 2
. ../env.sh
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
go build -o "$T/replay" . && "$T/replay" "$@"
