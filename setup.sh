#!/bin/bash
# Warms the build cache; the checks build what they need themselves.
cd "$(dirname "$0")" || exit 1
. ./env.sh
(cd govc && go build -o /dev/null .) && (cd replay && go build -o /dev/null .)
