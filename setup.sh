#!/bin/sh
# Builds the harness once (the checks rebuild it from /repo's current tree each time; this only shows that it builds, and warms the Go cache).
cd "$(dirname "$0")/harness" || exit 1
d=$(mktemp -d) || exit 1
GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o "$d/h" . && "$d/h" -list >/dev/null
rc=$?
rm -rf "$d"
exit $rc
