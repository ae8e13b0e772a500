#!/bin/sh
# Builds the checker from its vendored sources. No network.
set -e
d=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$d/bin"
cd "$d/checker"
GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off go build -o "$d/bin/checker" .
