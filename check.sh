#!/bin/sh
# Decides properties by id against the repository's working tree.
d=$(cd "$(dirname "$0")" && pwd)
cd "$d" || exit 2
stale=0
[ -x bin/checker ] || stale=1
if [ $stale = 0 ] && [ -n "$(find checker -name '*.go' -newer bin/checker -not -path '*/vendor/*' -print -quit)" ]; then stale=1; fi
if [ $stale = 1 ]; then ./build.sh >&2 || exit 2; fi
exec bin/checker check "$@"
