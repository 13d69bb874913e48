#!/bin/bash
# check.sh <property> <quick|thorough> : rebuilds the harness from /repo's tree and runs one check.
# exit 0 held, 1 violation (VIOLATION line), 2 no answer (build failure).
cd "$(dirname "$0")" || exit 2
ID=$1
TIER=${2:-quick}
case "$ID" in
P01) V=asan ;;
P19) V=comment ;;
*) V=plain ;;
esac
BIN=$(./build.sh $V) || { echo "build of the harness failed" >&2; exit 2; }
export YV_HOME=$PWD
export ASAN_OPTIONS=exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1
exec "$BIN" check "$ID" "$TIER"
