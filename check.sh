#!/bin/bash
# check.sh <property id> [--tier quick|thorough] [--replay FILE]
. "$(dirname "$0")/env.sh"
id=$1; shift
cd "$VERIF"
if ! rebuild >"$VERIF/out/build-$id.log" 2>&1; then
    tail -20 "$VERIF/out/build-$id.log"
    echo "VIOLATION property=$id replay=$VERIF/out/build-$id.log"
    echo "the compiled extensions no longer build from /repo's working tree"
    exit 1
fi
exec "$PY" -m mc.core "$id" "$@"
